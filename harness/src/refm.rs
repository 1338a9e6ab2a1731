//! An independent reading of the document syntax the parser accepts, written from the properties:
//! one left-to-right recursive descent over bytes, with no backtracking. `None` means "rejected".
use crate::cfg::*;
use crate::tpl::{is_digit, is_letter, is_space};
use sgmlish::SgmlEvent;
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Decl,
    Pi,
    Section,
    Open,
    Attr,
    Close,
    XmlClose,
    End,
    Text,
}
#[derive(Clone)]
pub struct Ev {
    pub k: K,
    pub a: String,
    pub b: Option<String>,
}
pub struct Ref<'a> {
    s: &'a [u8],
    cfg: u32,
    pub ev: Vec<Ev>,
    /// the undefined entity that made the document be rejected
    /// (name, start and end of the reference in the document)
    pub undefined: Option<Undefined>,
    /// where the document made no sense any more (first and last possible position)
    pub fails: Cell<(usize, usize)>,
    /// start of the outermost INCLUDE section around that
    pub include: Option<usize>,
}
const EOF: u16 = 256;

fn string(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub fn trim(s: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, s.len());
    while i < j && is_space(s[i]) {
        i += 1
    }
    while i < j && is_space(s[j - 1]) {
        j -= 1
    }
    &s[i..j]
}
/// The character at p: (code point, length). Only called within the string.
pub fn char_at(s: &[u8], p: usize) -> (u32, usize) {
    let b = s[p] as u32;
    if b < 0x80 {
        return (b, 1);
    }
    let c = |i: usize| (*s.get(p + i).unwrap_or(&0x80) & 0x3f) as u32;
    if b < 0xe0 {
        ((b & 31) << 6 | c(1), 2)
    } else if b < 0xf0 {
        ((b & 15) << 12 | c(1) << 6 | c(2), 3)
    } else {
        ((b & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4)
    }
}
/// The length of the name-starting character at p, if it is one.
pub fn name_start(s: &[u8], p: usize) -> Option<usize> {
    if p >= s.len() {
        return None;
    }
    let (c, n) = char_at(s, p);
    let yes = if c < 0x80 { is_letter(c as u8) } else { char::from_u32(c).map_or(false, |c| c.is_alphabetic()) };
    yes.then(|| n)
}
pub fn name_char(s: &[u8], p: usize) -> Option<usize> {
    if p >= s.len() {
        return None;
    }
    let (c, n) = char_at(s, p);
    let yes = if c < 0x80 {
        let b = c as u8;
        is_letter(b) || is_digit(b) || b == b'.' || b == b'-' || b == b'_' || b == b':'
    } else {
        char::from_u32(c).map_or(false, |c| c.is_alphabetic() || c.is_numeric())
    };
    yes.then(|| n)
}
/// End of the name starting at p, if any.
pub fn name(s: &[u8], p: usize) -> Option<usize> {
    let mut q = p + name_start(s, p)?;
    while let Some(n) = name_char(s, q) {
        q += n
    }
    Some(q)
}

#[derive(Clone, PartialEq, Eq)]
pub struct Undefined {
    pub name: String,
    pub start: usize,
    pub end: usize,
}

/// Expansion of general references (`prefix` = `&`) or parameter references (`%`).
pub fn expand(s: &[u8], prefix: u8, mut f: impl FnMut(&str) -> Option<String>) -> Result<Vec<u8>, Undefined> {
    let mut o = Vec::with_capacity(s.len() + 8);
    let mut p = 0;
    while p < s.len() {
        if s[p] != prefix {
            o.push(s[p]);
            p += 1;
            continue;
        }
        let start = p;
        let hash = p + 1 < s.len() && s[p + 1] == b'#';
        let mut end = p + 1;
        let mut code: Option<u64> = None;
        if hash && prefix == b'&' && p + 2 < s.len() && is_digit(s[p + 2]) {
            end = p + 2;
            let mut v: u64 = 0;
            while end < s.len() && is_digit(s[end]) {
                v = (v * 10 + (s[end] - b'0') as u64).min(1 << 40);
                end += 1;
            }
            code = Some(v);
        } else if hash && prefix == b'&' && p + 2 < s.len() && s[p + 2] == b'x' && name_char(s, p + 3).is_some() {
            end = p + 3;
            let mut v: Option<u64> = Some(0);
            while let Some(n) = name_char(s, end) {
                let c = s[end];
                let d = if is_digit(c) {
                    Some((c - b'0') as u64)
                } else if (c | 32) >= b'a' && (c | 32) <= b'f' {
                    Some(((c | 32) - b'a') as u64 + 10)
                } else {
                    None
                };
                v = match (v, d) {
                    (Some(v), Some(d)) => Some((v * 16 + d).min(1 << 40)),
                    _ => None,
                };
                end += n;
            }
            code = Some(v.unwrap_or(1 << 40));
        } else if let Some(e) = name(s, p + 1 + hash as usize) {
            end = e;
        }
        if end == p + 1 {
            // starts no reference
            o.push(prefix);
            p += 1;
            continue;
        }
        let nm = string(&s[p + 1..end]);
        p = end;
        if p < s.len() && s[p] == b';' {
            p += 1;
        }
        match code {
            Some(v) if v < 0xd800 || (v >= 0xe000 && v <= 0x10ffff) => push_utf8(&mut o, v as u32),
            _ => match f(&nm) {
                Some(t) => o.extend_from_slice(t.as_bytes()),
                None => return Err(Undefined { name: nm, start, end: p }),
            },
        }
    }
    Ok(o)
}
fn push_utf8(o: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        o.push(c as u8)
    } else if c < 0x800 {
        o.extend_from_slice(&[0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8])
    } else if c < 0x10000 {
        o.extend_from_slice(&[0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
    } else {
        o.extend_from_slice(&[0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
    }
}

/// Keyword status: 0 include, 1 rcdata, 2 cdata, 3 ignore.
pub fn keyword(w: &[u8]) -> Option<u32> {
    let is = |k: &[u8]| w.len() == k.len() && w.iter().zip(k).all(|(a, b)| (*a == *b) | (*a == *b + 32));
    match w.len() {
        4 if is(b"TEMP") => Some(0),
        5 if is(b"CDATA") => Some(2),
        6 if is(b"RCDATA") => Some(1),
        6 if is(b"IGNORE") => Some(3),
        7 if is(b"INCLUDE") => Some(0),
        _ => None,
    }
}
/// The strictest of the keywords.
pub fn keywords(s: &[u8]) -> Option<u32> {
    let mut best = 0;
    let mut i = 0;
    let sep = |c: u8| is_space(c) || c == 0x0c;
    while i < s.len() {
        if sep(s[i]) {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < s.len() && !sep(s[j]) {
            j += 1
        }
        let k = keyword(&s[i..j])?;
        if k > best {
            best = k
        }
        i = j;
    }
    Some(best)
}

/// The first word of s that isn't a keyword, or else s
fn bad_keyword(s: &[u8]) -> &[u8] {
    let sep = |c: u8| is_space(c) || c == 0x0c;
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while j < s.len() && !sep(s[j]) {
            j += 1
        }
        if j > i && keyword(&s[i..j]).is_none() {
            return &s[i..j];
        }
        i = j + 1;
    }
    s
}

impl<'a> Ref<'a> {
    pub fn new(s: &'a str, cfg: u32) -> Self {
        Ref { s: s.as_bytes(), cfg, ev: Vec::with_capacity(16), undefined: None, fails: Cell::new((0, 0)), include: None }
    }
    /// Rejects the document, at p.
    fn bad<T>(&self, p: usize) -> Option<T> {
        self.fails.set((p, p));
        None
    }
    /// Rejects the document: something isn't terminated.
    fn open_ended<T>(&self) -> Option<T> {
        self.bad(self.s.len())
    }
    fn at(&self, p: usize) -> u16 {
        if p < self.s.len() {
            self.s[p] as u16
        } else {
            EOF
        }
    }
    fn is(&self, p: usize, c: u8) -> bool {
        p < self.s.len() && self.s[p] == c
    }
    fn starts(&self, p: usize, lit: &[u8]) -> bool {
        lit.iter().enumerate().all(|(i, c)| self.is(p + i, *c))
    }
    fn find(&self, mut p: usize, lit: &[u8]) -> Option<usize> {
        while p + lit.len() <= self.s.len() {
            if self.starts(p, lit) {
                return Some(p);
            }
            p += 1;
        }
        None
    }
    fn spaces(&self, mut p: usize) -> usize {
        while p < self.s.len() && is_space(self.s[p]) {
            p += 1
        }
        p
    }
    fn push(&mut self, k: K, a: &[u8], b: Option<&[u8]>) {
        self.ev.push(Ev { k, a: string(a), b: b.map(string) })
    }
    fn norm(&self, n: &[u8]) -> Vec<u8> {
        if self.cfg & (LOWER | UPPER) == 0 {
            return n.to_vec();
        }
        let up = self.cfg & UPPER != 0;
        let mut o = vec![];
        let mut p = 0;
        while p < n.len() {
            let (c, l) = char_at(n, p);
            p += l;
            if c < 0x80 {
                let b = c as u8;
                // no branch: one expression for both cases
                let hit = if up { b.wrapping_sub(b'a') < 26 } else { b.wrapping_sub(b'A') < 26 };
                o.push(b ^ ((hit as u8) << 5));
            } else if let Some(c) = char::from_u32(c) {
                let mut t = [0; 4];
                if up {
                    for c in c.to_uppercase() {
                        o.extend_from_slice(c.encode_utf8(&mut t).as_bytes())
                    }
                } else {
                    for c in c.to_lowercase() {
                        o.extend_from_slice(c.encode_utf8(&mut t).as_bytes())
                    }
                }
            }
        }
        o
    }
    fn trimmed(&self, s: &'a [u8]) -> &'a [u8] {
        if self.cfg & NOTRIM == 0 {
            trim(s)
        } else {
            s
        }
    }
    fn rcdata(&mut self, s: &'a [u8]) -> Option<Vec<u8>> {
        let on = self.cfg & ENT != 0;
        match expand(s, b'&', |n| if on { ent(n).map(|s| s.to_string()) } else { None }) {
            Ok(v) => Some(v),
            Err(u) => {
                self.undefine(s, u);
                None
            }
        }
    }

    fn undefine(&mut self, part: &[u8], u: Undefined) {
        let base = part.as_ptr() as usize - self.s.as_ptr() as usize;
        self.fails.set((base + u.start, base + u.start));
        self.undefined = Some(Undefined { name: u.name, start: base + u.start, end: base + u.end });
    }

    /// The whole document.
    pub fn document(&mut self) -> Option<()> {
        let mut p = self.comments_and_spaces(0)?;
        loop {
            if self.starts(p, b"<!") && name_start(self.s, p + 2).is_some() {
                p = self.declaration(p, true)?;
            } else if self.starts(p, b"<![") {
                p = self.section(p)?;
            } else if self.starts(p, b"<?") {
                p = self.instruction(p)?;
            } else {
                break;
            }
            p = self.comments_and_spaces(p)?;
        }
        self.content(p, false)?;
        Some(())
    }
    fn comments_and_spaces(&self, mut p: usize) -> Option<usize> {
        loop {
            let q = self.comments(self.spaces(p))?;
            if q == p {
                return Some(p);
            }
            p = q;
        }
    }
    /// Skips comment declarations.
    fn comments(&self, mut p: usize) -> Option<usize> {
        while self.starts(p, b"<!") && (self.is(p + 2, b'-') || self.is(p + 2, b'>')) {
            p += 2;
            if self.starts(p, b"--") {
                loop {
                    p = self.comment(p)?;
                    let q = self.spaces(p);
                    if !self.starts(q, b"--") {
                        break;
                    }
                    p = q;
                }
            }
            if !self.is(p, b'>') {
                return self.bad(p);
            }
            p += 1;
        }
        Some(p)
    }
    /// The position after the next occurrence of the delimiter
    fn after(&self, p: usize, lit: &[u8]) -> Option<usize> {
        match self.find(p, lit) {
            Some(q) => Some(q + lit.len()),
            None => self.open_ended(),
        }
    }
    fn comment(&self, p: usize) -> Option<usize> {
        self.after(p + 2, b"--")
    }
    fn quoted(&self, p: usize) -> Option<usize> {
        let q = self.s[p];
        self.after(p + 1, &[q])
    }
    /// `<!name body>`
    fn declaration(&mut self, p: usize, emit: bool) -> Option<usize> {
        let e = name(self.s, p + 2)?;
        let start = self.spaces(e);
        let mut end = start;
        let mut q = start;
        loop {
            q = self.spaces(q);
            let c = self.at(q);
            if c == EOF || c == b'<' as u16 {
                return self.bad(q);
            }
            let c = c as u8;
            if c == b'>' {
                break;
            }
            if c == b'-' {
                q = if self.is(q + 1, b'-') { self.comment(q)? } else { q + 1 };
            } else if c == b'"' || c == b'\'' {
                q = self.quoted(q)?;
            } else if c == b'[' {
                q = self.subset(q)?;
            } else {
                q += 1;
            }
            end = q;
        }
        if emit && self.cfg & NOMD == 0 {
            let s = self.s;
            self.push(K::Decl, &s[p + 2..e], Some(&s[start..end]));
        }
        Some(q + 1)
    }
    fn subset(&mut self, p: usize) -> Option<usize> {
        let mut q = p + 1;
        loop {
            let c = self.at(q);
            if c == EOF || c == b'>' as u16 {
                return self.bad(q);
            }
            let c = c as u8;
            if c == b']' {
                return Some(q + 1);
            }
            if c == b'-' {
                if !self.is(q + 1, b'-') {
                    return self.bad(q);
                }
                q = self.comment(q)?;
            } else if c == b'"' || c == b'\'' {
                q = self.quoted(q)?;
            } else if c == b'[' {
                q = self.subset(q)?;
            } else if c == b'<' {
                if !(self.is(q + 1, b'!') && name_start(self.s, q + 2).is_some()) {
                    return self.bad(q);
                }
                q = self.declaration(q, false)?;
            } else {
                q += 1;
            }
        }
    }
    fn instruction(&mut self, p: usize) -> Option<usize> {
        let e = self.after(p + 2, b">")?;
        if self.cfg & NOPI == 0 {
            let s = self.s;
            self.push(K::Pi, &s[p..e], None);
        }
        Some(e)
    }
    /// `<![keywords[body]]>`
    fn section(&mut self, p: usize) -> Option<usize> {
        let s = self.s;
        let mut q = p + 3;
        while q < s.len() && !(s[q] == b'[' || s[q] == b']' || s[q] == b'<' || s[q] == b'>' || s[q] == b'!') {
            q += 1
        }
        if !self.is(q, b'[') {
            return self.bad(q);
        }
        let on = self.cfg & PENT != 0;
        let kw = match expand(trim(&s[p + 3..q]), b'%', |n| if on { pent(n).map(|s| s.to_string()) } else { None }) {
            Ok(k) => k,
            Err(u) => {
                self.undefine(trim(&s[p + 3..q]), u);
                return None;
            }
        };
        let body = q + 1;
        let raw = trim(&s[p + 3..q]);
        let status = if self.cfg & (KEEP | EXPAND) != 0 {
            keywords(&kw)
        } else {
            match keyword(&kw) {
                k @ Some(1 | 2) => k,
                _ => None,
            }
        };
        let status = match status {
            Some(k) => k,
            None => {
                self.fails.set((p + 3, q));
                if !raw.is_empty() && kw == raw {
                    // as written in the document
                    let w = if self.cfg & (KEEP | EXPAND) != 0 { bad_keyword(raw) } else { raw };
                    return self.bad(w.as_ptr() as usize - s.as_ptr() as usize);
                }
                return None;
            }
        };
        let before = self.ev.len();
        let end = match status {
            3 => {
                let mut depth = 1;
                let mut q = body;
                loop {
                    if q >= s.len() {
                        return self.open_ended();
                    }
                    if self.starts(q, b"<![") {
                        depth += 1;
                        q += 3;
                    } else if self.starts(q, b"]]>") {
                        depth -= 1;
                        if depth == 0 {
                            break q;
                        }
                        q += 3;
                    } else {
                        q += 1;
                    }
                }
            }
            0 => {
                let outer = self.include;
                self.include = outer.or(Some(p));
                let e = self.content(body, true)?;
                self.include = outer;
                e
            }
            _ => self.after(body, b"]]>")? - 3,
        };
        if self.cfg & KEEP != 0 {
            self.ev.truncate(before);
            self.push(K::Section, &kw, Some(&s[body..end]));
        } else if status == 2 {
            let t = self.trimmed(&s[body..end]);
            self.push(K::Text, t, None);
        } else if status == 1 {
            let t = self.trimmed(&s[body..end]);
            let t = self.rcdata(t)?;
            self.push(K::Text, &t, None);
        }
        Some(end + 3)
    }
    /// Content up to the end of the document, or up to the `]]>` that ends a section.
    fn content(&mut self, p: usize, in_section: bool) -> Option<usize> {
        let mut p = p;
        let mut items = 0;
        if in_section {
            p = self.comments(p)?;
        }
        loop {
            if in_section && self.starts(p, b"]]>") {
                return Some(p);
            }
            if p >= self.s.len() {
                return if !in_section && items > 0 { Some(p) } else { self.bad(p) };
            }
            p = self.item(p, in_section)?;
            items += 1;
            p = self.comments(p)?;
        }
    }
    /// Does the `<` at p begin markup?
    fn is_markup(&self, p: usize) -> bool {
        match self.at(p + 1) {
            0x21 => self.is(p + 2, b'-') || self.is(p + 2, b'>') || self.is(p + 2, b'[') || name_start(self.s, p + 2).is_some(),
            0x3f | 0x3e => true,
            0x2f => self.is(p + 2, b'>') || name_start(self.s, p + 2).is_some(),
            _ => name_start(self.s, p + 1).is_some(),
        }
    }
    fn item(&mut self, p: usize, in_section: bool) -> Option<usize> {
        let s = self.s;
        let mut q = p;
        while q < s.len() && !(in_section && self.starts(q, b"]]>")) && !(s[q] == b'<' && self.is_markup(q)) {
            q += 1
        }
        if q > p {
            let t = self.trimmed(&s[p..q]);
            if !t.is_empty() {
                let t = self.rcdata(t)?;
                self.push(K::Text, &t, None);
            }
            return Some(q);
        }
        // p is at a `<` that begins markup
        match self.at(p + 1) {
            0x3f => self.instruction(p),
            0x3e => {
                self.push(K::Open, b"", None);
                self.push(K::Close, b"", None);
                Some(p + 2)
            }
            0x21 if self.is(p + 2, b'[') => self.section(p),
            0x21 => self.bad(p), // a declaration
            0x2f => {
                let e = name(s, p + 2).unwrap_or(p + 2);
                let n = self.norm(&s[p + 2..e]);
                let e = if e > p + 2 { self.spaces(e) } else { e };
                if !self.is(e, b'>') {
                    return self.bad(e);
                }
                self.push(K::End, &n, None);
                Some(e + 1)
            }
            _ => self.start_tag(p),
        }
    }
    fn start_tag(&mut self, p: usize) -> Option<usize> {
        let s = self.s;
        let e = name(s, p + 1)?;
        let n = self.norm(&s[p + 1..e]);
        self.push(K::Open, &n, None);
        let mut q = self.spaces(e);
        loop {
            if self.is(q, b'>') {
                self.push(K::Close, b"", None);
                return Some(q + 1);
            }
            if self.starts(q, b"/>") {
                self.push(K::XmlClose, b"", None);
                return Some(q + 2);
            }
            let e = match name(s, q) {
                Some(e) => e,
                None => return self.bad(q),
            };
            let n = self.norm(&s[q..e]);
            let eq = self.spaces(e);
            if !self.is(eq, b'=') {
                self.push(K::Attr, &n, None);
                q = eq;
                continue;
            }
            let v = self.spaces(eq + 1);
            let c = self.at(v);
            if c == b'"' as u16 || c == b'\'' as u16 {
                let end = self.quoted(v)?;
                let val = self.rcdata(&s[v + 1..end - 1])?;
                self.push(K::Attr, &n, Some(&val));
                q = self.spaces(end);
            } else {
                let mut end = v;
                while end < s.len() && !(s[end] == b'"' || s[end] == b'\'' || s[end] == b'>' || is_space(s[end])) {
                    end += 1
                }
                if end == v {
                    return self.bad(v);
                }
                self.push(K::Attr, &n, Some(&s[v..end]));
                q = self.spaces(end);
            }
        }
    }
}

pub fn same(e: &SgmlEvent, r: &Ev) -> bool {
    match e {
        SgmlEvent::MarkupDeclaration { keyword, body } => r.k == K::Decl && **keyword == *r.a && Some(&**body) == r.b.as_deref(),
        SgmlEvent::ProcessingInstruction(t) => r.k == K::Pi && **t == *r.a,
        SgmlEvent::MarkedSection { status_keywords, section } => r.k == K::Section && **status_keywords == *r.a && Some(&**section) == r.b.as_deref(),
        SgmlEvent::OpenStartTag { name } => r.k == K::Open && **name == *r.a,
        SgmlEvent::Attribute { name, value } => r.k == K::Attr && **name == *r.a && value.as_deref() == r.b.as_deref(),
        SgmlEvent::CloseStartTag => r.k == K::Close,
        SgmlEvent::XmlCloseEmptyElement => r.k == K::XmlClose,
        SgmlEvent::EndTag { name } => r.k == K::End && **name == *r.a,
        SgmlEvent::Character(t) => r.k == K::Text && **t == *r.a,
    }
}
pub fn show(ev: &[Ev]) -> String {
    let mut s = String::new();
    for e in ev {
        let n = match e.k {
            K::Decl => "MarkupDeclaration",
            K::Pi => "ProcessingInstruction",
            K::Section => "MarkedSection",
            K::Open => "OpenStartTag",
            K::Attr => "Attribute",
            K::Close => "CloseStartTag",
            K::XmlClose => "XmlCloseEmptyElement",
            K::End => "EndTag",
            K::Text => "Character",
        };
        s.push_str(&format!("{} {:?} {:?}; ", n, e.a, e.b));
    }
    s
}
