//! P14-P16, P20: printing, escaping, owned copies.
use crate::cfg::*;
use crate::{cfg, sx, tpl};
use sgmlish::entities::expand_characters;
use sgmlish::text::escape;
use sgmlish::{SgmlEvent, SgmlFragment};

const TH: u32 = 1000;
pub struct T(u32, &'static [u8], &'static [u32]);
/// P14: whitespace kept, sections expanded
const W: &[u32] = &[NOTRIM | EXPAND];
const WE: &[u32] = &[NOTRIM | EXPAND | ENT | PENT];
const NO: &[u32] = &[0];

pub const TEXTS: &[T] = &[
    T(14, b"<a>\x01\x01\x01\x01", W),
    T(14, b"\x01\x01\x01", W),
    T(14, b"<!d \x01>\x06<![CDATA[\x01\x06]]>\x01", W),
    T(14, b"<![CDATA[\x01\x06]]>\x06<?p>\x01", W),
    T(14, b"<a>\x02\x01\x02</a>", W),
    T(14, b"<\x01\x01\x01>x</\x01>", W),
    T(14, b"<a \x01\x01\x01\x01>x", W),
    T(14, b"<a b=\x0e\x02\x02\x0e>x", WE),
    T(14, b"<a b=\x0e\x01\x01\x01\x0e c=\x01>", WE),
    T(14, b"<a b='&#3\x08;&#\x08\x08;\x01' c=\"\x01&lt;\x01\">&#\x08\x08;\x01&#x2\x05;</a>", WE),
    T(14, b"<a b=\x01\x01\x01/><c d='&b&a;\x01'>&b;&a;\x01", WE),
    T(TH + 14, b"<a b=\x0e\x01\x01\x01\x01\x0e \x04=\x01\x01>", WE),
    T(TH + 14, b"<\x13\x02 \x13\x02></\x13>", W),
    T(14, b"<a>&#\x08\x08;\x01\x01&#6\x08;", WE),
    T(14, b"<a>\x01<![CDATA[\x01\x01\x01]]>\x01</a>", W),
    T(14, b"<a><![CDATA[<b c='\x01'>&\x01;]]\x01]]><![RCDATA[\x01&#6\x08;<\x01]]></a>", WE),
    T(14, b"<a><![IGNORE[<b>]]><![CDATA[]]>\x01<![INCLUDE[<c>\x01</c>]]></a>", W),
    T(14, b"<a><!--\x01--><?\x01\x01>\x01<b/></>\x01</a>", W),
    T(14, b"<!d \x01\x01\x01><a>x", W),
    T(14, b"<!d \x0e\x01>\x0e [<!e --\x01>-- '\x01'>]> <?p \x01><!\x04\x05><a>x", W),
    T(14, b"<></><a\x01><b c d = e f=\x01g\x01h/>]]>\x01&\x01;", W),
    T(14, b"<\x13\x02 b\x0f></\x04>", W),
    T(14, b"<a>x\x01<!>y\x01<\x01\x01", W),
    T(14, b"<a><![INCLUDE[\x01]]]]>]>x<![CDATA[]]]><\x01]]>>", W),
    T(TH + 14, b"<a>\x01\x01\x01\x01\x01\x01", W),
    T(TH + 14, b"<a b=\x0e\x02\x02\x02\x0e>x", WE),
    T(TH + 14, b"<a \x01\x01\x01\x01\x01\x01>x", W),
    T(TH + 14, b"<!d \x01\x01\x01\x01\x01><a>x", W),
    T(TH + 14, b"<a><![CDATA[\x01\x01\x01\x01\x01]]>\x01", W),
    // P15: attribute values
    T(15, b"\x01\x01\x01\x01", NO),
    T(15, b"\x02\x02\x02", NO),
    T(15, b"'\"\x01\x01\x01", NO),
    T(15, b"&\x01\x01\x01\"", NO),
    T(15, b"&#\x08\x08\x01&#x\x05\x05;\x01", NO),
    T(15, b"\x01\n\x01\t'\x01", NO),
    T(15, b"\x0f\x01\x0f\x01", NO),
    T(15, b"&lt\x01 &amp;\x01", NO),
    T(15, b"<!--\x01-->\x01<b c='>'/>\x01]]>", NO),
    T(15, b"\x11\x01\x01", NO),
    T(TH + 15, b"\x01\x01\x01\x01\x01\x01", NO),
    T(TH + 15, b"\x02\x02\x02\x02", NO),
    // P16: texts to escape
    T(16, b"\x01\x01\x01\x01", NO),
    T(16, b"\x02\x02\x02", NO),
    T(16, b"\x01\x0f\x01\x0f", NO),
    T(16, b"&#60;\x01&#\x08\x08;\x01", NO),
    T(16, b"&\x01&\x01&\x01", NO),
    T(16, b"a \x06longer text\x01 \x0f<\x01", NO),
    T(TH + 16, b"\x01\x01\x01\x01\x01\x01", NO),
    T(TH + 16, b"\x02\x02\x02\x02", NO),
    // P20: parsed documents, made owned
    T(20, b"<a>\x01\x01\x01", &[0, KEEP]),
    T(20, b"<!d \x01><?\x01><a b=\x01 c d='&#\x08;&lt;' e=''>\x0f<![CDATA[\x01]]>&#6\x08;</a>", &[EXPAND | ENT, KEEP | ENT, EXPAND | ENT | NOTRIM]),
    T(20, b"<A B/><![CDATA[]]>\x02</\x04>", &[LOWER | EXPAND, KEEP | UPPER]),
];

fn merged(ev: &[SgmlEvent]) -> Vec<SgmlEvent<'static>> {
    let mut v: Vec<SgmlEvent<'static>> = Vec::with_capacity(ev.len());
    for e in ev {
        if let SgmlEvent::Character(t) = e {
            if t.is_empty() {
                continue;
            }
            if let Some(SgmlEvent::Character(p)) = v.last_mut() {
                p.to_mut().push_str(t);
                continue;
            }
            v.push(SgmlEvent::Character(t.to_string().into()));
        } else {
            v.push(clone(e));
        }
    }
    v
}
/// An owned copy, made here.
pub fn clone(e: &SgmlEvent) -> SgmlEvent<'static> {
    use SgmlEvent::*;
    let s = |s: &str| s.to_string().into();
    match e {
        MarkupDeclaration { keyword, body } => MarkupDeclaration { keyword: s(keyword), body: s(body) },
        ProcessingInstruction(t) => ProcessingInstruction(s(t)),
        MarkedSection { status_keywords, section } => MarkedSection { status_keywords: s(status_keywords), section: s(section) },
        OpenStartTag { name } => OpenStartTag { name: s(name) },
        Attribute { name, value } => Attribute { name: s(name), value: value.as_ref().map(|v| s(v)) },
        CloseStartTag => CloseStartTag,
        XmlCloseEmptyElement => XmlCloseEmptyElement,
        EndTag { name } => EndTag { name: s(name) },
        Character(t) => Character(s(t)),
    }
}
/// Equality, written out here.
pub fn equal(a: &SgmlEvent, b: &SgmlEvent) -> bool {
    use SgmlEvent::*;
    match (a, b) {
        (MarkupDeclaration { keyword: a, body: b }, MarkupDeclaration { keyword: c, body: d }) => **a == **c && **b == **d,
        (ProcessingInstruction(a), ProcessingInstruction(b)) => **a == **b,
        (MarkedSection { status_keywords: a, section: b }, MarkedSection { status_keywords: c, section: d }) => **a == **c && **b == **d,
        (OpenStartTag { name: a }, OpenStartTag { name: b }) => **a == **b,
        (Attribute { name: a, value: b }, Attribute { name: c, value: d }) => **a == **c && b.as_deref() == d.as_deref(),
        (CloseStartTag, CloseStartTag) | (XmlCloseEmptyElement, XmlCloseEmptyElement) => true,
        (EndTag { name: a }, EndTag { name: b }) => **a == **b,
        (Character(a), Character(b)) => **a == **b,
        _ => false,
    }
}
pub fn all_equal(a: &[SgmlEvent], b: &[SgmlEvent]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b))
}

#[no_mangle]
pub extern "C" fn h_print(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(TEXTS[t as usize].1);
    let f = match cfg::parser(c).parse(&s) {
        Ok(f) => f,
        Err(_) => {
            sx::cover(2);
            return;
        }
    };
    // text in front of the first tag: leading space there belongs to the prolog, not to the text
    for e in f.as_slice() {
        match e {
            SgmlEvent::Character(t) if !t.is_empty() => {
                sx::cover(3);
                return;
            }
            SgmlEvent::OpenStartTag { .. } | SgmlEvent::EndTag { .. } => break,
            _ => {}
        }
    }
    if !f.iter().any(|e| matches!(e, SgmlEvent::OpenStartTag { .. } | SgmlEvent::EndTag { .. })) {
        sx::cover(3);
        return;
    }
    let printed = f.to_string();
    let r = cfg::parser(NOTRIM | EXPAND).parse(&printed);
    note!("parsing {:?} ({})\ngives {:?}\nprinted: {:?}\nparsed again: {:?}", s, cfg::show(c), f, printed, r);
    sx::cover(1);
    sx::observe(printed.len() as u64);
    match r {
        Ok(r) => sx::check(all_equal(&merged(f.as_slice()), &merged(r.as_slice())), 61),
        Err(_) => sx::fail(62),
    }
}

#[no_mangle]
pub extern "C" fn h_attr(t: u32, valueless: u32, xml: u32, second: u32) {
    use SgmlEvent::*;
    let v = tpl::build(TEXTS[t as usize].1);
    let name: &'static str = "b-1.c";
    let value = if valueless == 1 { None } else { Some(v.clone().into()) };
    let mut ev = vec![OpenStartTag { name: "a".into() }, Attribute { name: name.into(), value }];
    if second == 1 {
        ev.push(Attribute { name: "z".into(), value: None });
        ev.push(Attribute { name: "y".into(), value: Some(v.clone().into()) });
    }
    ev.push(if xml == 1 { XmlCloseEmptyElement } else { CloseStartTag });
    ev.push(EndTag { name: "a".into() });
    let alone = ev[1].to_string();
    let printed = ["<a ", &alone[..], ">"].concat();
    let r = cfg::parser(0).parse(&printed);
    note!("attribute value {:?}{} prints as {:?}\nwhich parses as {:?}", v, if valueless == 1 { " (not used)" } else { "" }, printed, r);
    match &r {
        Ok(r) => {
            let r = r.as_slice();
            sx::check(r.len() == 3 && equal(&r[1], &ev[1]) && equal(&r[0], &ev[0]) && equal(&r[2], &CloseStartTag), 63);
        }
        Err(_) => sx::fail(64),
    }
    let f = SgmlFragment::from(ev);
    let printed = f.to_string();
    let r = cfg::parser(NOTRIM | EXPAND).parse(&printed);
    note!("fragment {:?}\nprinted: {:?}\nparsed: {:?}", f, printed, r);
    match r {
        Ok(r) => sx::check(all_equal(f.as_slice(), r.as_slice()), 65),
        Err(_) => sx::fail(66),
    }
    sx::cover(1);
    sx::observe(printed.len() as u64);
}

#[no_mangle]
pub extern "C" fn h_escape(t: u32, off: u32, _: u32, _: u32) {
    let s = tpl::build(TEXTS[t as usize].1);
    let mut e = escape(&s);
    if off == 1 {
        e.set_escape_ampersand(false);
    }
    // what is expected, byte by byte
    let mut x: Vec<u8> = Vec::with_capacity(s.len() * 5);
    for b in s.bytes() {
        match b {
            b'<' => x.extend_from_slice(b"&#60;"),
            b'>' => x.extend_from_slice(b"&#62;"),
            b'&' if off == 0 => x.extend_from_slice(b"&#38;"),
            b => x.push(b),
        }
    }
    let out = e.to_string();
    note!("escaping {:?} (ampersands {}): {:?}, expected {:?}", s, if off == 1 { "kept" } else { "escaped" }, out, String::from_utf8_lossy(&x));
    let o = out.as_bytes();
    sx::check(!o.iter().any(|c| *c == b'<' || *c == b'>'), 71);
    if off == 0 {
        for i in 0..o.len() {
            if o[i] == b'&' {
                sx::check(o.len() > i + 4 && o[i + 1] == b'#' && o[i + 4] == b';' && tpl::is_digit(o[i + 2]) && tpl::is_digit(o[i + 3]), 72);
            }
        }
        match expand_characters(&out) {
            Ok(d) => sx::check(d.as_bytes() == s.as_bytes(), 73),
            Err(_) => sx::fail(73),
        }
    }
    sx::check(o == &x[..], 74);
    // step by step
    let mut left = 0;
    for b in o {
        if b & 0xc0 != 0x80 {
            left += 1
        }
    }
    let mut got = String::with_capacity(out.len());
    loop {
        let (lo, hi) = e.size_hint();
        note!("{} characters left, announced {}..{:?}", left, lo, hi);
        sx::check(lo <= left, 75);
        sx::check(hi.map_or(true, |h| h >= left), 76);
        let rest = e.clone().to_string();
        sx::check(out.as_bytes()[got.len()..] == *rest.as_bytes(), 77);
        match e.next() {
            Some(c) => got.push(c),
            None => break,
        }
        sx::check(left > 0, 78);
        left -= 1;
    }
    sx::check(left == 0 && got == out, 79);
    sx::check(e.next().is_none(), 79);
    sx::cover(1);
    sx::observe(out.len() as u64);
}

#[no_mangle]
pub extern "C" fn h_owned_doc(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(TEXTS[t as usize].1);
    let f = match cfg::parser(c).parse(&s) {
        Ok(f) => f,
        Err(_) => {
            sx::cover(2);
            return;
        }
    };
    owned(f);
    sx::cover(1);
}
fn owned(f: SgmlFragment) {
    let before: Vec<SgmlEvent<'static>> = f.iter().map(clone).collect();
    let printed = f.to_string();
    let o = f.into_owned();
    note!("events {:?}\nowned  {:?}", before, o);
    sx::check(o.len() == before.len() && all_equal(o.as_slice(), &before), 81);
    sx::check(o.to_string() == printed, 82);
    for e in &before {
        let p = e.to_string();
        let o = e.clone().into_owned();
        sx::check(equal(&o, e), 83);
        sx::check(o.to_string() == p, 84);
    }
    sx::observe(printed.len() as u64);
}
/// n events of any kind
fn free(n: u32) -> Vec<SgmlEvent<'static>> {
    use SgmlEvent::*;
    let buf: Vec<u8> = (0..2 * n as usize).map(|_| sx::ascii()).collect();
    let all: &'static str = unsafe { std::str::from_utf8_unchecked(Vec::leak(buf)) };
    let mut ev: Vec<SgmlEvent> = vec![];
    for i in 0..n as usize {
        let cow = |k: usize| -> std::borrow::Cow<'static, str> {
            let t = &all[2 * i + k..2 * i + k + 1];
            match sx::choose(3) {
                0 => t.into(),
                1 => t.to_string().into(),
                _ => "".into(),
            }
        };
        ev.push(match sx::choose(10) {
            0 => MarkupDeclaration { keyword: cow(0), body: cow(1) },
            1 => ProcessingInstruction(cow(0)),
            2 => MarkedSection { status_keywords: cow(0), section: cow(1) },
            3 => OpenStartTag { name: cow(0) },
            4 => Attribute { name: cow(0), value: None },
            5 => Attribute { name: cow(0), value: Some(cow(1)) },
            6 => CloseStartTag,
            7 => XmlCloseEmptyElement,
            8 => EndTag { name: cow(0) },
            _ => Character(cow(0)),
        });
    }
    ev
}
/// Free sequences of events.
#[no_mangle]
pub extern "C" fn h_owned(n: u32, _: u32, _: u32, _: u32) {
    owned(SgmlFragment::from(free(n)));
    sx::cover(1);
}
/// P42: a fragment is the list of its events.
#[no_mangle]
pub extern "C" fn h_fragment(n: u32, _: u32, _: u32, _: u32) {
    let ev = free(n);
    let n = n as usize;
    let mut f = SgmlFragment::from(ev.clone());
    note!("events {:?}\nfragment {:?}", ev, f);
    sx::check(f.len() == n && all_equal(f.as_slice(), &ev), 461);
    // iterators, from both ends
    let k = sx::choose(n as u32 + 1) as usize;
    let (mut i, mut j) = (0, n);
    {
        let mut it = f.iter();
        while i < k {
            sx::check(it.len() == j - i, 462);
            sx::check(it.next().map_or(false, |e| equal(e, &ev[i])), 462);
            i += 1;
        }
        while i < j {
            j -= 1;
            sx::check(it.next_back().map_or(false, |e| equal(e, &ev[j])), 462);
        }
        sx::check(it.next().is_none(), 462);
    }
    let mut count = 0;
    for e in &f {
        sx::check(equal(e, &ev[count]), 463);
        count += 1;
    }
    sx::check(count == n, 463);
    // equality is that of the events
    let g = f.clone();
    sx::check(g == f && f == SgmlFragment::from(ev.clone()), 464);
    if k < n {
        let new = free(1).remove(0);
        let differs = !equal(&new, &ev[k]);
        let mut it = if sx::choose(2) == 0 { f.iter_mut() } else { (&mut f).into_iter() };
        sx::check(it.len() == n, 465);
        match it.nth(k) {
            Some(e) => *e = new.clone(),
            None => sx::fail(465),
        }
        sx::check((f != g) == differs, 464);
        for (i, e) in f.iter().enumerate() {
            sx::check(equal(e, if i == k { &new } else { &ev[i] }), 465);
        }
        sx::cover(2);
    }
    let printed: String = ev.iter().map(|e| e.to_string()).collect();
    if !ev.iter().any(|e| matches!(e, SgmlEvent::Attribute { .. })) {
        sx::check(g.to_string() == printed, 466);
        sx::cover(3);
    }
    let v: Vec<SgmlEvent> = if sx::choose(2) == 0 { g.into_vec() } else { g.into_iter().collect() };
    sx::check(v.len() == n && all_equal(&v, &ev), 467);
    sx::observe(printed.len() as u64);
    sx::cover(1);
}

pub fn jobs(prop: u32, thorough: bool) {
    for (i, t) in TEXTS.iter().enumerate() {
        if t.0 == prop || (thorough && t.0 == TH + prop) {
            for c in t.2 {
                let i = i as u32;
                let l = tpl::show(t.1);
                match prop {
                    14 => sx::job("h_print", [i, *c, 0, 0], &format!("{} {}", cfg::show(*c), l)),
                    15 => {
                        sx::job("h_attr", [i, 0, 0, 0], &format!("value {}", l));
                        sx::job("h_attr", [i, 0, 1, 1], &format!("values before /> {}", l));
                    }
                    16 => {
                        sx::job("h_escape", [i, 0, 0, 0], &l);
                        sx::job("h_escape", [i, 1, 0, 0], &format!("ampersands kept {}", l));
                    }
                    _ => sx::job("h_owned_doc", [i, *c, 0, 0], &format!("{} {}", cfg::show(*c), l)),
                }
            }
        }
    }
    if prop == 15 {
        sx::job("h_attr", [0, 1, 0, 0], "no value");
        sx::job("h_attr", [0, 1, 1, 1], "no value before />");
    }
    if prop == 42 {
        for n in 0..3 {
            sx::job("h_fragment", [n, 0, 0, 0], &format!("{} events", n));
        }
    }
    if prop == 20 {
        sx::job("h_owned", [1, 0, 0, 0], "1 event");
        sx::job("h_owned", [2, 0, 0, 0], "2 events");
        if thorough {
            sx::job("h_owned", [3, 0, 0, 0], "3 events");
        }
    }
}
