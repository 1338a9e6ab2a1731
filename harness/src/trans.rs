//! P17-P19: end-tag normalization and transforms.
use crate::de::same;
use crate::print::{all_equal, clone, equal};
use crate::{cfg, sx, tpl};
use sgmlish::transforms::{normalize_end_tags, NormalizationError, Transform};
use sgmlish::{SgmlEvent, SgmlFragment};
use SgmlEvent::*;

const TH: u32 = 1000;
/// Documents for P17 and P18.
const DOCS: &[(u32, &[u8], u32)] = &[
    (0, b"<\x04>\x01\x06<\x04>\x01\x06</\x04>", cfg::NOTRIM),
    (0, b"<\x04>\x03<\x04>\x01\x03<!--\x01-->\x03<\x04/>\x03</\x04>\x03", cfg::NOTRIM),
    (0, b"<\x04>\x01<\x04 b=\x01>\x01<\x04>\x01</\x04></\x04>", 0),
    (0, b"<\x04\x05>\x01<\x04\x05>\x01</\x04\x05>", 0),
    (0, b"<\x13><\x13>x</\x13>", 0),
    (0, b"<a\x06>x<a\x06>y</a\x06>", 0),
    (0, b"<\x06a>x<\x06a>y</\x06a>", 0),
    (0, b"<a>\x03<\x01\x01>\x01</\x01>", cfg::NOTRIM),
    (0, b"<a>\x03<?\x01>\x03<b>\x03<![CDATA[\x01]]>\x03</a>", cfg::NOTRIM | cfg::EXPAND),
    (0, b"<a>\x03<b>\x03<![CDATA[\x01]]>\x03<![CDATA[ ]]></\x04>", cfg::KEEP),
    (TH, b"<\x04>\x01<\x04>\x01<\x04>\x01</\x04>\x01</\x04>\x01</\x04>", cfg::NOTRIM),
    (TH, b"<\x01\x01>\x01<\x01\x01>\x01</\x01>", cfg::NOTRIM),
];

fn name(two: bool) -> String {
    let mut v = vec![sx::ascii()];
    sx::assume(tpl::is_letter(v[0]));
    if two {
        v.push(sx::ascii());
        sx::assume(tpl::is_letter(v[1]));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any sequence of n items that parsing can produce.
fn events(n: u32, rich: bool) -> Vec<SgmlEvent<'static>> {
    let mut v = vec![];
    for _ in 0..n {
        match sx::choose(if rich { 11 } else { 5 }) {
            0 => {
                let b = sx::ascii();
                v.push(Character(unsafe { String::from_utf8_unchecked(vec![b]) }.into()))
            }
            1 => {
                v.push(OpenStartTag { name: name(false).into() });
                v.push(CloseStartTag);
            }
            2 => v.push(EndTag { name: name(false).into() }),
            3 => {
                v.push(OpenStartTag { name: name(false).into() });
                v.push(XmlCloseEmptyElement);
            }
            4 => break,
            5 => {
                v.push(OpenStartTag { name: name(false).into() });
                v.push(Attribute { name: name(false).into(), value: None });
                v.push(Attribute { name: name(false).into(), value: Some("v".into()) });
                v.push(if sx::choose(2) == 0 { CloseStartTag } else { XmlCloseEmptyElement });
            }
            6 => v.push(ProcessingInstruction("<?p>".into())),
            7 => v.push(MarkedSection { status_keywords: "CDATA".into(), section: " ".into() }),
            8 => {
                v.push(OpenStartTag { name: "".into() });
                v.push(CloseStartTag);
            }
            9 => v.push(EndTag { name: "".into() }),
            _ => v.push(Character([" \n", "\u{a0}", "", " x "][sx::choose(4) as usize].into())),
        }
    }
    v
}
fn blank(t: &str) -> bool {
    t.bytes().all(tpl::is_space)
}
/// What normalization has to give, computed front to back.
fn expected(ev: &[SgmlEvent<'static>]) -> Result<Vec<SgmlEvent<'static>>, Option<usize>> {
    let n = ev.len();
    // which start tags are closed by an end tag
    let mut open: Vec<usize> = vec![];
    let mut paired = vec![false; n];
    let mut i = 0;
    while i < n {
        match &ev[i] {
            OpenStartTag { name } => {
                if name.is_empty() {
                    return Err(None);
                }
                let mut j = i + 1;
                while !(matches!(ev[j], CloseStartTag) || matches!(ev[j], XmlCloseEmptyElement)) {
                    j += 1
                }
                if matches!(ev[j], CloseStartTag) {
                    open.push(i)
                }
                i = j;
            }
            EndTag { name } => {
                if name.is_empty() {
                    return Err(None);
                }
                loop {
                    match open.pop() {
                        None => return Err(Some(i)),
                        Some(o) => {
                            let same = matches!(&ev[o], OpenStartTag { name: n } if **n == **name);
                            if same {
                                paired[o] = true;
                                break;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    // end tags to insert, and where
    let mut ends: Vec<(usize, String)> = vec![];
    for i in 0..n {
        if let OpenStartTag { name } = &ev[i] {
            let mut j = i + 1;
            while !(matches!(ev[j], CloseStartTag) || matches!(ev[j], XmlCloseEmptyElement)) {
                j += 1
            }
            j += 1;
            if matches!(ev[j - 1], XmlCloseEmptyElement) {
                ends.push((j, name.to_string()));
            } else if !paired[i] {
                while j < n && !(matches!(ev[j], OpenStartTag { .. }) || matches!(ev[j], EndTag { .. })) {
                    j += 1
                }
                while matches!(&ev[j - 1], Character(t) if blank(t)) {
                    j -= 1
                }
                ends.push((j, name.to_string()));
            }
        }
    }
    let mut out = Vec::with_capacity(n + ends.len());
    for i in 0..=n {
        for (p, e) in &ends {
            if *p == i {
                out.push(EndTag { name: e.clone().into() })
            }
        }
        if i < n {
            out.push(if matches!(ev[i], XmlCloseEmptyElement) { CloseStartTag } else { clone(&ev[i]) });
        }
    }
    Ok(out)
}
fn balanced(ev: &[SgmlEvent]) -> bool {
    let mut stack: Vec<&str> = vec![];
    for e in ev {
        match e {
            OpenStartTag { name } => stack.push(name),
            XmlCloseEmptyElement => return false,
            EndTag { name } => match stack.pop() {
                Some(n) if *n == **name => {}
                _ => return false,
            },
            _ => {}
        }
    }
    stack.is_empty()
}

fn normalization(prop: u32, ev: Vec<SgmlEvent<'static>>) {
    let got = normalize_end_tags(SgmlFragment::from(ev.clone()));
    let want = expected(&ev);
    note!("events: {:?}\nnormalized: {:?}\nexpected: {:?}", ev, got, want);
    let empty = ev.iter().any(|e| matches!(e, OpenStartTag { name } | EndTag { name } if name.is_empty()));
    match got {
        Ok(f) => {
            sx::cover(1);
            let out = f.as_slice();
            sx::observe(out.len() as u64);
            if prop == 41 {
                sx::check(!empty && want.is_ok(), 448);
            } else if prop == 17 {
                sx::check(balanced(out), 91);
                // the input, with end tags added
                let mut j = 0;
                for e in out {
                    let same = j < ev.len() && (equal(e, &ev[j]) || (matches!(ev[j], XmlCloseEmptyElement) && matches!(e, CloseStartTag)));
                    if same {
                        j += 1
                    } else {
                        sx::check(matches!(e, EndTag { .. }), 92);
                    }
                }
                sx::check(j == ev.len(), 93);
            } else {
                sx::check(!empty, 94);
                match &want {
                    Err(_) => sx::fail(95),
                    Ok(w) => sx::check(all_equal(out, w), 96),
                }
                if balanced(&ev) {
                    sx::cover(3);
                    sx::check(all_equal(out, &ev), 97);
                }
                let again = normalize_end_tags(SgmlFragment::from(out.iter().map(clone).collect::<Vec<_>>()));
                match again {
                    Ok(g) => sx::check(all_equal(out, g.as_slice()), 98),
                    Err(_) => sx::fail(98),
                }
            }
        }
        Err(e) => {
            sx::cover(2);
            if prop == 41 {
                match e {
                    NormalizationError::EmptyTagNotSupported => sx::check(empty, 446),
                    NormalizationError::UnpairedEndTag(n) => match want {
                        // the first end tag that closes nothing
                        Err(Some(i)) => sx::check(matches!(&ev[i], EndTag { name } if same(name, &n)), 447),
                        _ => sx::fail(447),
                    },
                }
            }
            if prop == 18 {
                sx::check(want.is_err(), 99);
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_normalize(prop: u32, n: u32, rich: u32, _: u32) {
    normalization(prop, events(n, rich != 0));
}
#[no_mangle]
pub extern "C" fn h_normalize_doc(prop: u32, t: u32, _: u32, _: u32) {
    let d = &DOCS[t as usize];
    let s = tpl::build(d.1);
    match cfg::parser(d.2).parse(&s) {
        Ok(f) => {
            note!("document {:?} ({})", s, cfg::show(d.2));
            normalization(prop, f.iter().map(clone).collect())
        }
        Err(_) => sx::cover(4),
    }
}

/// P19: n events, m insertions and removals at given positions, in no order, k operations.
#[no_mangle]
pub extern "C" fn h_transform(n: u32, k: u32, m: u32, _: u32) {
    let label = |a: &str, i: usize| Character(format!("{}{}", a, i).into());
    let ev: Vec<SgmlEvent> = (0..n as usize).map(|i| label("e", i)).collect();
    let mut t = Transform::new();
    let mut ops: Vec<(bool, usize)> = vec![];
    // where the symbolic ones come
    let at = if m > 0 { sx::choose(3) * m / 2 } else { 0 };
    for i in 0..(k + m) as usize {
        let (insert, p) = if (i as u32) >= at && (i as u32) < at + k {
            let insert = sx::choose(2) == 0;
            let p = sx::byte();
            sx::assume(p as u32 <= n + 2 || p == 255);
            (insert, if p == 255 { usize::MAX } else { p as usize })
        } else {
            (i % 5 != 4, (i * 7 + i / 3) % (n as usize + 2))
        };
        if insert {
            t.insert_at(p, label("i", i))
        } else {
            t.remove_at(p)
        }
        ops.push((insert, p));
    }
    sx::check(t.is_empty() == (k + m == 0), 101);
    let mut want: Vec<SgmlEvent> = vec![];
    for i in 0..n as usize {
        for (j, (ins, p)) in ops.iter().enumerate() {
            if *ins && *p == i {
                want.push(label("i", j))
            }
        }
        if !ops.iter().any(|(ins, p)| !*ins && *p == i) {
            want.push(label("e", i))
        }
    }
    // behind the end: by position, then in the order of recording
    let mut rest: Vec<(usize, usize)> = vec![];
    for (j, (ins, p)) in ops.iter().enumerate() {
        if *ins && *p >= n as usize {
            let mut at = rest.len();
            while at > 0 && rest[at - 1].0 > *p {
                at -= 1
            }
            rest.insert(at, (*p, j));
        }
    }
    want.extend(rest.iter().map(|(_, j)| label("i", *j)));
    let got = t.apply(SgmlFragment::from(ev));
    note!("{} events e0.., operations (insert?, position) {:?}\ngot {:?}\nexpected {:?}", n, ops, got, want);
    sx::check(all_equal(got.as_slice(), &want), 102);
    sx::cover(1);
    sx::observe(got.len() as u64);
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        17 | 18 | 41 => {
            let (a, b) = if thorough { (7, 5) } else { (5, 4) };
            sx::job("h_normalize", [prop, a, 0, 0], &format!("up to {} tags and texts", a));
            sx::job("h_normalize", [prop, b, 1, 0], &format!("{} items of any kind", b));
            for (i, d) in DOCS.iter().enumerate() {
                if d.0 == 0 || thorough {
                    sx::job("h_normalize_doc", [prop, i as u32, 0, 0], &format!("{} {}", cfg::show(d.2), tpl::show(d.1)));
                }
            }
        }
        19 => {
            let m = if thorough { 5 } else { 4 };
            for n in 0..m {
                for k in 0..=m {
                    sx::job("h_transform", [n, k, 0, 0], &format!("{} events, {} operations", n, k));
                }
            }
            for (n, m) in [(0, 30), (1, 30), (2, 45), (5, 45), (9, 100), (30, 70)] {
                let k = if n > 5 || m > 45 { 1 } else { 2 };
                sx::job("h_transform", [n, k, m, 0], &format!("{} events, {} operations among {} fixed ones", n, k, m));
            }
        }
        _ => {}
    }
}
