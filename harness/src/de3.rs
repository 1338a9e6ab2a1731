//! P28, P30-P32: enums, `$value`, unknown content, implied end tags.
use crate::de::*;
use crate::{cfg, refm, sx, tpl};
use serde::de::DeserializeOwned;
use serde::Deserialize as D;
use sgmlish::transforms::normalize_end_tags;
use std::collections::BTreeMap;
use std::fmt::Debug;

type Res<T> = Result<T, sgmlish::de::DeserializationError>;

#[derive(D, Debug, PartialEq)]
struct Mid<T> {
    p: Option<String>,
    f: T,
    q: Option<String>,
}

// ---- P28
fn flat(v: &str) -> Option<Flat> {
    if v.len() == 1 && same(v, "a") {
        Some(Flat::a)
    } else if v.len() == 1 && same(v, "b") {
        Some(Flat::b)
    } else if v.len() == 2 && same(v, "ab") {
        Some(Flat::ab)
    } else {
        None
    }
}
/// A fieldless enum: form, length of the text
#[no_mangle]
pub extern "C" fn h_flat(form: u32, n: u32, _: u32, _: u32) {
    let v = match n {
        0..=3 => chars(n),
        4 => "a".to_string() + &upto(2),
        _ => "ab".to_string() + tpl::NON_ASCII[sx::choose(13) as usize],
    };
    let want = flat(&v);
    let mut b = B::new();
    b.open("r");
    let before = sx::choose(2) == 1;
    if before && form != 5 {
        b.attr("p", "1");
    }
    let judge = |got: Option<Flat>| {
        sx::check(got == want, 281);
        sx::cover(if want.is_some() { 1 } else { 2 })
    };
    let field = |b: &mut B| {
        b.elt("q", "2");
        b.end("r");
        note!("events {:?}", b.0);
        let r: Res<Mid<Flat>> = b.read();
        note!("read: {:?}", r);
        match r {
            Ok(r) => {
                sx::check(r.q.as_deref() == Some("2") && r.p.is_some() == before, 282);
                judge(Some(r.f))
            }
            Err(_) => judge(None),
        }
    };
    match form {
        0 => {
            b.attr("f", &v);
            b.close();
            field(&mut b)
        }
        1 => {
            b.close();
            b.open("f");
            b.attr("a", "b");
            b.close();
            b.text(&v);
            b.end("f");
            field(&mut b)
        }
        2 => {
            // in pieces
            b.close();
            b.start("f");
            let cut = sx::choose(v.len() as u32 + 1) as usize;
            if !v.is_char_boundary(cut) {
                return;
            }
            b.borrowed(&v[..cut]);
            b.text("");
            b.borrowed(&v[cut..]);
            b.end("f");
            field(&mut b)
        }
        3 => {
            // child tag
            sx::assume(!v.is_empty());
            b.close();
            b.open("f");
            if sx::choose(2) == 1 {
                b.attr("a", "b");
            }
            b.close();
            b.start(&v);
            match sx::choose(3) {
                0 => {}
                1 => b.text("b"),
                _ => b.elt("b", ""),
            }
            b.end(&v);
            if sx::choose(2) == 1 {
                b.text(" ");
            }
            b.end("f");
            field(&mut b)
        }
        4 => {
            // in a sequence
            b.close();
            b.elt("f", "ab");
            b.elt("f", &v);
            b.start("f");
            b.start("b");
            b.end("b");
            b.end("f");
            b.elt("f", "a");
            b.elt("q", "2");
            b.end("r");
            let r: Res<Mid<Vec<Flat>>> = b.read();
            note!("read: {:?}", r);
            match r {
                Ok(r) => {
                    sx::check(r.q.as_deref() == Some("2") && r.f.len() == 4, 282);
                    sx::check(r.f[0] == Flat::ab && r.f[2] == Flat::b && r.f[3] == Flat::a, 282);
                    judge(Some(r.f[1]))
                }
                Err(_) => judge(None),
            }
        }
        5 => {
            // the element's text, or its only child
            let tag = sx::choose(2) == 1;
            b.attr("a", "b");
            b.close();
            if tag {
                sx::assume(!v.is_empty());
                b.start(&v);
                b.end(&v);
            } else {
                b.text(&v);
            }
            b.end("r");
            let r: Res<Val<Flat>> = b.read();
            note!("read: {:?}", r);
            judge(r.ok().map(|r| r.v));
        }
        6 => {
            // optional
            b.attr("f", &v);
            b.close();
            b.end("r");
            let r: Res<Mid<Option<Flat>>> = b.read();
            note!("read: {:?}", r);
            judge(r.ok().and_then(|r| r.f));
        }
        _ => {
            // as the names of fields
            sx::assume(!v.is_empty());
            b.0.clear();
            b.start("r");
            b.elt(&v, "1");
            b.end("r");
            let r: Res<BTreeMap<FlatKey, String>> = b.read();
            note!("read: {:?}", r);
            judge(r.ok().and_then(|r| {
                r.keys().next().map(|k| match k {
                    FlatKey::a => Flat::a,
                    FlatKey::b => Flat::b,
                    FlatKey::ab => Flat::ab,
                })
            }));
        }
    }
}
#[allow(non_camel_case_types)]
#[derive(D, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum FlatKey {
    a,
    b,
    ab,
}

/// The fields of Inner / Data::s; None: to be rejected.
fn inner(b: &mut B, n: &str) -> Option<(String, Option<u8>)> {
    b.open(n);
    let order = sx::choose(4);
    let x = chars(1);
    let y = chars(1);
    let (ax, ay) = (order & 1 != 0, order & 2 != 0);
    let miss = sx::choose(4);
    if ay && miss & 1 == 0 {
        b.attr("y", &y);
    }
    if ax && miss != 2 {
        b.attr("x", &x);
    }
    b.close();
    if !ax && miss != 2 {
        b.elt("x", &x);
    }
    if !ay && miss & 1 == 0 {
        b.elt("y", &y);
    }
    b.end(n);
    if miss == 2 {
        return None;
    }
    Some((x, if miss & 1 != 0 { None } else { Some(digit(&y)?) }))
}
fn digit(y: &str) -> Option<u8> {
    let c = y.as_bytes()[0];
    if tpl::is_digit(c) {
        Some(c - b'0')
    } else {
        None
    }
}
fn value_text(b: &mut B, n: &str) -> String {
    b.start(n);
    let mut s = String::new();
    for _ in 0..sx::choose(3) {
        let t = chars(1);
        b.text(&t);
        s.push_str(&t);
    }
    b.end(n);
    s
}
/// A kind within another: all but 13 and 14, of which there are enough as it is.
fn nested() -> u32 {
    match sx::choose(14) {
        13 => 15,
        k => k,
    }
}
/// A variant of the given kind; None: to be rejected.
fn variant(b: &mut B, kind: u32, depth: u32) -> Option<Data> {
    match kind {
        0 => {
            b.open("u");
            if sx::choose(2) == 1 {
                b.attr("x", "1");
            }
            b.close();
            b.end("u");
            Some(Data::u)
        }
        1 => Some(Data::n(value_text(b, "n"))),
        2 => {
            let t = chars(1);
            b.elt("i", &t);
            Some(Data::i(digit(&t)?))
        }
        3 => {
            let t = ["1", "FALSE", "", "yes"][sx::choose(4) as usize];
            b.elt("b", t);
            match t {
                "1" => Some(Data::b(true)),
                "FALSE" => Some(Data::b(false)),
                _ => None,
            }
        }
        4 => Some(Data::o(Some(value_text(b, "o")))),
        5 => {
            b.start("l");
            let mut v = vec![];
            for _ in 0..1 + sx::choose(2) {
                let n = if sx::choose(2) == 0 { letter() } else { "l".to_string() };
                v.push(value_text(b, &n));
            }
            b.end("l");
            Some(Data::l(v))
        }
        6 => inner(b, "m").map(|(x, y)| Data::m(Inner { x, y })),
        7 => {
            let t = chars(1);
            b.elt("t", &t);
            if sx::choose(2) == 1 {
                b.text("");
            }
            let x = value_text(b, "t");
            Some(Data::t(digit(&t)?, x))
        }
        8 => inner(b, "s").map(|(x, y)| Data::s { x, y }),
        9 => {
            b.open("e");
            if sx::choose(2) == 1 {
                b.attr("x", "1");
            }
            b.close();
            let k = if depth > 0 { nested() } else { [0, 1, 8][sx::choose(3) as usize] };
            let d = variant(b, k, depth.saturating_sub(1));
            b.end("e");
            d.map(|d| Data::e(Box::new(d)))
        }
        10 => {
            b.start("v");
            let mut v = Some(vec![]);
            let n = if depth > 0 { 1 + sx::choose(2) } else { 1 };
            for i in 0..n {
                let k = if i == 0 && depth > 0 { nested() } else { [1, 8][sx::choose(2) as usize] };
                let d = variant(b, k, depth.saturating_sub(1));
                v = match (v, d) {
                    (Some(mut v), Some(d)) => {
                        v.push(d);
                        Some(v)
                    }
                    _ => None,
                };
            }
            b.end("v");
            v.map(Data::v)
        }
        11 => {
            b.open("w");
            let a = sx::choose(2) == 1;
            let t = chars(1);
            if a {
                b.attr("a", &t);
            }
            b.close();
            let v = chars(1);
            b.text(&v);
            b.text("z");
            b.end("w");
            Some(Data::w(Val2 { a: if a { Some(t) } else { None }, v: v + "z" }))
        }
        12 => {
            b.start("z");
            b.end("z");
            Some(Data::z(()))
        }
        13 => {
            b.open("k");
            let a = sx::choose(2) == 1;
            let t = chars(1);
            if a {
                b.attr("a", &t);
            }
            b.close();
            let n = sx::choose(3);
            let v = chars(1);
            let mut s = String::new();
            for _ in 0..n {
                b.text(&v);
                s.push_str(&v);
            }
            b.end("k");
            Some(Data::k { a: if a { Some(t) } else { None }, v: s })
        }
        14 => {
            b.open("j");
            let a = sx::choose(2) == 1;
            if a {
                b.attr("a", "A");
            }
            let q = sx::choose(2) == 1;
            let t = chars(1);
            if q {
                b.attr("q", &t);
            }
            b.close();
            let mut v = vec![];
            let mut ok = true;
            for _ in 0..sx::choose(3) {
                let k = [0, 1, 8][sx::choose(3) as usize];
                match variant(b, k, 0) {
                    Some(d) => v.push(d),
                    None => ok = false,
                }
            }
            b.end("j");
            let q = if q { Some(digit(&t)?) } else { None };
            if !ok {
                return None;
            }
            Some(Data::j { a: if a { Some("A".to_string()) } else { None }, v, q })
        }
        _ => {
            // no such variant
            let mut n = letter();
            for k in "unibolmtsevwzkj".bytes() {
                sx::assume(n.as_bytes()[0] != k)
            }
            match sx::choose(3) {
                0 => {}
                1 => n.push('n'),
                _ => n.insert(0, 'n'),
            }
            b.elt(&n, "1");
            None
        }
    }
}
fn data<T: DeserializeOwned + Debug>(b: &B, want: Option<Vec<Data>>, get: fn(T) -> Vec<Data>) {
    let r: Res<T> = b.read();
    note!("events: {:?}\nread: {:?}\nexpected: {:?}", b.0, r, want);
    match (r, want) {
        (Ok(r), Some(w)) => {
            let g = get(r);
            sx::check(g.len() == w.len(), 283);
            for i in 0..g.len() {
                sx::check(g[i] == w[i], 284)
            }
            sx::cover(1)
        }
        (Ok(_), None) => sx::fail(285),
        (Err(_), Some(_)) => sx::fail(286),
        (Err(_), None) => sx::cover(2),
    }
}
#[derive(D, Debug)]
struct After {
    f: Data,
    q: String,
}
#[derive(D, Debug)]
struct Many {
    #[serde(default)]
    f: Vec<Data>,
    q: String,
}
fn wrap(b: &mut B, kind: u32, depth: u32, n: &str) -> Option<Data> {
    b.open(n);
    if sx::choose(2) == 1 {
        b.attr("x", "1");
    }
    b.close();
    let d = variant(b, kind, depth);
    b.end(n);
    d
}
/// An enum with data: form, kind of the first variant, depth
#[no_mangle]
pub extern "C" fn h_data(form: u32, kind: u32, depth: u32, _: u32) {
    let mut b = B::new();
    b.start("r");
    match form {
        0 => {
            let d = wrap(&mut b, kind, depth, "f");
            b.elt("q", "2");
            b.end("r");
            data::<After>(&b, d.map(|d| vec![d]), |r| {
                sx::check(r.q == "2", 287);
                vec![r.f]
            })
        }
        1 => {
            let mut v: Option<Vec<Data>> = Some(vec![]);
            for i in 0..1 + sx::choose(2) {
                let k = if i == 0 { kind } else if kind == 14 { 2 } else { [1, 7, 8, 0][sx::choose(4) as usize] };
                let d = wrap(&mut b, k, depth, "f");
                v = match (v, d) {
                    (Some(mut v), Some(d)) => {
                        v.push(d);
                        Some(v)
                    }
                    _ => None,
                }
            }
            b.elt("q", "2");
            b.end("r");
            data::<Many>(&b, v, |r| {
                sx::check(r.q == "2", 287);
                r.f
            })
        }
        2 => {
            let d = variant(&mut b, kind, depth);
            b.end("r");
            data::<Val<Data>>(&b, d.map(|d| vec![d]), |r| vec![r.v])
        }
        3 => {
            let mut v: Option<Vec<Data>> = Some(vec![]);
            for i in 0..1 + sx::choose(3) {
                let k = if i == 0 { kind } else if kind == 14 { 2 } else { [1, 8, 0][sx::choose(3) as usize] };
                let d = variant(&mut b, k, depth);
                v = match (v, d) {
                    (Some(mut v), Some(d)) => {
                        v.push(d);
                        Some(v)
                    }
                    _ => None,
                }
            }
            b.end("r");
            data::<Val<Vec<Data>>>(&b, v, |r| r.v)
        }
        4 => {
            // at the root
            let mut b = B::new();
            let d = variant(&mut b, kind, depth);
            data::<Data>(&b, d.map(|d| vec![d]), |r| vec![r])
        }
        5 => {
            // just the name, as text or attribute: only without data
            let name = letter();
            b.0.clear();
            b.open("r");
            let attr = sx::choose(2) == 1;
            if attr {
                b.attr("f", &name);
            }
            b.close();
            if !attr {
                b.elt("f", &name);
            }
            b.elt("q", "2");
            b.end("r");
            data::<After>(&b, if same(&name, "u") { Some(vec![Data::u]) } else { None }, |r| {
                sx::check(r.q == "2", 287);
                vec![r.f]
            })
        }
        _ => {
            // a map
            let d = wrap(&mut b, kind, depth, "f");
            b.start("g");
            b.elt("n", "3");
            b.end("g");
            b.end("r");
            let d = d.map(|d| vec![d, Data::n("3".into())]);
            data::<BTreeMap<String, Data>>(&b, d, |r| {
                sx::check(r.keys().map(|k| &**k).collect::<Vec<_>>() == ["f", "g"], 287);
                r.into_iter().map(|x| x.1).collect()
            })
        }
    }
}

// ---- P30
#[derive(D, Debug)]
struct Outer<T> {
    p: Option<String>,
    #[serde(default = "Vec::new")]
    o: Vec<Val<T>>,
    q: Option<String>,
}
/// The text-only content of an element
fn pieces(b: &mut B, n: u32) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match sx::choose(5) {
            0 => break,
            1 => {
                let t = chars(1);
                b.text(&t);
                s.push_str(&t);
            }
            2 => {
                let t = chars(1) + tpl::NON_ASCII[sx::choose(2) as usize];
                b.borrowed(&t);
                s.push_str(&t);
            }
            3 => b.text(""),
            _ => {
                b.borrowed(" \n");
                s.push_str(" \n");
            }
        }
    }
    s
}
/// kind of the value, number of pieces, nested in another element or not
#[no_mangle]
pub extern "C" fn h_value_text(kind: u32, n: u32, nested: u32, _: u32) {
    let mut b = B::new();
    if nested != 0 {
        b.open("r");
        b.attr("p", "1");
        b.close();
        b.text("no");
        b.open("o");
        b.attr("a", "2");
        b.close();
        b.text("first");
        b.end("o");
    }
    b.open("o");
    let a = upto(1);
    let at = sx::choose(4);
    if at & 1 != 0 {
        b.attr("k", "no");
    }
    if at & 2 != 0 {
        b.attr("a", &a);
    }
    b.close();
    let text = pieces(&mut b, n);
    b.end("o");
    b.text("no");
    if nested != 0 {
        b.elt("q", "3");
        b.end("r");
    }
    note!("events: {:?}", b.0);
    let a = if at & 2 != 0 { Some(a) } else { None };
    // the value, if it could be read
    macro_rules! get {
        ($t:ty) => {
            if nested != 0 {
                let r: Res<Outer<$t>> = if kind == 3 || kind == 5 { Err(serde::de::Error::custom("")) } else { b.read() };
                note!("read: {:?}", r);
                r.ok().map(|mut r| {
                    sx::check(r.p.as_deref() == Some("1") && r.q.as_deref() == Some("3") && r.o.len() == 2, 301);
                    sx::check(r.o[0].a.as_deref() == Some("2"), 302);
                    let v = r.o.pop();
                    sx::check(v.is_some(), 301);
                    v.unwrap()
                })
            } else {
                let r: Res<Val<$t>> = b.read();
                note!("read: {:?}", r);
                r.ok()
            }
        };
    }
    macro_rules! judge {
        ($t:ty, $want:expr, $eq:expr) => {{
            let r = get!($t);
            let w = $want;
            note!("expected: {:?}", w);
            match (&r, &w) {
                (Some(r), Some(w)) => {
                    let f: fn(&$t, &_) -> bool = $eq;
                    sx::check(f(&r.v, w), 303);
                    sx::check(
                        match (&r.a, &a) {
                            (None, None) => true,
                            (Some(x), Some(y)) => same(x, y),
                            _ => false,
                        },
                        304,
                    );
                    sx::cover(1)
                }
                (None, None) => sx::cover(2),
                (Some(_), None) => sx::fail(305),
                (None, Some(_)) => sx::fail(306),
            }
        }};
    }
    match kind {
        0 => judge!(String, Some(text), |x, y: &String| same(x, y)),
        1 => judge!(Option<String>, Some(text), |x, y: &String| x.as_ref().map_or(false, |x| same(x, y))),
        2 => judge!(Newt, Some(text), |x, y: &String| same(&x.0, y)),
        3 => judge!(u8, if text.len() == 1 { digit(&text) } else { num(&text) }, |x, y| x == y),
        4 => judge!(Any, Some(text), |x, y: &String| match x {
            Any::Text(t) => same(t, y),
            _ => false,
        }),
        5 => judge!(Flat, flat(&text), |x, y| x == y),
        _ => judge!(Box<str>, Some(text), |x, y: &String| same(x, y)),
    }
}
/// An optional sign and up to five digits, as u8
fn num(t: &str) -> Option<u8> {
    let d = t.strip_prefix('+').unwrap_or(t);
    let mut x = 0u32;
    for c in d.bytes() {
        if !tpl::is_digit(c) {
            return None;
        }
        x = x * 10 + (c - b'0') as u32;
    }
    if d.is_empty() || x > 255 {
        None
    } else {
        Some(x as u8)
    }
}
/// Children of the element: number, kind of the value
#[no_mangle]
pub extern "C" fn h_value_children(kind: u32, n: u32, sep: u32, _: u32) {
    let mut b = B::new();
    b.open("r");
    let a = sx::choose(2) == 1;
    if a {
        b.attr("a", "1");
    }
    b.close();
    let mut names = vec![];
    let mut texts: Vec<String> = vec![];
    let mut blurred = false;
    let k = 1 + sx::choose(n);
    for i in 0..k {
        if sep != 0 && i > 0 {
            match sx::choose(3) {
                0 => {}
                1 => b.text(""),
                _ => {
                    b.text("\n ");
                    blurred = true
                }
            }
        }
        let name = letter();
        match kind {
            2 => {
                // items with an attribute, a text, both
                let f = sx::choose(3);
                b.open(&name);
                let (t, u) = (chars(1), chars(1));
                if f != 0 {
                    b.attr("a", &t);
                }
                b.close();
                if f != 1 {
                    b.text(&u);
                }
                b.end(&name);
                texts.push(match f {
                    0 => "|".to_string() + &u,
                    1 => t + "|",
                    _ => t + "|" + &u,
                });
            }
            _ => {
                if kind == 4 {
                    for c in "uiblmtsevwzkj".bytes() {
                        sx::assume(name.as_bytes()[0] != c)
                    }
                }
                texts.push(value_text(&mut b, &name))
            }
        }
        names.push(name);
    }
    b.end("r");
    b.elt("x", "no");
    note!("events: {:?}", b.0);
    macro_rules! go {
        ($t:ty, $get:expr) => {{
            let r: Res<Val<$t>> = b.read();
            note!("read: {:?}\nexpected: {:?} {:?}", r, names, texts);
            match r {
                Ok(r) => {
                    sx::check(r.a.is_some() == a, 304);
                    let f: fn($t) -> Vec<(Option<String>, String)> = $get;
                    let v = f(r.v);
                    sx::check(v.len() == texts.len(), 307);
                    for i in 0..v.len() {
                        sx::check(same(&v[i].1, &texts[i]), 308);
                        if let Some(n) = &v[i].0 {
                            sx::check(same(n, &names[i]), 309);
                        }
                    }
                    sx::cover(1);
                    if v.len() > 1 {
                        sx::cover(3)
                    }
                }
                Err(_) => sx::check((blurred && k > 1) || (kind == 3 && k != 2) || (kind == 4 && !names.iter().all(|n| same(n, "n") | same(n, "o"))), 310),
            }
        }};
    }
    match kind {
        0 => go!(Vec<String>, |v| v.into_iter().map(|t| (None, t)).collect()),
        1 => go!(Option<Vec<Newt>>, |v| v.into_iter().flatten().map(|t| (None, t.0)).collect()),
        2 => go!(Vec<Val<Option<String>>>, |v| v.into_iter().map(|t| (None, t.a.unwrap_or_default() + "|" + &t.v.unwrap_or_default())).collect()),
        3 => go!((String, String), |v| vec![(None, v.0), (None, v.1)]),
        _ => go!(Vec<Data>, |v| v
            .into_iter()
            .map(|t| match t {
                Data::n(t) => (Some("n".into()), t),
                Data::o(Some(t)) => (Some("o".into()), t),
                _ => (Some("?".into()), "".into()),
            })
            .collect()),
    }
}

// ---- P31
#[derive(D, Debug)]
struct Known {
    a: String,
    b: Option<String>,
    c: u8,
    #[serde(default)]
    d: Option<Box<Known>>,
}
/// Anything, for an unknown element
pub fn junk(b: &mut B, depth: u32) {
    match sx::choose(if depth > 0 { 5 } else { 3 }) {
        0 => {}
        1 => b.text("x"),
        2 => {
            b.open("a");
            if depth > 0 {
                b.attr("b", "x");
            }
            b.xml();
        }
        3 => {
            let n = letter();
            b.open(&n);
            b.attr("c", "x");
            b.close();
            junk(b, depth - 1);
            b.end(&n);
            b.text("\n");
        }
        _ => {
            b.start("z");
            b.start("z");
            junk(b, depth - 1);
            b.end("z");
            b.end("z");
            b.elt("a", "x");
        }
    }
}
#[derive(Debug, Default)]
struct Got {
    a: Option<String>,
    b: Option<String>,
    c: Option<Option<u8>>,
    reject: bool,
}
impl Got {
    fn set(&mut self, name: &str, v: &str) -> bool {
        let twice;
        if same(name, "a") {
            twice = self.a.is_some();
            self.a = Some(v.to_string());
        } else if same(name, "b") {
            twice = self.b.is_some();
            self.b = Some(v.to_string());
        } else if same(name, "c") {
            twice = self.c.is_some();
            self.c = Some(if v.is_empty() { None } else { digit(v) });
        } else {
            return false;
        }
        self.reject |= twice;
        true
    }
    fn bad(&self) -> bool {
        self.reject || self.a.is_none() || !matches!(self.c, Some(Some(_)))
    }
}
fn known_is(r: &Known, e: &Got) -> bool {
    same(&r.a, e.a.as_deref().unwrap_or("?"))
        && Some(Some(r.c)) == e.c
        && match (&r.b, &e.b) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x, y),
            _ => false,
        }
}
fn record(b: &mut B, n: u32, m: u32, depth: u32, e: &mut Got) {
    for _ in 0..n {
        let (name, v) = (letter(), chars(1));
        match sx::choose(3) {
            0 => break,
            1 => {
                b.attr(&name, &v);
                e.set(&name, &v);
            }
            _ => {
                b.flag(&name);
                e.set(&name, "");
            }
        }
        sx::assume(!same(&name, "d"));
    }
    b.close();
    for _ in 0..m {
        match sx::choose(4) {
            0 => break,
            1 => {
                let (name, v) = (letter(), chars(1));
                sx::assume(!same(&name, "d"));
                b.elt(&name, &v);
                e.set(&name, &v);
            }
            2 => {
                let name = ["z", "aa", "A"][sx::choose(3) as usize];
                b.start(name);
                junk(b, depth);
                b.end(name);
            }
            _ => b.text("\n"),
        }
    }
}
/// attributes, elements, depth of skipped content, whether a record is nested in it
#[no_mangle]
pub extern "C" fn h_unknown(n: u32, m: u32, depth: u32, nested: u32) {
    let mut b = B::new();
    let mut e = Got::default();
    let mut e2 = Got::default();
    b.open("r");
    if nested != 0 {
        b.attr("a", "1");
        b.close();
        b.open("d");
        record(&mut b, n, m, depth, &mut e2);
        b.end("d");
        b.elt("c", "2");
        e.set("a", "1");
        e.set("c", "2");
    } else {
        record(&mut b, n, m, depth, &mut e);
    }
    b.end("r");
    let r: Res<Known> = b.read();
    note!("events: {:?}\nread: {:?}\nexpected: {:?} {:?}", b.0, r, e, e2);
    let bad = e.bad() || (nested != 0 && e2.bad());
    match r {
        Ok(r) => {
            sx::check(!bad, 311);
            sx::check(known_is(&r, &e), 312);
            if nested != 0 {
                sx::check(r.d.is_some(), 313);
                sx::check(known_is(&r.d.unwrap(), &e2), 314);
            } else {
                sx::check(r.d.is_none(), 313);
            }
            sx::cover(1);
        }
        Err(_) => {
            sx::check(bad, 315);
            sx::cover(2);
        }
    }
}

// ---- P32
#[derive(D, Debug, PartialEq)]
struct Doc {
    a: String,
    b: Option<String>,
    #[serde(default, alias = "ca")]
    g: Vec<Group>,
    z: Option<String>,
}
#[derive(D, Debug, PartialEq)]
struct Group {
    k: Option<String>,
    c: String,
    #[serde(default)]
    d: Vec<String>,
}
/// (configuration, document); \x1a..\x1e: text hole with end tag that may be missing
const DOCS: &[(u32, u32, &[&[u8]])] = &[
    (0, 0, &[b"<r>", b"a\0\x03\x01\x01\x03", b"\n", b"b\0\x01\x06", b"</r>"]),
    (0, cfg::ENT, &[b"<r>", b"a\0\x01\x01 \x01", b"b\0&lt;\x01&#6\x08;", b"\n</r>"]),
    (0, 0, &[b"<r>\n", b"a\0\x06", b"<g k=\x05>", b"c\0\x01\x03", b"d\0 \n", b"d\0y", b"</g>\n<g>", b"c\0x", b"</g>", b"</r>"]),
    (0, cfg::LOWER, &[b"<R>", b"A\0\x01 ", b"<!-- x --> ", b"B\0\nx\n", b"<G>", b"C\0x", b"d\0\x01", b"</G>", b"Z\0z", b"</r>"]),
    (0, cfg::EXPAND | cfg::ENT, &[b"<r>", b"b\0\x01", b"a\0 x\x03y ", b"<g k=1>", b"c\0\x02", b"</g>", b"z\0&amp;z", b"</r>"]),
    (0, 0, &[b"<r>", b"a\0\x0f\x01", b"b\0\xc2\xa0\x01", b"z\0", b"</r>"]),
    (1, cfg::LOWER, &[b"<R>", b"A\0\x01 \x01", b"<!-- x --> ", b"B\0\n\x01\n", b"<G>", b"C\0x", b"d\0\x01", b"</G>", b"Z\0\x01", b"</r>"]),
    (1, 0, &[b"<r>\n", b"a\0\x06", b"<g k=\x05>", b"c\0\x01\x03", b"d\0\x03\x06", b"d\0\x01", b"</g>\x03<g>", b"c\0x", b"</g>", b"</r>"]),
    (0, 0, &[b"<r>", b"a\0\x01\x01\x01", b"</r>"]),
    (0, 0, &[b"<ab>", b"a\0\x01", b"b\0x", b"<ca>", b"c\0\x06", b"</ca>\n</ab>"]),
    (0, cfg::LOWER, &[b"<Za>", b"a\0\x06", b"<Ca>", b"C\0x", b"</CA>", b"Z\0x\x06", b"</ZA>"]),
    (1, cfg::ENT, &[b"<r>", b"a\0\x01\x01\x01\x01", b"b\0\x01\x01\x01", b"</r>"]),
    (1, cfg::ENT, &[b"<r>", b"a\0&\x01\x01\x01;\x01", b"b\0\x01\x01", b"<g>", b"c\0\x01", b"</g></r>"]),
];
#[no_mangle]
pub extern "C" fn h_implied(t: u32, _: u32, _: u32, _: u32) {
    let d = &DOCS[t as usize];
    let (mut explicit, mut implied) = (String::new(), String::new());
    // the texts of the elements, in order, as they have to be read
    let mut want: Vec<(u8, Option<String>)> = vec![];
    let mut simple = true;
    for part in d.2 {
        match part.iter().position(|c| *c == 0) {
            None => {
                let s = tpl::build(part);
                for o in [&mut explicit, &mut implied] {
                    o.push_str(&s)
                }
            }
            Some(i) => {
                let name = std::str::from_utf8(&part[..i]).unwrap_or("");
                let text = tpl::build(&part[i + 1..]);
                for c in text.bytes() {
                    sx::assume(c != b'<')
                }
                for o in [&mut explicit, &mut implied] {
                    o.push('<');
                    o.push_str(name);
                    o.push('>');
                    o.push_str(&text);
                }
                explicit.push_str("</");
                explicit.push_str(name);
                explicit.push('>');
                if sx::choose(2) == 0 {
                    implied.push_str("</");
                    implied.push_str(name);
                    implied.push('>');
                }
                let f = |n: &str| if d.1 & cfg::ENT != 0 { cfg::ent(n).map(|s| s.to_string()) } else { None };
                let e = match refm::expand(refm::trim(text.as_bytes()), b'&', f) {
                    Ok(v) => Some(unsafe { String::from_utf8_unchecked(v) }),
                    Err(_) => {
                        simple = false;
                        None
                    }
                };
                // an omitted end tag leaves blank text outside: texts that are blank only after
                // expansion are not judged
                if let Some(e) = &e {
                    if !e.is_empty() && refm::trim(e.as_bytes()).is_empty() {
                        return sx::cover(3);
                    }
                }
                want.push((name.as_bytes()[0] | 32, e));
            }
        }
    }
    let p = cfg::parser(d.1);
    let read = |s: &str| -> Option<Doc> {
        let f = p.parse(s).ok()?;
        let f = normalize_end_tags(f).ok()?;
        sgmlish::from_fragment(f).ok()
    };
    let (x, y) = (read(&explicit), read(&implied));
    note!("explicit {:?}: {:?}\nimplied {:?}: {:?}\nexpected: {:?}", explicit, x, implied, y, want);
    match (&x, &y) {
        (Some(x), Some(y)) => {
            sx::check(x == y, 321);
            sx::check(simple, 322);
            // fields, in the order of the document
            let (mut g, mut k) = (0, 0);
            let mut first = true;
            for (n, w) in &want {
                let none = String::new();
                let got: &str = match n {
                    b'a' => &x.a,
                    b'b' => x.b.as_ref().unwrap_or(&none),
                    b'z' => x.z.as_ref().unwrap_or(&none),
                    b'c' => {
                        if !first {
                            g += 1
                        }
                        first = false;
                        k = 0;
                        sx::check(g < x.g.len(), 323);
                        &x.g[g].c
                    }
                    _ => {
                        sx::check(k < x.g[g].d.len(), 323);
                        k += 1;
                        &x.g[g].d[k - 1]
                    }
                };
                sx::check(same(got, w.as_deref().unwrap_or("")), 324);
            }
            sx::cover(1);
        }
        (None, None) => {
            sx::cover(2);
            sx::check(!simple, 325);
        }
        _ => sx::fail(326),
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        28 => {
            for (f, name) in ["attribute", "element", "pieces of text", "child tag", "sequence", "$value", "Option", "map key"].iter().enumerate() {
                for n in 0..=5 {
                    if n == 0 && f == 7 {
                        continue;
                    }
                    let l = match n {
                        4 => "'a' and up to 2".into(),
                        5 => "'ab' and non-ASCII".into(),
                        n => n.to_string(),
                    };
                    sx::job("h_flat", [f as u32, n, 0, 0], &format!("fieldless, {}: {} characters", name, l));
                }
            }
            let kinds = ["unit", "newtype string", "newtype integer", "newtype bool", "newtype option", "newtype sequence", "newtype struct", "tuple", "struct", "newtype enum", "newtype sequence of enums", "newtype with $value", "newtype unit", "struct with $value", "struct with $value elements", "unknown variant"];
            for (f, name) in ["field", "sequence", "$value", "$value sequence", "root", "", "map"].iter().enumerate() {
                if f == 5 {
                    sx::job("h_data", [5, 0, 0, 0], "name only");
                    continue;
                }
                for (k, kind) in kinds.iter().enumerate() {
                    sx::job("h_data", [f as u32, k as u32, if thorough { 2 } else { (f == 0) as u32 }, 0], &format!("{}: {}", name, kind));
                }
            }
        }
        30 => {
            for (k, name) in ["String", "Option<String>", "newtype", "u8", "anything", "fieldless enum", "Box<str>"].iter().enumerate() {
                let k = k as u32;
                for nested in 0..2 {
                    if nested == 1 && (k == 3 || k == 5) {
                        continue;
                    }
                    let n = if k == 3 { 2 } else if thorough { 5 } else { 4 };
                    sx::job("h_value_text", [k, n - nested, nested, 0], &format!("{}: up to {} pieces of text{}", name, n - nested, if nested == 1 { ", nested" } else { "" }));
                }
            }
            for (k, name) in ["Vec<String>", "Option<Vec<newtype>>", "Vec<struct of attribute and text>", "(String, String)", "Vec<enum>"].iter().enumerate() {
                for sep in 0..2 {
                    let n = if thorough { 4 } else { 3 };
                    sx::job("h_value_children", [k as u32, n, sep, 0], &format!("{}: 1 to {} children{}", name, n, if sep == 1 { " and blanks" } else { "" }));
                }
            }
        }
        31 => {
            let list: &[[u32; 4]] = if thorough {
                &[[4, 0, 0, 0], [0, 5, 0, 0], [2, 4, 1, 0], [0, 2, 2, 0], [3, 3, 0, 0], [2, 3, 1, 1], [0, 4, 0, 1]]
            } else {
                &[[3, 0, 0, 0], [0, 4, 0, 0], [1, 3, 1, 0], [0, 2, 2, 0], [2, 2, 0, 0], [1, 3, 0, 1]]
            };
            for l in list {
                sx::job("h_unknown", *l, &format!("up to {} attributes, {} elements, skipped content {} deep{}", l[0], l[1], l[2], if l[3] == 1 { ", nested" } else { "" }));
            }
        }
        32 => {
            for (i, d) in DOCS.iter().enumerate() {
                if d.0 == 0 || thorough {
                    let mut s = vec![];
                    for p in d.2 {
                        match p.iter().position(|c| *c == 0) {
                            None => s.extend_from_slice(p),
                            Some(i) => {
                                s.push(b'<');
                                s.extend_from_slice(&p[..i]);
                                s.push(b'>');
                                s.extend_from_slice(&p[i + 1..]);
                                s.extend_from_slice(b"(</");
                                s.extend_from_slice(&p[..i]);
                                s.extend_from_slice(b">)");
                            }
                        }
                    }
                    sx::job("h_implied", [i as u32, 0, 0, 0], &format!("{} {}", cfg::show(d.1), tpl::show(&s)));
                }
            }
        }
        _ => {}
    }
}
