//! P39: borrowed strings; P40: maps, tuples, characters and units.
use crate::de::*;
use crate::de4::{place, PLACES};
use crate::{cfg, print, sx, tpl};
use serde::de::{self, Deserialize, DeserializeOwned, Deserializer, IgnoredAny};
use serde::Deserialize as D;
use sgmlish::{from_fragment, SgmlEvent::*};
use std::borrow::Cow;
use std::fmt::{self, Debug};
use std::marker::PhantomData;

use cfg::*;
type Res<T> = Result<T, sgmlish::de::DeserializationError>;

// ---- P39
#[derive(D, Debug)]
struct Own<T> {
    p: Option<String>,
    f: T,
    q: Option<String>,
}
#[derive(D, Debug)]
struct Lent<'a, T> {
    p: Option<&'a str>,
    f: T,
    q: Option<&'a str>,
}
#[derive(D, Debug)]
struct Cows<'a> {
    #[serde(borrow)]
    p: Option<Cow<'a, str>>,
    #[serde(borrow)]
    f: Cow<'a, str>,
}
#[derive(D, Debug)]
struct OwnValue {
    p: Option<String>,
    #[serde(rename = "$value")]
    f: String,
}
#[derive(D, Debug)]
struct LentValue<'a> {
    p: Option<&'a str>,
    #[serde(rename = "$value")]
    f: &'a str,
}
const LENT: [&str; 5] = ["attribute", "element", "$value", "sequence", "nested"];
/// (configuration, form, text)
const BORROWS: &[(u32, &[u32], &[u8])] = &[
    (0, &[0, 1, 2, 3, 4], b"\x01\x01\x01"),
    (ENT, &[0, 1, 2], b"\x01&\x01\x01;\x01"),
    (ENT, &[0, 1, 3], b"&lt;\x06"),
    (NOTRIM, &[0, 1, 2, 4], b"\x03\x16\x03"),
    (0, &[1, 2, 3], b"\x06<!--\x01-->\x01"),
    (0, &[1, 2], b"\x06<b>\x06</b>\x06"),
    (EXPAND | ENT, &[1, 2, 4], b"\x03<![CDATA[\x01\x01]]>\x06"),
    (EXPAND | ENT, &[1, 4], b"<![RCDATA[&\x01;\x01]]>"),
    (LOWER, &[0, 1], b"\x02\x01"),
    (0, &[0, 1, 2, 3], b""),
];
fn within(part: &str, s: &str) -> bool {
    let (p, a) = (part.as_ptr() as usize, s.as_ptr() as usize);
    part.is_empty() || (p >= a && p + part.len() <= a + s.len())
}
fn opt(a: &Option<String>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_borrow(t: u32, form: u32, _: u32, _: u32) {
    let (c, _, text) = BORROWS[t as usize];
    let (a, z): (&str, &str) = match form {
        0 => ("<r p=1 f='", "' q=2></r>"),
        1 => ("<r><p>1</p><f>", "</f><q>2</q></r>"),
        2 => ("<r p=1>", "</r>"),
        3 => ("<r><p>1</p><f>", "</f><f>y</f><q>2</q></r>"),
        _ => ("<r><f><b c=d>", "</b></f></r>"),
    };
    let s = [a, &tpl::build(text), z].concat();
    let fragment = match cfg::parser(c).parse(&s) {
        Ok(f) => f,
        Err(_) => return sx::cover(3),
    };
    // does every text stand in the document, and in one piece?
    let mut lent = true;
    let mut pieces = 0;
    for e in fragment.iter() {
        match e {
            Character(t) => {
                lent &= matches!(t, Cow::Borrowed(_));
                pieces += !t.is_empty() as u32;
            }
            Attribute { value: Some(v), .. } => lent &= matches!(v, Cow::Borrowed(_)),
            _ => (),
        }
        if let Character(Cow::Borrowed(t)) | Attribute { value: Some(Cow::Borrowed(t)), .. } = e {
            sx::check(within(t, &s), 390)
        }
    }
    sx::check(lent || s.contains('&'), 391);
    let whole = lent && pieces <= [0, 3, 1, 4, 1][form as usize];
    let f2 = fragment.clone();
    let f3 = fragment.clone();
    note!("parsing {:?} ({}): {:?}", s, cfg::show(c), fragment);
    // (owned is read, borrowed is read, they agree, borrowed stands in the document)
    let (own, lent, agree, inside) = match form {
        2 => {
            let x: Res<OwnValue> = from_fragment(fragment);
            let y: Res<LentValue> = from_fragment(f2);
            note!("owned {:?}\nborrowed {:?}", x, y);
            match (&x, &y) {
                (Ok(x), Ok(y)) => (true, true, same(&x.f, y.f) && opt(&x.p, y.p), within(y.f, &s)),
                _ => (x.is_ok(), y.is_ok(), true, true),
            }
        }
        3 => {
            let x: Res<Own<Vec<String>>> = from_fragment(fragment);
            let y: Res<Lent<Vec<&str>>> = from_fragment(f2);
            note!("owned {:?}\nborrowed {:?}", x, y);
            match (&x, &y) {
                (Ok(x), Ok(y)) => (
                    true,
                    true,
                    x.f.len() == y.f.len() && x.f.iter().zip(&y.f).all(|(x, y)| same(x, y)) && opt(&x.p, y.p) && opt(&x.q, y.q),
                    y.f.iter().all(|f| within(f, &s)),
                ),
                _ => (x.is_ok(), y.is_ok(), true, true),
            }
        }
        _ => {
            let x: Res<Own<String>> = from_fragment(fragment);
            let y: Res<Lent<&str>> = from_fragment(f2);
            let z: Res<Cows> = from_fragment(f3);
            note!("owned {:?}\nborrowed {:?}\nCow {:?}", x, y, z);
            if let (Ok(x), Ok(z)) = (&x, &z) {
                sx::check(same(&x.f, &z.f) && opt(&x.p, z.p.as_deref()), 394);
                sx::check(!matches!(z.f, Cow::Borrowed(_)) || within(&z.f, &s), 393);
            }
            sx::check(x.is_ok() == z.is_ok(), 394);
            match (&x, &y) {
                (Ok(x), Ok(y)) => (true, true, same(&x.f, y.f) && opt(&x.p, y.p) && opt(&x.q, y.q), within(y.f, &s)),
                _ => (x.is_ok(), y.is_ok(), true, true),
            }
        }
    };
    sx::check(own || !lent, 392);
    sx::check(agree, 392);
    sx::check(inside, 393);
    sx::check(lent || !own || !whole, 395);
    sx::cover(if lent { 1 } else { 2 });
}

// ---- P40
/// The entries of a map, in order.
#[derive(Debug, PartialEq)]
pub struct Pairs<T>(Vec<(String, T)>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Pairs<T> {
    fn deserialize<E: Deserializer<'de>>(d: E) -> Result<Self, E::Error> {
        struct V<T>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>> de::Visitor<'de> for V<T> {
            type Value = Pairs<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs<T>, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e)
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(V(PhantomData))
    }
}
trait Entry: DeserializeOwned + Debug {
    fn is(&self, texts: &[String]) -> bool;
}
impl Entry for String {
    fn is(&self, t: &[String]) -> bool {
        t.len() == 1 && same(self, &t[0])
    }
}
impl Entry for Option<String> {
    fn is(&self, t: &[String]) -> bool {
        t.len() == 1 && opt(self, Some(&t[0]))
    }
}
impl Entry for Vec<String> {
    fn is(&self, t: &[String]) -> bool {
        t.len() == self.len() && self.iter().zip(t).all(|(a, b)| same(a, b))
    }
}
impl Entry for () {
    fn is(&self, t: &[String]) -> bool {
        t.len() == 1
    }
}
#[derive(D, Debug)]
struct Wrap(String);
impl Entry for Wrap {
    fn is(&self, t: &[String]) -> bool {
        self.0.is(t)
    }
}
fn map<T: Entry>(at: u32, attrs: u32, children: u32, series: bool) {
    let mut b = B::new();
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let mut element = |b: &mut B, n: &str| {
        want.clear();
        b.open(n);
        for _ in 0..sx::choose(attrs + 1) {
            let n = letter();
            let mut v = chars(1);
            if sx::choose(3) == 0 {
                v.clear();
                b.flag(&n);
            } else {
                b.attr(&n, &v);
            }
            want.push((n, vec![v]));
        }
        b.close();
        let k = sx::choose(children + 1);
        let mut joined = false;
        for _ in 0..k {
            let n = letter();
            let t = upto(1);
            match sx::choose(3) {
                0 => b.elt(&n, &t),
                1 => {
                    b.open(&n);
                    b.attr("x", "y");
                    b.close();
                    b.elt("z", &t);
                    b.end(&n);
                }
                _ => {
                    // ends a series
                    b.text("-");
                    joined = false;
                    b.elt(&n, &t);
                }
            }
            match want.last_mut() {
                Some(w) if series && joined && same(&w.0, &n) => w.1.push(t),
                _ => want.push((n, vec![t])),
            }
            joined = true;
        }
        if sx::choose(2) == 1 {
            b.text("x");
        }
        b.end(n);
    };
    let r: Res<Pairs<T>> = place(at, &mut b, &mut element);
    note!("events: {:?}\nread: {:?}\nexpected: {:?}", b.0, r, want);
    match r {
        Ok(r) => {
            sx::check(r.0.len() == want.len(), 401);
            for ((n, v), (n2, v2)) in r.0.iter().zip(&want) {
                sx::check(same(n, n2), 402);
                sx::check(v.is(v2), 403);
            }
            sx::cover(1);
        }
        // sequences are not read from attributes
        Err(_) => sx::fail(404),
    }
}
#[no_mangle]
pub extern "C" fn h_map(kind: u32, at: u32, attrs: u32, children: u32) {
    match kind {
        0 => map::<String>(at, attrs, children, false),
        1 => map::<Option<String>>(at, attrs, children, false),
        2 => map::<Vec<String>>(at, 0, children, true),
        3 => map::<()>(at, attrs, children, false),
        _ => map::<Wrap>(at, attrs, children, false),
    }
}
#[derive(D, Debug)]
struct Two(String, Option<String>);
trait Items: DeserializeOwned + Debug {
    fn texts(&self) -> Vec<&str>;
}
impl Items for (String, String) {
    fn texts(&self) -> Vec<&str> {
        vec![&self.0, &self.1]
    }
}
impl Items for [String; 3] {
    fn texts(&self) -> Vec<&str> {
        self.iter().map(|s| &s[..]).collect()
    }
}
impl Items for (String,) {
    fn texts(&self) -> Vec<&str> {
        vec![&self.0]
    }
}
impl Items for Two {
    fn texts(&self) -> Vec<&str> {
        vec![&self.0, self.1.as_deref().unwrap_or("?")]
    }
}
impl Items for (Wrap, [String; 1]) {
    fn texts(&self) -> Vec<&str> {
        vec![&self.0 .0, &self.1[0]]
    }
}
fn tuple<T: Items>(items: usize, most: u32) {
    let mut b = B::new();
    let mut want: Vec<String> = vec![];
    let mut whole = true;
    let p = sx::choose(2) == 1;
    let q = sx::choose(2) == 1;
    b.start("r");
    if p {
        b.elt("p", "1");
    }
    let k = sx::choose(most + 1);
    for i in 0..k {
        if i > 0 {
            match sx::choose(4) {
                0 => b.text(""),
                1 if i + 1 == k => {
                    // not in a row
                    b.elt("x", "y");
                    whole = false;
                }
                _ => (),
            }
        }
        let t = chars(1);
        if sx::choose(2) == 0 {
            b.elt("f", &t)
        } else {
            b.open("f");
            b.attr("a", "b");
            b.close();
            b.elt("b", &t);
            b.end("f");
        }
        want.push(t);
    }
    if q {
        b.elt("q", "2");
    }
    b.end("r");
    let r: Res<Own<T>> = b.read();
    note!("events: {:?}\nread: {:?}\nexpected: {:?}", b.0, r, want);
    match r {
        Ok(r) => {
            sx::check(whole && want.len() == items, 411);
            let v = r.f.texts();
            sx::check(v.len() == items && v.iter().zip(&want).all(|(a, b)| same(a, b)), 412);
            sx::check(r.p.is_some() == p && r.q.is_some() == q, 413);
            sx::cover(1);
        }
        Err(_) => {
            sx::check(!whole || want.len() != items, 414);
            sx::cover(2);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_tuple(kind: u32, most: u32, _: u32, _: u32) {
    match kind {
        0 => tuple::<(String, String)>(2, most),
        1 => tuple::<[String; 3]>(3, most),
        2 => tuple::<(String,)>(1, most),
        _ => tuple::<Two>(2, most),
    }
}
#[derive(D, Debug)]
struct Unit;
fn unit<T: DeserializeOwned + Debug>(depth: u32, attr: bool) {
    let mut b = B::new();
    b.open("r");
    b.attr("p", "1");
    if attr {
        if sx::choose(2) == 0 {
            b.flag("f")
        } else {
            b.attr("f", &upto(2))
        }
        b.close();
    } else {
        b.close();
        b.open("f");
        if sx::choose(2) == 1 {
            b.attr(&letter(), &chars(1));
        }
        b.close();
        crate::de3::junk(&mut b, depth);
        b.end("f");
        b.text("-");
    }
    b.elt("q", "2");
    b.end("r");
    let r: Res<Own<T>> = b.read();
    note!("events: {:?}\nread: {:?}", b.0, r);
    match r {
        Ok(r) => sx::check(r.p.as_deref() == Some("1") && r.q.as_deref() == Some("2"), 421),
        Err(_) => sx::fail(422),
    }
    sx::cover(1);
}
#[no_mangle]
pub extern "C" fn h_unit(kind: u32, depth: u32, attr: u32, _: u32) {
    match kind {
        0 => unit::<()>(depth, attr == 1),
        1 => unit::<Unit>(depth, attr == 1),
        2 => unit::<Option<()>>(depth, attr == 1),
        _ => unit::<IgnoredAny>(depth, attr == 1),
    }
}
const CHARS: &[&[u8]] = &[b"\x16", b"", b"\x01\x01", b"\x16\x01", b"\x01\x16", b"\x0f\x0f"];
#[no_mangle]
pub extern "C" fn h_char(t: u32, form: u32, _: u32, _: u32) {
    let v = tpl::build(CHARS[t as usize]);
    let mut b = B::new();
    let got: Option<char> = match form {
        0 => {
            b.open("r");
            b.attr("f", &v);
            b.close();
            b.end("r");
            let r: Res<Own<char>> = b.read();
            r.ok().map(|r| r.f)
        }
        1 => {
            b.start("r");
            b.text("");
            b.elt("f", &v);
            b.end("r");
            let r: Res<Own<char>> = b.read();
            r.ok().map(|r| r.f)
        }
        2 => {
            b.open("r");
            b.attr("p", "");
            b.close();
            b.text(&v);
            b.end("r");
            let r: Res<Val<char>> = b.read();
            r.ok().map(|r| r.v)
        }
        _ => {
            b.start("r");
            b.elt("f", "x");
            b.elt("f", &v);
            b.end("r");
            let r: Res<Own<Vec<char>>> = b.read();
            r.ok().and_then(|mut r| r.f.pop())
        }
    };
    let mut it = v.chars();
    let want = match (it.next(), it.next()) {
        (Some(c), None) => Some(c),
        _ => None,
    };
    note!("value {:?}: {:?}", v, got);
    sx::check(got == want, 431);
    sx::cover(if got.is_some() { 1 } else { 2 });
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        39 => {
            for (i, (c, forms, t)) in BORROWS.iter().enumerate() {
                for f in *forms {
                    sx::job("h_borrow", [i as u32, *f, 0, 0], &format!("{} {}: {}", cfg::show(*c), LENT[*f as usize], tpl::show(t)));
                }
            }
        }
        40 => {
            for (k, name) in ["String", "Option<String>", "Vec<String>", "()", "newtype"].iter().enumerate() {
                for at in 0..4 {
                    let (a, c) = if thorough { (2, 3) } else if at == 2 { (1, 1) } else { (1, 2) };
                    sx::job("h_map", [k as u32, at, a, c], &format!("map of {} ({}): up to {} attributes, {} children", name, PLACES[at as usize], a, c));
                }
            }
            for (k, name) in ["(String, String)", "[String; 3]", "(String,)", "tuple struct"].iter().enumerate() {
                sx::job("h_tuple", [k as u32, if thorough { 5 } else { 4 }, 0, 0], &format!("{}: up to 4 elements", name));
            }
            for (k, name) in ["()", "unit struct", "Option<()>", "IgnoredAny"].iter().enumerate() {
                sx::job("h_unit", [k as u32, if thorough { 3 } else { 2 }, 0, 0], &format!("{}: any element", name));
                sx::job("h_unit", [k as u32, 0, 1, 0], &format!("{}: any attribute", name));
            }
            for (i, t) in CHARS.iter().enumerate() {
                for (f, name) in ["attribute", "element", "$value", "sequence"].iter().enumerate() {
                    sx::job("h_char", [i as u32, f as u32, 0, 0], &format!("char {}: {}", name, tpl::show(t)));
                }
            }
        }
        _ => {}
    }
}
