//! P22, P29: deserialization of arbitrary and of damaged event sequences; shared builders.
use crate::{sx, tpl};
use serde::de::{self, Deserialize, Deserializer, IgnoredAny};
use serde::Deserialize as D;
use sgmlish::{from_fragment, SgmlEvent, SgmlFragment};
use std::collections::BTreeMap;
use std::fmt;
use SgmlEvent::*;

/// Builds event sequences.
#[derive(Default, Clone)]
pub struct B(pub Vec<SgmlEvent<'static>>, pub Vec<usize>);
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// The same event, with borrowed strings.
fn lend(e: &SgmlEvent<'static>) -> SgmlEvent<'static> {
    let l = |s: &str| std::borrow::Cow::Borrowed(leak(s.to_string()));
    match e {
        OpenStartTag { name } => OpenStartTag { name: l(name) },
        EndTag { name } => EndTag { name: l(name) },
        Attribute { name, value } => Attribute { name: l(name), value: value.as_deref().map(l) },
        Character(t) => Character(l(t)),
        e => e.clone(),
    }
}
impl B {
    pub fn new() -> Self {
        B(Vec::with_capacity(64), vec![])
    }
    pub fn of(v: Vec<SgmlEvent<'static>>) -> Self {
        B(v, vec![])
    }
    /// What comes here is skipped: unsupported events may be ignored.
    pub fn lax(&mut self) {
        self.1.push(self.0.len());
    }
    /// An element that is not decoded.
    pub fn unit(&mut self, n: &str) {
        self.start(n);
        self.lax();
        self.end(n);
    }
    pub fn open(&mut self, n: &str) {
        self.0.push(OpenStartTag { name: n.to_string().into() });
    }
    pub fn attr(&mut self, n: &str, v: &str) {
        self.0.push(Attribute { name: n.to_string().into(), value: Some(v.to_string().into()) });
    }
    pub fn flag(&mut self, n: &str) {
        self.0.push(Attribute { name: n.to_string().into(), value: None });
    }
    pub fn close(&mut self) {
        self.0.push(CloseStartTag);
    }
    pub fn xml(&mut self) {
        self.0.push(XmlCloseEmptyElement);
    }
    pub fn start(&mut self, n: &str) {
        self.open(n);
        self.close();
    }
    pub fn end(&mut self, n: &str) {
        self.0.push(EndTag { name: n.to_string().into() });
    }
    pub fn text(&mut self, t: &str) {
        self.0.push(Character(t.to_string().into()));
    }
    /// text borrowed from a document
    pub fn borrowed(&mut self, t: &str) {
        self.0.push(Character(leak(t.to_string()).into()));
    }
    pub fn elt(&mut self, n: &str, t: &str) {
        self.start(n);
        self.text(t);
        self.end(n);
    }
    /// Names and texts may be owned or borrowed: both must be read alike.
    pub fn read<T: de::DeserializeOwned>(&self) -> Result<T, sgmlish::de::DeserializationError> {
        self.read_as(sx::choose(2) == 0)
    }
    pub fn read_as<T: de::DeserializeOwned>(&self, owned: bool) -> Result<T, sgmlish::de::DeserializationError> {
        let v = if owned { self.0.clone() } else { self.0.iter().map(lend).collect() };
        from_fragment::<T>(SgmlFragment::from(v))
    }
}
/// One letter: any.
pub fn letter() -> String {
    let b = sx::ascii();
    sx::assume(tpl::is_letter(b));
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
/// n characters, each any 7-bit one
pub fn chars(n: u32) -> String {
    unsafe { String::from_utf8_unchecked((0..n).map(|_| sx::ascii()).collect()) }
}
/// up to n characters
pub fn upto(n: u32) -> String {
    let n = sx::choose(n + 1);
    chars(n)
}
/// Equality of texts as one formula
pub fn same(a: &str, b: &str) -> bool {
    a.len() == b.len() && {
        let mut d = 0;
        for (x, y) in a.bytes().zip(b.bytes()) {
            d |= x ^ y
        }
        d == 0
    }
}

// ---- target shapes
#[derive(D, Debug)]
pub struct Plain {
    pub f: String,
    pub g: Option<String>,
    #[serde(default)]
    pub h: Vec<String>,
}
#[derive(D, Debug)]
pub struct Val<T> {
    pub a: Option<String>,
    #[serde(rename = "$value")]
    pub v: T,
}
#[derive(D, Debug, PartialEq)]
pub struct F<T> {
    pub f: T,
}
#[derive(D, Debug, PartialEq)]
pub struct Inner {
    pub x: String,
    pub y: Option<u8>,
}
/// An enum with every kind of variant.
#[allow(non_camel_case_types)]
#[derive(D, Debug, PartialEq)]
pub enum Data {
    u,
    n(String),
    i(u8),
    b(bool),
    o(Option<String>),
    l(Vec<String>),
    m(Inner),
    t(u8, String),
    s { x: String, y: Option<u8> },
    e(Box<Data>),
    v(Vec<Data>),
    w(Val2),
    z(()),
    k {
        a: Option<String>,
        #[serde(rename = "$value")]
        v: String,
    },
    j {
        #[serde(default)]
        a: Option<String>,
        #[serde(rename = "$value", default)]
        v: Vec<Data>,
        q: Option<u8>,
    },
}
#[derive(D, Debug, PartialEq)]
pub struct Val2 {
    pub a: Option<String>,
    #[serde(rename = "$value")]
    pub v: String,
}
#[derive(D, Debug, PartialEq, Clone, Copy)]
pub enum Flat {
    a,
    b,
    ab,
}
#[derive(D, Debug, PartialEq)]
pub struct Tup(pub String, pub u8);
#[derive(D, Debug, PartialEq)]
pub struct Newt(pub String);
#[derive(D, Debug, PartialEq)]
pub struct Unit;
#[derive(D, Debug)]
#[serde(untagged)]
pub enum Untagged {
    I(u64),
    S(String),
    G { f: String, g: Option<String> },
    V { f: Vec<String> },
}
#[derive(D, Debug)]
#[serde(tag = "f")]
pub enum Internal {
    a {
        #[serde(rename = "$value")]
        v: String,
    },
    b {
        g: String,
    },
    u,
}
#[derive(D, Debug)]
#[serde(tag = "f", content = "g")]
pub enum Adjacent {
    a(String),
    b { h: String },
    u,
}
#[derive(D, Debug)]
pub struct Flatten {
    pub f: Option<String>,
    #[serde(flatten)]
    pub rest: BTreeMap<String, String>,
}
#[derive(D, Debug)]
pub struct Rec {
    #[serde(default)]
    pub f: Vec<Rec>,
    pub g: Option<String>,
}
/// Anything at all.
pub enum Any {
    Unit,
    Text(String),
    Map(Vec<(String, Any)>),
}
impl fmt::Debug for Any {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Any::Unit => f.write_str("()"),
            Any::Text(t) => write!(f, "{:?}", t),
            Any::Map(m) => f.debug_map().entries(m.iter().map(|(k, v)| (k, v))).finish(),
        }
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Unit)
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Any, E> {
                Ok(Any::Text(s.to_string()))
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut m: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(k) = m.next_key::<String>()? {
                    v.push((k, m.next_value()?));
                }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(V)
    }
}
#[derive(Debug)]
pub struct Bytes(pub Vec<u8>);
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Bytes, E> {
                Ok(Bytes(s.as_bytes().to_vec()))
            }
        }
        d.deserialize_bytes(V)
    }
}

/// (name, a document it reads)
pub const SHAPES: &[(&str, fn(&mut B))] = &[
    ("struct of string, option, sequence", |b| {
        b.start("r");
        b.text(" ");
        b.elt("f", "x");
        b.text("");
        b.elt("g", "y");
        b.elt("h", "1");
        b.elt("h", "2");
        b.text("\n");
        b.end("r");
    }),
    ("struct of attribute and $value: String", |b| {
        b.open("r");
        b.attr("a", "x");
        b.close();
        b.text("x");
        b.text("y");
        b.end("r");
    }),
    ("$value: Vec<String>", |b| {
        b.open("r");
        b.attr("a", "x");
        b.close();
        b.elt("f", "x");
        b.elt("g", "y");
        b.end("r");
    }),
    ("$value: Vec<enum>", |b| {
        b.start("r");
        b.elt("n", "x");
        b.unit("u");
        b.start("t");
        b.text("1");
        b.end("t");
        b.elt("t", "z");
        b.open("s");
        b.attr("x", "1");
        b.close();
        b.elt("y", "7");
        b.end("s");
        b.end("r");
    }),
    ("field of enum with data", |b| {
        b.start("r");
        b.start("f");
        b.start("m");
        b.elt("x", "1");
        b.elt("y", "2");
        b.end("m");
        b.end("f");
        b.end("r");
    }),
    ("recursive enum", |b| {
        b.start("r");
        b.start("f");
        b.start("v");
        b.elt("n", "1");
        b.start("e");
        b.elt("l", "2");
        b.end("e");
        b.end("v");
        b.end("f");
        b.end("r");
    }),
    ("map of strings", |b| {
        b.open("r");
        b.attr("k", "v");
        b.close();
        b.elt("l", "w");
        b.end("r");
    }),
    ("map of sequences", |b| {
        b.start("r");
        b.elt("l", "1");
        b.elt("l", "2");
        b.elt("m", "3");
        b.end("r");
    }),
    ("tuples in a sequence", |b| {
        b.start("r");
        b.elt("f", "x");
        b.elt("f", "1");
        b.elt("f", "y");
        b.elt("f", "2");
        b.end("r");
    }),
    ("recursive struct", |b| {
        b.start("r");
        b.open("f");
        b.attr("g", "x");
        b.close();
        b.start("f");
        b.elt("g", "z");
        b.end("f");
        b.end("f");
        b.start("f");
        b.end("f");
        b.end("r");
    }),
    ("booleans", |b| {
        b.start("r");
        b.elt("f", "1");
        b.elt("f", "false");
        b.end("r");
    }),
    ("string with nested elements", |b| {
        b.start("r");
        b.text("x");
        b.start("b");
        b.text("y");
        b.elt("c", "z");
        b.end("b");
        b.text("w");
        b.end("r");
    }),
    ("anything", |b| {
        b.start("r");
        b.unit("f");
        b.elt("g", "x");
        b.open("h");
        b.attr("g", "y");
        b.close();
        b.text("z");
        b.end("h");
        b.end("r");
    }),
    ("untagged enum", |b| {
        b.start("r");
        b.elt("f", "x");
        b.start("f");
        b.elt("f", "y");
        b.elt("g", "z");
        b.end("f");
        b.end("r");
    }),
    ("internally tagged enum", |b| {
        b.start("r");
        b.open("f");
        b.attr("f", "a");
        b.close();
        b.text("x");
        b.end("f");
        b.start("f");
        b.elt("f", "b");
        b.elt("g", "x");
        b.end("f");
        b.end("r");
    }),
    ("adjacently tagged enum", |b| {
        b.start("r");
        b.open("f");
        b.attr("f", "a");
        b.attr("g", "x");
        b.close();
        b.end("f");
        b.start("f");
        b.elt("f", "b");
        b.start("g");
        b.elt("h", "x");
        b.end("g");
        b.end("f");
        b.end("r");
    }),
    ("flattened struct", |b| {
        b.open("r");
        b.attr("k", "x");
        b.close();
        b.elt("f", "y");
        b.elt("l", "z");
        b.end("r");
    }),
    ("fieldless enums", |b| {
        b.start("r");
        b.elt("f", "a");
        b.start("f");
        b.unit("ab");
        b.end("f");
        b.end("r");
    }),
    ("$value: Option<struct>", |b| {
        b.start("r");
        b.start("q");
        b.elt("f", "x");
        b.end("q");
        b.end("r");
    }),
    ("unit struct, newtypes, tuple struct", |b| {
        b.start("r");
        b.unit("u");
        b.elt("n", "x");
        b.elt("t", "y");
        b.elt("t", "7");
        b.end("r");
    }),
    ("u64", |b| {
        b.elt("r", "12");
    }),
    ("char", |b| {
        b.elt("r", "c");
    }),
    ("sequence at the root", |b| {
        b.elt("r", "x");
        b.elt("r", "y");
        b.text("z");
    }),
    ("tuple of a string and a number at the root", |b| {
        b.elt("r", "x");
        b.elt("q", "1");
    }),
    ("enum at the root", |b| {
        b.start("s");
        b.elt("x", "1");
        b.elt("y", "2");
        b.end("s");
    }),
    ("sequences of sequences", |b| {
        b.start("r");
        b.elt("f", "x");
        b.elt("f", "y");
        b.end("r");
    }),
    ("bytes, ignored", |b| {
        b.start("r");
        b.elt("b", "x");
        b.start("i");
        b.lax();
        b.text("y");
        b.lax();
        b.end("i");
        b.end("r");
    }),
    ("$value: (String, String)", |b| {
        b.start("r");
        b.elt("x", "1");
        b.elt("y", "2");
        b.end("r");
    }),
    ("$value: enum", |b| {
        b.open("r");
        b.attr("a", "1");
        b.close();
        b.elt("n", "2");
        b.end("r");
    }),
    ("map from enum", |b| {
        b.start("r");
        b.elt("a", "1");
        b.elt("b", "2");
        b.end("r");
    }),
    ("f64", |b| {
        b.elt("r", "1");
    }),
    ("set of units", |b| {
        b.start("r");
        b.text("1");
        b.end("r");
    }),
    ("ignored", |b| {
        b.open("r");
        b.attr("a", "1");
        b.close();
        b.lax();
        b.start("f");
        b.lax();
        b.end("f");
        b.lax();
        b.end("r");
    }),
];
#[derive(D, Debug)]
struct Singles {
    u: Unit,
    n: Newt,
    t: Tup,
}
#[derive(D, Debug)]
struct BytesIgnored {
    b: Bytes,
    i: IgnoredAny,
}
#[derive(D, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Key {
    a,
    b,
}
/// Reads the shape with the given index: whether it succeeded.
pub fn read_shape(k: u32, b: &B) -> bool {
    read_error(k, b).is_none()
}
pub fn read_error(k: u32, b: &B) -> Option<sgmlish::de::DeserializationError> {
    fn go<T: de::DeserializeOwned + fmt::Debug>(b: &B) -> Option<sgmlish::de::DeserializationError> {
        let r = b.read::<T>();
        note!("read: {:?}", r);
        r.err()
    }
    match k {
        0 => go::<Plain>(b),
        1 => go::<Val<String>>(b),
        2 => go::<Val<Vec<String>>>(b),
        3 => go::<Val<Vec<Data>>>(b),
        4 | 5 => go::<F<Data>>(b),
        6 => go::<BTreeMap<String, String>>(b),
        7 => go::<BTreeMap<String, Vec<Option<u8>>>>(b),
        8 => go::<F<Vec<(String, u8)>>>(b),
        9 => go::<Rec>(b),
        10 => go::<F<Vec<bool>>>(b),
        11 => go::<String>(b),
        12 => go::<Any>(b),
        13 => go::<F<Vec<Untagged>>>(b),
        14 => go::<F<Vec<Internal>>>(b),
        15 => go::<F<Vec<Adjacent>>>(b),
        16 => go::<Flatten>(b),
        17 => go::<F<Vec<Flat>>>(b),
        18 => go::<Val<Option<F<String>>>>(b),
        19 => go::<Singles>(b),
        20 => go::<u64>(b),
        21 => go::<char>(b),
        22 => go::<Vec<String>>(b),
        23 => go::<(String, u8)>(b),
        24 => go::<Data>(b),
        25 => go::<F<Vec<Vec<String>>>>(b),
        26 => go::<BytesIgnored>(b),
        27 => go::<Val<(String, String)>>(b),
        28 => go::<Val<Data>>(b),
        29 => go::<BTreeMap<Key, String>>(b),
        30 => go::<f64>(b),
        31 => go::<BTreeMap<u8, ()>>(b),
        _ => go::<IgnoredAny>(b),
    }
}

pub fn bad(b: &mut B, k: u32) {
    if k == 3 {
        b.open("");
    }
    b.0.push(match k {
        0 => MarkupDeclaration { keyword: "D".into(), body: "x".into() },
        1 => ProcessingInstruction("<?p>".into()),
        2 => MarkedSection { status_keywords: "TEMP".into(), section: "x".into() },
        3 => CloseStartTag,
        _ => EndTag { name: "".into() },
    })
}

/// P22: any sequence of n items, read as the shape k.
#[no_mangle]
pub extern "C" fn h_events(k: u32, n: u32, rich: u32, start: u32) {
    let mut b = B::new();
    if start & 1 != 0 {
        // an element that the shape reads, or the start tag of one
        b.start(if k == 24 { "v" } else { "r" });
    }
    for _ in 0..n {
        match sx::choose(if rich != 0 { 11 } else { 6 }) {
            0 => break,
            1 => {
                let t = chars(1);
                b.text(&t)
            }
            2 => {
                let n = letter();
                b.start(&n)
            }
            3 => {
                let n = letter();
                b.end(&n)
            }
            4 => {
                let (n, a, v) = (letter(), letter(), chars(1));
                b.open(&n);
                b.attr(&a, &v);
                b.close();
            }
            5 => {
                let n = letter();
                let t = chars(1);
                b.elt(&n, &t)
            }
            6 => {
                let n = letter();
                b.open(&n);
                b.xml();
            }
            7 => {
                let k = sx::choose(5);
                bad(&mut b, k)
            }
            8 => b.text(""),
            9 => match sx::choose(4) {
                0 => b.close(),
                1 => b.xml(),
                2 => {
                    let a = letter();
                    b.flag(&a)
                }
                _ => b.open("f"),
            },
            _ => {
                let n = letter();
                b.start(&n);
                b.end(&n);
            }
        }
    }
    note!("events: {:?}", b.0);
    let ok = read_shape(k, &b);
    if start & 2 != 0 {
        if ok {
            sx::cover(3);
            sx::check(well_formed(&b, matches!(k, 1 | 6 | 11)), 222);
        }
    } else {
        sx::cover(if ok { 1 } else { 2 });
    }
    sx::observe(ok as u64);
}
/// Whether the first element is complete, its tags match, and (if strict) it has nothing but
/// elements and text inside.
fn well_formed(b: &B, strict: bool) -> bool {
    let mut stack: Vec<&str> = vec![];
    let mut in_tag = false;
    for e in &b.0 {
        match e {
            OpenStartTag { name } => {
                if strict && name.is_empty() {
                    return false;
                }
                stack.push(name);
                in_tag = true;
            }
            CloseStartTag => in_tag = false,
            Attribute { .. } | Character(_) => {}
            EndTag { .. } | XmlCloseEmptyElement => {
                let top = match stack.pop() {
                    Some(t) => t,
                    None => return false,
                };
                in_tag = false;
                if let EndTag { name } = e {
                    if !same(top, name) {
                        return false;
                    }
                }
                if stack.is_empty() {
                    return true;
                }
            }
            _ if strict && !in_tag => return false,
            _ => {}
        }
    }
    false
}

/// P29: a document of the shape k with one defect.
#[no_mangle]
pub extern "C" fn h_damage(k: u32, kind: u32, _: u32, _: u32) {
    let mut b = B::new();
    SHAPES[k as usize].1(&mut b);
    let n = b.0.len() as u32;
    match kind {
        0 => {
            // intact, with other texts behind it
            if sx::choose(2) == 1 && !(k == 22 || k == 23) {
                let t = sx::choose(5);
                bad(&mut b, t)
            }
            note!("events: {:?}", b.0);
            sx::check(read_shape(k, &b), 221);
            sx::cover(1);
            return;
        }
        1 => {
            let p = sx::choose(n);
            b.0.truncate(p as usize);
        }
        2 => {
            // another name in an end tag
            let mut p = sx::choose(n) as usize;
            while !matches!(b.0[p], EndTag { .. }) {
                p += 1;
                if p >= b.0.len() {
                    return;
                }
            }
            let new = match sx::choose(4) {
                0 => letter(),
                1 => chars(2),
                2 => letter() + "b",
                _ => "".into(),
            };
            let old = match &b.0[p] {
                EndTag { name } => name.to_string(),
                _ => return,
            };
            sx::assume(!same(&old, &new));
            b.0[p] = EndTag { name: new.into() };
        }
        3 => {
            // an end tag is missing
            let mut p = sx::choose(n) as usize;
            while !matches!(b.0[p], EndTag { .. }) {
                p += 1;
                if p >= b.0.len() {
                    return;
                }
            }
            b.0.remove(p);
        }
        _ => {
            // something unsupported inside the element
            let mut p = sx::choose(n) as usize;
            while p > 0 && (matches!(b.0[p - 1], OpenStartTag { .. }) || matches!(b.0[p - 1], Attribute { .. })) {
                p += 1;
            }
            if b.1.contains(&p) || ((k == 22 || k == 23) && p % 4 == 0) {
                return;
            }
            let mut x = B::new();
            if kind == 5 {
                // the section of a parsed document
                x.0.push(MarkedSection { status_keywords: "CDATA".into(), section: "x".into() });
            } else {
                let t = sx::choose(5);
                bad(&mut x, t);
            }
            let rest = b.0.split_off(p);
            b.0.extend(x.0);
            b.0.extend(rest);
        }
    }
    note!("events: {:?}", b.0);
    sx::check(!read_shape(k, &b), 220);
    sx::cover(2);
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        22 => {
            for (k, s) in SHAPES.iter().enumerate() {
                let k = k as u32;
                let (a, b) = match k {
                    30 => (2, 2), // numbers of several digits are out of reach of the solver here
                    3 | 24 | 28 if thorough => (4, 4),
                    3 | 24 | 28 => (3, 3), // enums: many paths
                    _ if thorough => (5, 4),
                    _ => (4, 3),
                };
                sx::job("h_events", [k, a, 0, 1], &format!("start tag and {} items: {}", a, s.0));
                sx::job("h_events", [k, b, 1, 1], &format!("start tag and {} items of any kind: {}", b, s.0));
                let c = if thorough && k != 30 { 3 } else { 2 };
                sx::job("h_events", [k, c, 1, 0], &format!("{} items of any kind: {}", c, s.0));
            }
        }
        29 => {
            for (k, s) in SHAPES.iter().enumerate() {
                let k = k as u32;
                if !matches!(k, 22 | 23 | 30) {
                    let n = match k {
                        3 | 24 | 28 if !thorough => 2,
                        3 | 24 | 28 => 3,
                        _ if thorough => 4,
                        _ => 3,
                    };
                    sx::job("h_events", [k, n, 1, 3], &format!("start tag and {} items of any kind: {}", n, s.0));
                    sx::job("h_events", [k, n + 1, 0, 3], &format!("start tag and {} items: {}", n + 1, s.0));
                }
                for (i, d) in ["intact", "truncated", "end tag renamed", "end tag missing", "unsupported item", "unexpanded CDATA section"].iter().enumerate() {
                    sx::job("h_damage", [k, i as u32, 0, 0], &format!("{}: {}", s.0, d));
                }
            }
        }
        _ => {}
    }
}
