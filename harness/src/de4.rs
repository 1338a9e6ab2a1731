//! P36: elements read without knowing their type in advance (self-describing, flattened, tagged and
//! untagged types).
use crate::de::*;
use crate::sx;
use serde::de::DeserializeOwned;
use serde::Deserialize as D;
use std::collections::BTreeMap;
use std::fmt::Debug;

type Res<T> = Result<T, sgmlish::de::DeserializationError>;
#[derive(D, Debug)]
struct Field<T> {
    #[allow(dead_code)]
    p: Option<String>,
    f: T,
    q: Option<String>,
}
/// How the value is embedded: root element, field, one of the elements of a sequence, $value.
pub const PLACES: [&str; 4] = ["root", "field", "sequence", "$value"];
pub fn place<T: DeserializeOwned + Debug>(place: u32, b: &mut B, element: &mut dyn FnMut(&mut B, &str)) -> Res<T> {
    match place {
        0 => {
            element(b, "r");
            b.read()
        }
        1 => {
            b.start("r");
            b.elt("p", "1");
            element(b, "f");
            b.elt("q", "2");
            b.end("r");
            let r: Res<Field<T>> = b.read();
            r.map(|r| {
                sx::check(r.q.as_deref() == Some("2"), 360);
                r.f
            })
        }
        2 => {
            b.start("r");
            element(b, "f");
            b.text("");
            element(b, "f");
            b.elt("q", "2");
            b.end("r");
            let r: Res<Field<Vec<T>>> = b.read();
            r.map(|mut r| {
                sx::check(r.q.as_deref() == Some("2") && r.f.len() == 2, 360);
                r.f.pop().unwrap()
            })
        }
        _ => {
            b.open("r");
            b.attr("a", "b");
            b.close();
            element(b, "g");
            b.end("r");
            let r: Res<Val<Box<T>>> = b.read();
            r.map(|r| *r.v)
        }
    }
}

fn any_text(b: &mut B, pieces: u32) -> String {
    let mut s = String::new();
    for _ in 0..sx::choose(pieces + 1) {
        let t = chars(1);
        b.text(&t);
        s.push_str(&t);
    }
    s
}
/// An element, and what it should be read as.
fn any_elt(b: &mut B, n: &str, attrs: u32, children: u32, depth: u32) -> Any {
    b.open(n);
    let mut m = vec![];
    for _ in 0..sx::choose(attrs + 1) {
        let n = letter();
        if sx::choose(3) == 0 {
            b.flag(&n);
            m.push((n, Any::Text(String::new())));
        } else {
            let v = chars(1);
            b.attr(&n, &v);
            m.push((n, Any::Text(v)));
        }
    }
    b.close();
    let k = sx::choose(children + 1);
    if k == 0 {
        let t = any_text(b, 2);
        b.end(n);
        return if !m.is_empty() {
            m.push(("$value".to_string(), Any::Text(t)));
            Any::Map(m)
        } else if t.is_empty() {
            Any::Unit
        } else {
            Any::Text(t)
        };
    }
    for _ in 0..k {
        if sx::choose(2) == 1 {
            b.text("-");
        }
        let n = letter();
        let v = if depth > 0 {
            any_elt(b, &n, 1, children, depth - 1)
        } else {
            b.start(&n);
            let t = any_text(b, 1);
            b.end(&n);
            if t.is_empty() {
                Any::Unit
            } else {
                Any::Text(t)
            }
        };
        m.push((n, v));
    }
    if sx::choose(2) == 1 {
        b.text("-");
    }
    b.end(n);
    Any::Map(m)
}
fn equal(a: &Any, b: &Any) -> bool {
    match (a, b) {
        (Any::Unit, Any::Unit) => true,
        (Any::Text(a), Any::Text(b)) => a == b,
        (Any::Map(a), Any::Map(b)) => {
            sx::check(a.len() == b.len(), 361);
            a.iter().zip(b).all(|((k, v), (l, w))| {
                sx::check(k == l, 362);
                equal(v, w)
            })
        }
        _ => false,
    }
}
/// place, attributes, children, depth
#[no_mangle]
pub extern "C" fn h_any(at: u32, attrs: u32, children: u32, depth: u32) {
    let mut b = B::new();
    let mut want = Any::Unit;
    let got: Res<Any> = place(at, &mut b, &mut |b, n| want = any_elt(b, n, attrs, children, depth));
    note!("events: {:?}\nread: {:?}\nexpected: {:?}", b.0, got, want);
    match got {
        Ok(g) => sx::check(equal(&g, &want), 363),
        Err(_) => sx::fail(364),
    }
    sx::cover(1);
    sx::cover(2);
}

#[derive(D, Debug)]
struct Flat1 {
    a: String,
    #[serde(flatten)]
    i: Two,
    b: Option<String>,
}
#[derive(D, Debug)]
struct Two {
    x: String,
    #[serde(default)]
    y: Option<String>,
    z: Option<Inner2>,
}
#[derive(D, Debug, PartialEq)]
struct Inner2 {
    k: String,
}
#[derive(D, Debug)]
struct Flat2 {
    a: String,
    #[serde(flatten)]
    m: BTreeMap<String, String>,
}
#[derive(D, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Un {
    S { x: String, y: String },
    T { x: String },
    M(BTreeMap<String, String>),
    Str(String),
    U,
}
#[derive(D, Debug)]
#[serde(tag = "t")]
#[allow(non_camel_case_types)]
enum Ta {
    s { x: String },
    t(Two),
    u,
}
#[derive(D, Debug)]
#[serde(tag = "t", content = "c")]
#[allow(non_camel_case_types)]
enum Ad {
    s { x: String },
    n(String),
    u,
}

/// Entries of an element, in some order, as attributes or child elements.
struct Entries(Vec<(&'static str, String, bool)>);
impl Entries {
    fn new() -> Self {
        Entries(vec![])
    }
    /// A value for the name, at a position to be chosen.
    fn add(&mut self, n: &'static str, v: String) {
        let attr = sx::choose(2) == 1;
        let at = sx::choose(self.0.len() as u32 + 1) as usize;
        self.0.insert(at, (n, v, attr));
    }
    fn write(&self, b: &mut B, n: &str, more: &mut dyn FnMut(&mut B)) {
        b.open(n);
        for (n, v, _) in self.0.iter().filter(|e| e.2) {
            b.attr(n, v)
        }
        b.close();
        for (n, v, _) in self.0.iter().filter(|e| !e.2) {
            b.elt(n, v)
        }
        more(b);
        b.end(n);
    }
}
/// The text of an entry; not empty, as empty elements have no text for those who do not ask.
fn value() -> String {
    let v = chars(1);
    if sx::choose(2) == 0 {
        v
    } else {
        v + "é"
    }
}
/// form: type, place
#[no_mangle]
pub extern "C" fn h_buffered(form: u32, at: u32, _: u32, _: u32) {
    let mut b = B::new();
    match form {
        0 => {
            // flattened struct
            let mut e = Entries::new();
            let (a, x) = (value(), chars(1));
            let has = sx::choose(4);
            let y = if has & 1 != 0 { Some(chars(1)) } else { None };
            if has != 2 {
                e.add("x", x.clone());
            }
            e.add("a", a.clone());
            if let Some(y) = &y {
                e.add("y", y.clone());
            }
            let q = sx::choose(2) == 1;
            let z = chars(1);
            if q {
                e.add("b", "B".to_string());
            }
            let got: Res<Flat1> = place(at, &mut b, &mut |b, n| {
                e.write(b, n, &mut |b| {
                    if q {
                        b.start("z");
                        b.elt("k", &z);
                        b.end("z");
                    }
                })
            });
            note!("events: {:?}\nread: {:?}", b.0, got);
            match got {
                Ok(g) => {
                    sx::check(has != 2, 366);
                    sx::check(g.a == a && g.b.is_some() == q && g.i.x == x && g.i.y == y, 365);
                    sx::check(g.i.z == if q { Some(Inner2 { k: z }) } else { None }, 365);
                    sx::cover(1);
                }
                Err(_) => {
                    sx::check(has == 2, 367);
                    sx::cover(2)
                }
            }
        }
        1 => {
            // flattened map
            let mut e = Entries::new();
            let (a, x, y) = (chars(1), value(), chars(1));
            e.add("a", a.clone());
            let n = sx::choose(3);
            if n > 0 {
                e.add("k", x.clone());
            }
            if n > 1 {
                e.add("j", y.clone());
            }
            let got: Res<Flat2> = place(at, &mut b, &mut |b, n| e.write(b, n, &mut |_| ()));
            note!("events: {:?}\nread: {:?}", b.0, got);
            match got {
                Ok(mut g) => {
                    // an element without child elements also has text
                    let v = g.m.remove("$value");
                    sx::check(v.is_none(), 365);
                    sx::check(g.a == a && g.m.len() == n as usize, 365);
                    sx::check(n < 1 || g.m.get("k") == Some(&x), 365);
                    sx::check(n < 2 || g.m.get("j") == Some(&y), 365);
                    sx::cover(1);
                }
                Err(_) => sx::fail(367),
            }
        }
        2 => {
            // untagged
            let mut e = Entries::new();
            let (x, y) = (value(), chars(1));
            let n = sx::choose(5);
            match n {
                0 => (),
                1 => e.add("x", x.clone()),
                2 => {
                    e.add("x", x.clone());
                    e.add("y", y.clone());
                }
                3 => {
                    e.add("y", y.clone());
                    e.add("z", x.clone());
                }
                _ => (),
            }
            let attrs_only = e.0.iter().all(|e| e.2);
            let got: Res<Un> = place(at, &mut b, &mut |b, k| {
                e.write(b, k, &mut |b| {
                    if n == 4 {
                        b.text(&x)
                    }
                })
            });
            note!("events: {:?}\nread: {:?}", b.0, got);
            match (n, got) {
                (0, Ok(Un::U)) => (),
                (1, Ok(Un::T { x: g })) => sx::check(g == x, 365),
                (2, Ok(Un::S { x: g, y: h })) => sx::check((g == x) & (h == y), 365),
                (3, Ok(Un::M(m))) => {
                    sx::check(m.len() == 2 + attrs_only as usize, 365);
                    sx::check(m.get("y") == Some(&y) && m.get("z") == Some(&x), 365)
                }
                (4, Ok(Un::Str(t))) => sx::check(t == x, 365),
                _ => sx::fail(366),
            }
            sx::cover(1);
        }
        3 => {
            // tagged within
            let mut e = Entries::new();
            let (t, x, y) = (letter(), value(), chars(1));
            let n = sx::choose(4);
            if n & 1 != 0 {
                e.add("x", x.clone());
            }
            e.add("t", t.clone());
            if n & 2 != 0 {
                e.add("y", y.clone());
            }
            let got: Res<Ta> = place(at, &mut b, &mut |b, k| e.write(b, k, &mut |_| ()));
            note!("events: {:?}\nread: {:?}", b.0, got);
            let c = t.as_bytes()[0];
            match got {
                Ok(Ta::s { x: g }) => sx::check((c == b's') & (n & 1 != 0) && g == x, 365),
                Ok(Ta::t(g)) => {
                    sx::check((c == b't') & (n & 1 != 0) && g.x == x && g.z.is_none(), 365);
                    sx::check(g.y == if n & 2 != 0 { Some(y) } else { None }, 365)
                }
                Ok(Ta::u) => sx::check(c == b'u', 365),
                Err(_) => {
                    sx::check(if n & 1 == 0 { c != b'u' } else { (c != b's') & (c != b't') & (c != b'u') }, 367);
                    return sx::cover(2);
                }
            }
            sx::cover(1);
        }
        _ => {
            // tagged besides
            let t = letter();
            let c = t.as_bytes()[0];
            let x = value();
            let content = sx::choose(3);
            let mut e = Entries::new();
            if content == 1 {
                e.add("c", x.clone());
            }
            e.add("t", t.clone());
            let first = sx::choose(2) == 1;
            let inner = |b: &mut B| {
                let mut i = Entries::new();
                i.add("x", x.clone());
                i.write(b, "c", &mut |_| ())
            };
            let got: Res<Ad> = place(at, &mut b, &mut |b, k| {
                if content == 2 && first {
                    // the content comes first
                    b.start(k);
                    inner(b);
                    b.elt("t", &t);
                    b.end(k);
                } else {
                    e.write(b, k, &mut |b| {
                        if content == 2 {
                            inner(b)
                        }
                    })
                }
            });
            note!("events: {:?}\nread: {:?}", b.0, got);
            match got {
                Ok(Ad::s { x: g }) => sx::check((c == b's') & (content == 2) && g == x, 365),
                // strings take the text of nested elements, too (unless they had to be buffered)
                Ok(Ad::n(g)) => sx::check((c == b'n') & (content != 0) && (content == 2 || g == x), 365),
                Ok(Ad::u) => sx::check((c == b'u') & (content != 1), 365),
                Err(_) => {
                    match content {
                        0 => sx::check(c != b'u', 367),
                        1 => sx::check(c != b'n', 367),
                        _ => sx::check(c != b's', 367),
                    }
                    return sx::cover(2);
                }
            }
            sx::cover(1);
        }
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    if prop != 36 {
        return;
    }
    for (i, p) in PLACES.iter().enumerate() {
        let i = i as u32;
        for (mut a, mut c, d) in if thorough { [(3, 0, 0), (1, 3, 0), (0, 2, 1), (1, 1, 2)] } else { [(3, 0, 0), (2, 2, 0), (1, 1, 1), (0, 1, 1)] } {
            // two of them
            if i == 2 {
                if d > 0 {
                    continue;
                }
                a = if c > 0 { 1 } else { 2 };
                c = c.min(1 + thorough as u32);
            }
            sx::job("h_any", [i, a, c, d], &format!("{}: any element of up to {} attributes and {} children, {} levels", p, a, c, d + 1));
        }
        for (k, t) in ["flattened struct", "flattened map", "untagged enum", "internally tagged enum", "adjacently tagged enum"].iter().enumerate() {
            sx::job("h_buffered", [k as u32, i, 0, 0], &format!("{}: {}", p, t));
        }
    }
}
