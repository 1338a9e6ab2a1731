//! P41: errors say what is wrong.
use crate::de::*;
use crate::print::equal;
use crate::sx;
use serde::Deserialize as D;
use sgmlish::de::DeserializationError as E;
use sgmlish::SgmlEvent::*;
use std::num::{ParseFloatError, ParseIntError};

/// A document of the shape k with one defect.
#[no_mangle]
pub extern "C" fn h_blame(k: u32, kind: u32, _: u32, _: u32) {
    let mut b = B::new();
    SHAPES[k as usize].1(&mut b);
    let n = b.0.len() as u32;
    let e = match kind {
        0 => {
            let p = sx::choose(n);
            b.0.truncate(p as usize);
            note!("events: {:?}", b.0);
            match read_error(k, &b) {
                Some(e) => {
                    // an element was due, or more of it
                    let inside = p > 0 && !matches!(b.0[p as usize - 1], OpenStartTag { .. } | Attribute { .. });
                    sx::check(matches!(e, E::UnexpectedEof) || (matches!(e, E::ExpectedStartTag) && (p == 0 || inside)), 441);
                    sx::cover(1);
                }
                None => sx::fail(440),
            }
            return;
        }
        1 => {
            let mut p = sx::choose(n) as usize;
            while !matches!(b.0[p], EndTag { .. }) {
                p += 1;
                if p >= b.0.len() {
                    return;
                }
            }
            let new = match sx::choose(3) {
                0 => letter(),
                1 => letter() + "b",
                _ => chars(2),
            };
            let old = match &b.0[p] {
                EndTag { name } => name.to_string(),
                _ => return,
            };
            sx::assume(!same(&old, &new));
            b.0[p] = EndTag { name: new.clone().into() };
            note!("events: {:?}", b.0);
            let e = read_error(k, &b);
            match &e {
                Some(E::MismatchedCloseTag { expected, found }) => {
                    sx::check(same(expected, &old), 442);
                    sx::check(same(found, &new), 443);
                    sx::cover(2);
                }
                _ => sx::fail(444),
            }
            e
        }
        _ => {
            let mut p = sx::choose(n) as usize;
            while p > 0 && (matches!(b.0[p - 1], OpenStartTag { .. }) || matches!(b.0[p - 1], Attribute { .. })) {
                p += 1;
            }
            if b.1.contains(&p) || ((k == 22 || k == 23) && p % 4 == 0) {
                return;
            }
            let mut x = B::new();
            let kind = sx::choose(6);
            match kind {
                5 => {
                    let t = chars(1);
                    x.0.push(MarkedSection { status_keywords: "CDATA".into(), section: t.into() })
                }
                1 => {
                    let t = chars(1);
                    x.0.push(ProcessingInstruction(t.into()))
                }
                t => bad(&mut x, t),
            }
            let rest = b.0.split_off(p);
            let first = x.0[0].clone();
            b.0.extend(x.0);
            b.0.extend(rest);
            note!("events: {:?}", b.0);
            let e = read_error(k, &b);
            match &e {
                Some(E::Unsupported(event)) => {
                    sx::check(equal(event, &first), 445);
                    sx::cover(3);
                }
                // an empty tag may also show as the mismatch it causes
                Some(E::MismatchedCloseTag { expected, found }) => sx::check((expected.is_empty() || found.is_empty()) && !same(expected, found), 445),
                Some(E::ExpectedStartTag) => sx::check(matches!(first, OpenStartTag { .. }), 445),
                _ => sx::fail(445),
            }
            e
        }
    };
    // the message says so, too
    if let Some(e) = e {
        let s = e.to_string();
        let says = |t: &str| sx::check(s.contains(t), 449);
        match &e {
            E::MismatchedCloseTag { expected, found } => {
                says(expected);
                says(found);
            }
            E::Unsupported(event) => says(&event.to_string()),
            _ => {}
        }
    }
}
#[derive(D, Debug)]
struct Num<T> {
    #[allow(dead_code)]
    a: Option<String>,
    f: T,
}
fn number<T: serde::de::DeserializeOwned + std::str::FromStr + std::fmt::Debug>(n: u32, ok: fn(&E, T::Err) -> bool) {
    let t = upto(n);
    let mut b = B::new();
    b.open("r");
    b.attr("a", "b");
    if sx::choose(2) == 0 {
        b.attr("f", &t);
        b.close();
    } else {
        b.close();
        b.elt("f", &t);
    }
    b.end("r");
    let r = b.read::<Num<T>>();
    note!("text {:?}: {:?}", t, r);
    match (r, t.parse::<T>()) {
        (Ok(_), Ok(_)) => sx::cover(4),
        (Err(e), Err(x)) => {
            sx::check(ok(&e, x), 451);
            sx::cover(5);
        }
        _ => sx::fail(450),
    }
}
fn int(e: &E, x: ParseIntError) -> bool {
    matches!(e, E::ParseIntError { source } if *source == x)
}
fn float(e: &E, x: ParseFloatError) -> bool {
    matches!(e, E::ParseFloatError { source } if *source == x)
}
#[no_mangle]
pub extern "C" fn h_number_error(kind: u32, n: u32, _: u32, _: u32) {
    match kind {
        0 => number::<u8>(n, int),
        1 => number::<i8>(n, int),
        2 => number::<i64>(n, int),
        _ => number::<f32>(n, float),
    }
}
pub fn jobs(prop: u32, thorough: bool) {
    if prop != 41 {
        return;
    }
    for (k, s) in SHAPES.iter().enumerate() {
        for (i, d) in ["truncated", "end tag renamed", "unsupported item"].iter().enumerate() {
            sx::job("h_blame", [k as u32, i as u32, 0, 0], &format!("{}: {}", s.0, d));
        }
    }
    for (i, name) in ["u8", "i8", "i64", "f32"].iter().enumerate() {
        let n = if i < 3 { 3 + thorough as u32 } else { 1 };
        sx::job("h_number_error", [i as u32, n, 0, 0], &format!("{} from up to {} characters", name, n));
    }
}
