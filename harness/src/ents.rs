//! P06-P08: the expansion functions, called directly.
use crate::refm::{self, Undefined};
use crate::{cfg, sx, tpl};
use sgmlish::entities::{expand_characters, expand_entities, expand_parameter_entities, EntityError};
use std::borrow::Cow;

const TH: u32 = 1000;
/// which function
const GENERAL: u32 = 0;
const CHARS: u32 = 1;
const PARAM: u32 = 2;
/// the closure: a table; constant; none; gives the reference back; the answer depends on the call
const TABLE: u32 = 0;
const CONST: u32 = 1;
const NONE: u32 = 2;
const ECHO: u32 = 3;
const ANY: u32 = 4;

pub struct T(u32, &'static [u8], &'static [(u32, u32)]);
const GT: &[(u32, u32)] = &[(GENERAL, TABLE)];
const GE: &[(u32, u32)] = &[(GENERAL, ECHO)];
const GA: &[(u32, u32)] = &[(GENERAL, ANY)];
const G: &[(u32, u32)] = &[(GENERAL, TABLE), (GENERAL, ECHO), (GENERAL, CONST)];
const GCN: &[(u32, u32)] = &[(GENERAL, NONE), (CHARS, NONE)];
const P: &[(u32, u32)] = &[(PARAM, TABLE), (PARAM, ECHO)];
const PA: &[(u32, u32)] = &[(PARAM, ANY)];
const PN: &[(u32, u32)] = &[(PARAM, NONE)];
const PG: &[(u32, u32)] = &[(PARAM, ECHO), (GENERAL, ECHO)];

pub const ENTS: &[T] = &[
    T(6, b"\x01\x01\x01\x01", G),
    T(6, b"\x02\x02\x02", GE),
    T(6, b"&\x01\x01\x01\x01", G),
    T(6, b"&#\x01\x01\x01\x01", GE),
    T(6, b"&#x\x01\x01\x01\x01", GE),
    T(6, b"x&#\x08\x08\x08\x08\x01y", GE),
    T(6, b"&#\x08\x08\x08\x08\x08\x08\x08;", GT),
    T(6, b"&#x\x05\x05\x05\x05;", GT),
    T(6, b"&#x1\x05\x05\x05\x05\x05;", GT),
    T(6, b"&#11141\x08\x08;&#\x08\x08\x08\x08\x08;", GT),
    T(6, b"&#42949672\x08\x08;&#x1000000\x05\x05;", GE),
    T(6, b"&#18446744073709551\x08\x08\x08;", GE),
    T(6, b"&#0000000000\x08\x08\x01", GE),
    T(6, b"&#x0000000000\x05\x05\x01", GE),
    T(6, b"&\x02\x02;\x02", GE),
    T(6, b"\x0f&\x0f\x01;\x0f", GE),
    T(6, b"&\x05\x05;&\x05\x05&\x05;\x01", GE),
    T(6, b"&&\x01&&#\x01&;\x01", GE),
    T(6, b"a&lt\x01b&amp;\x01lt;c", GT),
    T(6, b"&b;\x01&b\x01%c;%\x01", G),
    T(6, b"no references at all \x01 but % and # and ; \x01", G),
    T(6, b"&a-long.name_with:everything1\x01\x01;", GE),
    T(6, b"&#SPACE;&#\x04\x05\x05;&#\x05", GE),
    T(6, b"\x15\x0f&\x01\x01;", GE),
    T(TH + 6, b"\x01\x01\x01\x01\x01\x01", GE),
    T(TH + 6, b"\x02\x02\x02\x02", GE),
    T(TH + 6, b"&#\x01\x01\x01\x01\x01\x01", GE),
    T(TH + 6, b"&#x\x01\x01\x01\x01\x01\x01", GE),
    T(7, b"\x01\x01\x01\x01", GCN),
    T(7, b"\x02\x02\x02", &[(GENERAL, NONE), (PARAM, NONE)]),
    T(7, b"\x0f\x06&\x05\x05\x01\x02", GCN),
    T(7, b"&\x01\x01&\x01\x01&\x01", GA),
    T(7, b"\x02&x;\x01&\x01;&y\x01", GA),
    T(7, b"&#x\x05\x05\x05\x05;", GCN),
    T(7, b"&#x1\x05\x05\x05\x05\x05;", GCN),
    T(7, b"&#\x08\x08\x08\x08\x08;", GCN),
    T(7, b"&#11141\x08\x08\x01\x01", GCN),
    T(7, b"&lt;x&#65;\x0f&\x04\x01\x01 &gone;", GT),
    T(7, b"&#99999999999999999999999\x01&#x\x01;", GCN),
    T(7, b"&#n\x05\x01\x01&#\x04\x01", GCN),
    T(7, b"%\x01\x01\x01\x01", PN),
    T(7, b"\x0f%#\x01\x01%\x01", PA),
    T(7, b"%c;%\x01\x01&x;", P),
    T(TH + 7, b"\x01\x01\x01\x01\x01\x01", GCN),
    T(TH + 7, b"&\x02\x02\x02&\x01", GA),
    T(8, b"\x01\x01\x01\x01", P),
    T(8, b"%\x01\x01\x01\x01", PG),
    T(8, b"%#\x01\x01\x01", P),
    T(8, b"\x02%\x02\x01%\x02", P),
    T(8, b"%#x\x01\x01%#\x08\x08;%%\x01;", P),
    T(8, b"&\x01\x01&#65;%c\x01&#\x01", P),
    T(8, b"%n;%\x01;%e;\x01%s", P),
    T(8, b"%\x01\x01%\x01\x01", PA),
    T(TH + 8, b"\x01\x01\x01\x01\x01\x01", P),
    T(TH + 8, b"\x02\x02\x02\x02", P),
];

fn answer(kind: u32, f: u32, name: &str, k: usize, script: &[bool]) -> Option<String> {
    match kind {
        TABLE if f == PARAM => cfg::pent(name).map(String::from),
        TABLE => cfg::ent(name).map(String::from),
        CONST => Some("[&x;%y;]".into()),
        NONE => None,
        ECHO => Some(["<&", name, ";&#65;%c;>"].concat()),
        _ => match script.get(k) {
            Some(true) => Some("&é;".into()),
            _ => None,
        },
    }
}

#[no_mangle]
pub extern "C" fn h_ents(t: u32, f: u32, kind: u32, _: u32) {
    let s = tpl::build(ENTS[t as usize].1);
    let script: Vec<bool> = if kind == ANY { (0..3).map(|_| sx::choose(2) == 1).collect() } else { vec![] };
    let mut calls: Vec<String> = vec![];
    let got: Result<Cow<str>, EntityError> = match f {
        GENERAL => expand_entities(&s, |n| {
            calls.push(n.to_string());
            answer(kind, f, n, calls.len() - 1, &script)
        }),
        CHARS => expand_characters(&s),
        _ => expand_parameter_entities(&s, |n| {
            calls.push(n.to_string());
            answer(kind, f, n, calls.len() - 1, &script)
        }),
    };
    let mut expected_calls: Vec<String> = vec![];
    let expected = refm::expand(s.as_bytes(), if f == PARAM { b'%' } else { b'&' }, |n| {
        expected_calls.push(n.to_string());
        answer(kind, f, n, expected_calls.len() - 1, &script)
    });
    note!(
        "{} in {:?} (closure {})\nexpected: {:?} calls {:?}\ngot:      {:?} calls {:?}",
        ["general entities", "character references", "parameter entities"][f as usize],
        s,
        ["table", "constant", "none", "echo", "scripted"][kind as usize],
        expected.as_ref().map(|v| String::from_utf8_lossy(v).into_owned()).map_err(|e| (e.name.clone(), e.start, e.end)),
        expected_calls,
        got,
        calls
    );
    if f != CHARS {
        sx::check(calls == expected_calls, 31);
    }
    match (got, expected) {
        (Ok(g), Ok(e)) => {
            sx::cover(31);
            sx::check(g.as_bytes() == &e[..], 32);
            sx::observe(g.len() as u64);
        }
        (Err(g), Err(Undefined { name, start, end })) => {
            sx::cover(32);
            sx::check(g.entity == name, 33);
            sx::check(g.position.start == start && g.position.end == end, 34);
            sx::observe(start as u64);
        }
        (Ok(_), Err(_)) => sx::fail(35),
        (Err(_), Ok(_)) => sx::fail(36),
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    for (i, t) in ENTS.iter().enumerate() {
        if t.0 == prop || (thorough && t.0 == TH + prop) {
            for (f, k) in t.2 {
                let l = format!("{} {} {}", ["general", "chars", "param"][*f as usize], ["table", "constant", "none", "echo", "any"][*k as usize], tpl::show(t.1));
                sx::job("h_ents", [i as u32, *f, *k, 0], &l);
            }
        }
    }
}
