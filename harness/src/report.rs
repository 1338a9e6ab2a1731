//! P02: the description of parse errors.
use crate::{cfg, sx, tpl};
use sgmlish::parser::ContextualizedError;
use sgmlish::Error;

use cfg::*;
const TH: u32 = 1000;
pub struct T(u32, &'static [u8], &'static [u32]);
const D: &[u32] = &[0];
const DE: &[u32] = &[0, EXPAND | ENT | PENT];

pub const REPORTS: &[T] = &[
    T(2, b"\x01\x01\x01\x01", DE),
    T(2, b"\x02\x02\x01", DE),
    T(2, b"<a>\x03\x03\x02</\x02\x01", D),
    T(2, b"a\n\x02\n<\x02\x02", D),
    T(2, b"x\x01\x01<a \x01=\x01\x01", D),
    T(2, b"<a>\n\x0f\x03\x06<b c='\x01\x01", D),
    T(2, b"<a>\x10\n\x10\r\x10\n\x10\r</a\x01 \x03\x10\n", D),
    T(2, b"<a>\r\n\x0f\x0f&\x01\x01; x\r\n</a>\n", &[ENT]),
    T(2, b"<a>\n\n<b c='\n\x0f&\x02;\n'>\n", &[ENT]),
    T(2, b"<a>\x0f<![\x01\x01[x\x01]]>\n", &[0, EXPAND, KEEP]),
    T(2, b"<a>\xc3\xa9\n\x06<![INCLUDE[\x01\n\xc3\x89<b \x01=\x01]]>\n", &[EXPAND, KEEP]),
    T(2, b"<a>\x01<![ x%\x01\x01; [\n]]>", &[PENT, EXPAND | PENT]),
    T(2, b"<!d \x01\x01[<!e \x06\n", D),
    T(2, b"<!--\x01\n\x01--\x01", D),
    T(2, b"<?\x02\n\x02", D),
    // long lines: the failing position on both sides of the column where shortening starts
    T(2, b"\x14x<a =>", D),
    T(2, b"\x14\x0f<a =>\x14y", D),
    T(2, b"\x15x<a =>\x11y\x11z", D),
    T(2, b"\x15\x0f<a =>", D),
    T(2, b"x\n\x15x<a =>y\x14z\r\n\x11w", D),
    T(2, b"<a>\x15y", &[EXPAND]),
    T(2, b"<a b='\x15\x0f\n\x14y", D),
    T(2, b"\x14x&no;\x11y\x02\x11z", D),
    T(2, b"<a =\x15y", D),
    T(2, b"\x01<a =\x15\x0f\x01", D),
    T(2, b"\x11x\x11y<\x01\x01=\x01>\x11z\x11z", D),
    T(2, b"\x11\x0f\x11\x0f\x03\x0f<\x01\x01=\x01>\x11z\x0f\x11\x0f", D),
    T(2, b"\x11x\x14y\n<![CDATA[\x11x\x02", &[EXPAND]),
    T(TH + 2, b"\x01\x01\x01\x01\x01\x01", DE),
    T(TH + 2, b"\x02\x02\x02\x02", DE),
    T(TH + 2, b"\x15x<a =>\x15y", D),
    T(TH + 2, b"\x15\x0f<a =>\x15\x0f", D),
    T(TH + 2, b"\x15x<![INCLUDE[\x15\x0f<a \x01\x01", &[EXPAND]),
    T(TH + 2, b"\x01\x15x\x01&u\x01\x15y\x01", D),
];

/// line number (from 1), line, column in characters (from 0)
fn locate(s: &str, off: usize) -> (usize, &str, usize) {
    let b = s.as_bytes();
    let (mut line, mut start) = (1, 0);
    for i in 0..off {
        if b[i] == b'\n' {
            line += 1;
            start = i + 1;
        }
    }
    let mut end = start;
    while end < b.len() && b[end] != b'\n' {
        end += 1
    }
    // a line is ended by LF or CR LF
    if end < b.len() && end > start && b[end - 1] == b'\r' {
        end -= 1
    }
    let mut col = 0;
    for i in start..off {
        if b[i] & 0xc0 != 0x80 {
            col += 1
        }
    }
    (line, &s[start..end], col)
}
fn chars(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let mut j = i + 1;
        while j < b.len() && b[j] & 0xc0 == 0x80 {
            j += 1
        }
        v.push(&s[i..j]);
        i = j;
    }
    v
}
/// The number after "line ".
fn number(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut i = 0;
    while i + 5 < b.len() {
        if &b[i..i + 5] == b"line " && tpl::is_digit(b[i + 5]) {
            let mut n = 0;
            let mut j = i + 5;
            while j < b.len() && tpl::is_digit(b[j]) {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1
            }
            return Some(n);
        }
        i += 1;
    }
    None
}
fn contains(s: &str, t: &str) -> bool {
    let (s, t) = (s.as_bytes(), t.as_bytes());
    s.windows(t.len()).any(|w| w == t)
}
/// Checks the displayed line and the caret below it.
fn display(shown: &str, caret: &str, line: &str, col: usize) {
    let (d, l) = (chars(shown), chars(line));
    let k = caret.len().wrapping_sub(1);
    sx::check(caret.len() > 0 && caret.as_bytes()[k] == b'^', 43);
    sx::check(caret.as_bytes()[..k].iter().all(|c| *c == b' '), 43);
    sx::check(k <= col, 44);
    let skip = col - k; // display position i shows line position i + skip
    sx::check(d.len() <= 80, 45);
    sx::check(skip == 0 || (d.len() >= 3 && d[..3].concat() == "..."), 46);
    let cut = d.len() + skip < l.len();
    sx::check(!cut || (d.len() >= 3 && d[d.len() - 3..].concat() == "..."), 47);
    let from = if skip > 0 { 3 } else { 0 };
    let to = if cut { d.len() - 3 } else { d.len() };
    sx::check(cut || d.len() + skip == l.len(), 48);
    sx::check(from <= to, 48);
    for i in from..to {
        sx::check(d[i] == l[i + skip], 49);
    }
    // nothing is shortened away near the failing position, or when the line is short
    let (a, b) = (col.saturating_sub(20), (col + 20).min(l.len()));
    sx::check(a >= b || (a >= skip + if skip > 0 { 3 } else { 0 } && b <= skip + to), 50);
    sx::check(l.len() > 80 || col >= 40 || (skip == 0 && !cut), 51);
    if skip > 0 {
        sx::cover(42)
    }
    if cut {
        sx::cover(43)
    }
}

#[no_mangle]
pub extern "C" fn h_report(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(REPORTS[t as usize].1);
    let e = match cfg::parser(c).parse_with_detailed_errors::<ContextualizedError<&str>>(&s) {
        Ok(_) => {
            sx::cover(1);
            return;
        }
        Err(e) => e,
    };
    let at = |p: &str| (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    let off = at(e.input);
    sx::check(off <= s.len() && s.is_char_boundary(off), 40);
    let m = match cfg::parser(c).parse(&s) {
        Err(Error::ParseError(m)) => m,
        _ => sx::fail(41),
    };
    note!("parsing {:?} ({}) fails at byte {}; report:\n{}", s, cfg::show(c), off, m);
    sx::cover(41);
    sx::observe(m.len() as u64);
    if s.is_empty() {
        return;
    }
    let lines: Vec<&str> = m.split('\n').collect();
    // the message of the error may span lines
    let h = 1 + e.error.as_ref().map_or(0, |e| e.to_string().bytes().filter(|c| *c == b'\n').count());
    sx::check(lines.len() >= h + 2, 42);
    let (n, l, col) = locate(&s, off);
    sx::check(number(lines[0]) == Some(n), 42);
    display(lines[h], lines[h + 1], l, col);
    // what was expected and what was found
    if let Some(c) = e.char {
        if e.error.is_none() {
            sx::check(contains(lines[0], &["'", &c.to_string(), "'"].concat()), 53);
            let b = s.as_bytes();
            let end = contains(lines[0], "end of input");
            sx::check(end == (off == b.len()), 54);
            if off < b.len() && b[off] > b' ' && b[off] < 127 && b[off] != b'\'' && b[off] != b'"' && b[off] != b'\\' {
                sx::check(lines[0].as_bytes().ends_with(&[b'\'', b[off], b'\'']), 54);
                sx::cover(45);
            }
            if off < b.len() && (b[off] == b'\r' || b[off] == b'\n') {
                sx::check(contains(lines[0], "line") && lines[0].as_bytes().ends_with(b"line"), 54);
            }
            if off < b.len() && (b[off] == b' ' || b[off] == b'\t') {
                sx::check(lines[0].as_bytes().ends_with(b"space"), 54);
            }
        }
    }
    // the innermost construct, when it fails right at its start
    if let Some((p, name)) = e.context.first() {
        sx::check(at(p) != off || contains(lines[0], name), 55);
    }
    let mut k = h + 2;
    let mut last = off;
    for (p, name) in &e.context {
        let p = at(p);
        sx::check(p <= s.len() && s.is_char_boundary(p), 40);
        if p == last {
            continue;
        }
        sx::check(lines.len() >= k + 3, 52);
        let (n, l, col) = locate(&s, p);
        sx::check(number(lines[k]) == Some(n), 52);
        sx::check(contains(lines[k], name), 55);
        sx::check(contains(lines[k], "same line") == (n == locate(&s, last).0), 56);
        last = p;
        display(lines[k + 1], lines[k + 2], l, col);
        k += 3;
        sx::cover(44);
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    for (i, t) in REPORTS.iter().enumerate() {
        if t.0 == prop || (thorough && t.0 == TH + prop) {
            for c in t.2 {
                sx::job("h_report", [i as u32, *c, 0, 0], &format!("{} {}", cfg::show(*c), tpl::show(t.1)));
            }
        }
    }
}
