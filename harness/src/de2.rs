//! P23-P28, P30-P32: what deserialization reads.
use crate::de::*;
use crate::{cfg, refm, sx, tpl};
use serde::de::DeserializeOwned;
use serde::Deserialize as D;
use sgmlish::transforms::normalize_end_tags;
use sgmlish::SgmlEvent::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// A field between two others.
#[derive(D, Debug, PartialEq)]
struct Mid<T> {
    p: Option<String>,
    f: T,
    q: Option<String>,
}
type Res<T> = Result<T, sgmlish::de::DeserializationError>;

fn texts() -> String {
    // what a value may hold: short text, text beyond ASCII, longer text
    match sx::choose(3) {
        0 => upto(2),
        1 => chars(1) + tpl::NON_ASCII[sx::choose(13) as usize],
        _ => "some longer text ".to_string() + &chars(1),
    }
}

// ---- P23
fn attr_elem<T: DeserializeOwned + Debug + PartialEq>(v: String, around: bool) {
    let (mut a, mut e) = (B::new(), B::new());
    a.open("e");
    e.open("e");
    if around {
        a.attr("p", "1");
        e.attr("p", "1");
    }
    a.attr("f", &v);
    a.close();
    e.close();
    e.text("");
    e.elt("f", &v);
    for b in [&mut a, &mut e] {
        if around {
            b.elt("q", "2");
        }
        b.end("e");
    }
    let owned = sx::choose(2) == 0;
    let (x, y): (Res<Mid<T>>, Res<Mid<T>>) = (a.read_as(owned), e.read_as(owned));
    note!("value {:?}\nattribute: {:?}\nelement: {:?}", v, x, y);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            sx::check(x == y, 231);
            sx::cover(1);
        }
        (Err(_), Err(_)) => sx::cover(2),
        _ => sx::fail(232),
    }
}
/// kind: type, form: 0 short texts, 1 texts of a number, 2 with neighbours
#[no_mangle]
pub extern "C" fn h_attr_elem(kind: u32, form: u32, n: u32, _: u32) {
    let v = match form {
        0 => chars(n),
        1 => texts(),
        _ => {
            let mut s = String::from(["-", "+", "", "0"][sx::choose(4) as usize]);
            s.push_str(&chars(n));
            s
        }
    };
    let around = form == 1;
    let flag = v.is_empty() || v.eq_ignore_ascii_case("f");
    match kind {
        0 => attr_elem::<String>(v, around),
        1 => attr_elem::<Option<String>>(v, around),
        2 | 3 => {
            if flag {
                sx::cover(1);
                sx::cover(2);
                return;
            }
            if kind == 2 {
                attr_elem::<bool>(v, around)
            } else {
                attr_elem::<Option<bool>>(v, around)
            }
        }
        4 => attr_elem::<u8>(v, around),
        5 => attr_elem::<i8>(v, around),
        6 => attr_elem::<i64>(v, around),
        7 => attr_elem::<u32>(v, around),
        8 => attr_elem::<Option<i16>>(v, around),
        9 => attr_elem::<char>(v, around),
        10 => attr_elem::<Flat>(v, around),
        11 => attr_elem::<Newt>(v, around),
        12 => attr_elem::<Option<Flat>>(v, around),
        _ => attr_elem::<Box<str>>(v, around),
    }
}

// ---- P25
#[derive(D, Debug)]
struct Flags {
    flag: bool,
    q: Option<String>,
}
fn lower_is(v: &str, want: &str) -> bool {
    let mut d = v.len() != want.len();
    for (a, b) in v.bytes().zip(want.bytes()) {
        let l = a | if a.wrapping_sub(b'A') < 26 { 32 } else { 0 };
        d |= l != b;
    }
    !d
}
fn spelled(v: &str) -> Option<bool> {
    if v == "1" || lower_is(v, "true") {
        Some(true)
    } else if v == "0" || lower_is(v, "false") {
        Some(false)
    } else {
        None
    }
}
fn judge_bool(got: Option<bool>, want: Option<bool>) {
    note!("read: {:?}, expected {:?}", got, want);
    sx::check(got == want, 251);
    sx::cover(match want {
        Some(true) => 1,
        Some(false) => 2,
        None => 3,
    });
}
const BOOLS: &[&[u8]] = &[
    b"\x01\x01\x01\x01", b"\x01\x01\x01\x01\x01", b"\x01", b"", b"\x01\x01", b"\x01\x01\x01", b"\x07t\x07r\x01\x07e\x01", b"\x07f\x07a\x07l\x07s\x07e\x01", b" \x01", b"\x011", b"\x02rue",
    b"fal\x02e", b"\x0f", b"tru\x0f", b"\x07f\x07l\x07a\x07g\x06", b"o\x01", b"yes\x06",
];
#[no_mangle]
pub extern "C" fn h_bool(form: u32, t: u32, _: u32, _: u32) {
    let v = tpl::build(BOOLS[t as usize]);
    let mut b = B::new();
    b.open("r");
    note!("value {:?}", v);
    match form {
        0 => {
            b.attr("flag", &v);
            b.attr("q", "1");
            b.close();
            b.end("r");
            let want = if v.is_empty() || lower_is(&v, "flag") { Some(true) } else { spelled(&v) };
            let r: Res<Flags> = b.read();
            if let Ok(r) = &r {
                sx::check(r.q.as_deref() == Some("1"), 252);
            }
            judge_bool(r.ok().map(|r| r.flag), want);
        }
        1 => {
            b.close();
            b.elt("flag", &v);
            b.elt("q", "1");
            b.end("r");
            let r: Res<Flags> = b.read();
            if let Ok(r) = &r {
                sx::check(r.q.as_deref() == Some("1"), 252);
            }
            judge_bool(r.ok().map(|r| r.flag), spelled(&v));
        }
        2 => {
            // in two pieces, one of them in a nested element
            b.close();
            b.start("flag");
            let cut = sx::choose(v.len() as u32 + 1) as usize;
            if !v.is_char_boundary(cut) {
                return;
            }
            b.borrowed(&v[..cut]);
            if sx::choose(2) == 0 {
                b.open("b");
                b.attr("c", "1");
                b.close();
                b.borrowed(&v[cut..]);
                b.end("b");
            } else {
                b.text(&v[cut..]);
            }
            b.end("flag");
            b.end("r");
            judge_bool(b.read::<Flags>().ok().map(|r| r.flag), spelled(&v));
        }
        3 => {
            // of any name
            let name = letter() + if sx::choose(2) == 0 { "" } else { "n" };
            b.attr(&name, &v);
            b.close();
            b.end("r");
            let own = v.len() == name.len() && v.bytes().zip(name.bytes()).all(|(x, y)| (x == y) | ((x | 32 == y | 32) & tpl::is_letter(x)));
            let want = if v.is_empty() || own { Some(true) } else { spelled(&v) };
            let r: Res<BTreeMap<String, bool>> = b.read();
            judge_bool(r.ok().map(|r| r[&name]), want);
        }
        4 => {
            // in a sequence
            b.close();
            b.elt("f", "0");
            b.elt("f", &v);
            b.elt("f", "1");
            b.end("r");
            let r: Res<F<Vec<bool>>> = b.read();
            judge_bool(
                r.ok().map(|r| {
                    sx::check(r.f.len() == 3 && !r.f[0] && r.f[2], 252);
                    r.f[1]
                }),
                spelled(&v),
            );
        }
        5 => {
            // the element's own text, the attribute being named alike
            b.attr("a", &v);
            b.close();
            b.text(&v);
            b.end("r");
            judge_bool(b.read::<Val<bool>>().ok().map(|r| r.v), spelled(&v));
        }
        6 => {
            b.close();
            b.elt("f", &v);
            b.end("r");
            judge_bool(b.read::<F<Option<bool>>>().ok().map(|r| r.f == Some(true)), spelled(&v));
        }
        _ => {
            // an attribute without value; missing altogether
            let name = ["flag", "Flag"][sx::choose(2) as usize];
            b.flag(name);
            if sx::choose(2) == 0 {
                b.attr("q", "flag");
            }
            b.close();
            b.end("r");
            sx::cover(2);
            sx::cover(3);
            judge_bool(b.read::<Flags>().ok().map(|r| r.flag), if name == "flag" { Some(true) } else { None });
        }
    }
}

// ---- P26
/// (width in bits, signed, template)
const INTS: &[&[u8]] = &[
    b"\x01", b"\x01\x01", b"\x01\x01\x01", b"\x01\x01\x01\x01", b"", b"+\x01\x01", b"-\x01\x01", b"1\x08\x08\x01", b"-1\x08\x08\x01", b"\x10012\x08\x01", b"-\x10012\x08\x01",
    b"0x\x01", b"\x08\x08\x08 ", b" \x08", b"1\x0f", b"\x08.\x08", b"\x08e\x08", b"1_00\x01", b"25\x08\x01", b"-12\x08\x01", b"++\x01", b"-+\x01", b"+-\x01",
    // 16 bits
    b"3276\x08\x06", b"-3276\x08\x06", b"6553\x08\x06", b"+6553\x08", b"\x08\x08\x08\x08\x08", b"-\x08\x08\x08\x08\x08",
    // 32 bits
    b"214748364\x08\x06", b"-214748364\x08\x06", b"429496729\x08\x06", b"4294967\x08\x08\x08", b"000000000429496729\x08",
    // 64 bits
    b"922337203685477580\x08\x06", b"-922337203685477580\x08\x06", b"1844674407370955161\x08\x06", b"\x081844674407370955161\x08", b"+922337203685477580\x08", b"-000922337203685477580\x08",
    b"18446744073709551\x08\x08\x08", b"-92233720368547758\x08\x08",
];
/// The value spelled by the text: Some(negative, magnitude)
fn number(v: &str) -> Option<(bool, u128)> {
    let b = v.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || !d.iter().all(|c| tpl::is_digit(*c)) {
        return None;
    }
    let mut x: u128 = 0;
    for c in d {
        x = x * 10 + (c - b'0') as u128;
    }
    Some((neg, x))
}
/// A field read from the text in one of the forms that carry a single value.
fn scalar<T: DeserializeOwned + Debug>(v: &str, form: u32) -> (Option<T>, B) {
    let mut b = B::new();
    b.open("r");
    let got: Option<T> = match form {
        0 => {
            b.attr("f", v);
            b.close();
            b.end("r");
            b.read::<F<T>>().ok().map(|f| f.f)
        }
        1 => {
            b.close();
            b.elt("f", v);
            b.end("r");
            b.read::<F<T>>().ok().map(|f| f.f)
        }
        2 => {
            b.close();
            b.start("f");
            b.text(v);
            b.text("");
            b.end("f");
            b.end("r");
            b.read::<F<(T,)>>().ok().map(|f| f.f.0)
        }
        3 => {
            b.close();
            b.elt("f", "1");
            b.elt("f", v);
            b.end("r");
            b.read::<F<Vec<Option<T>>>>().ok().and_then(|mut f| f.f.pop()).flatten()
        }
        4 => {
            b.attr("a", "7");
            b.close();
            b.text(v);
            b.end("r");
            b.read::<Val<T>>().ok().map(|f| f.v)
        }
        _ => {
            b.attr("k", v);
            b.close();
            b.end("r");
            b.read::<BTreeMap<String, T>>().ok().and_then(|mut f| f.remove("k"))
        }
    };
    (got, b)
}
fn check_int<T: DeserializeOwned + Debug>(v: &str, form: u32, bits: u32, signed: bool, split: fn(&T) -> (bool, u128)) {
    let (got, b) = scalar::<T>(v, form);
    let want = number(v);
    note!("value {:?} as {}{}: {:?}, events {:?}", v, if signed { 'i' } else { 'u' }, bits, got, b.0);
    let limit: u128 = if signed { 1 << (bits - 1) } else { 1 << bits };
    match (&got, want) {
        (Some(g), Some((neg, m))) => {
            let (gn, gm) = split(g);
            sx::check(gm == m && (gn == neg || m == 0), 261);
            sx::cover(1);
        }
        (Some(_), None) => sx::fail(262),
        (None, Some((neg, m))) => {
            let fits = if neg { m <= if signed { limit } else { 0 } } else { m < limit };
            // the sign of an unsigned zero may be rejected
            sx::check(!fits || (neg && !signed), 263);
            sx::cover(2);
        }
        (None, None) => sx::cover(3),
    }
}
#[no_mangle]
pub extern "C" fn h_int(ty: u32, form: u32, t: u32, _: u32) {
    let v = tpl::build(INTS[t as usize]);
    macro_rules! s {
        ($t:ty, $b:expr) => {
            check_int::<$t>(&v, form, $b, true, |x| (*x < 0, (*x as i128).unsigned_abs()))
        };
    }
    macro_rules! u {
        ($t:ty, $b:expr) => {
            check_int::<$t>(&v, form, $b, false, |x| (false, *x as u128))
        };
    }
    match ty {
        0 => s!(i8, 8),
        1 => u!(u8, 8),
        2 => s!(i16, 16),
        3 => u!(u16, 16),
        4 => s!(i32, 32),
        5 => u!(u32, 32),
        6 => s!(i64, 64),
        _ => u!(u64, 64),
    }
}

// ---- P33
const FLOATS: &[&[u8]] = &[
    b"\x01", b"\x01\x01", b"\x08.\x08", b"-\x08.\x08", b"\x08e\x08", b"\x08E-\x08", b"\x08\x08\x08", b".\x08\x08", b"\x08.", b"+\x08.5e+\x08", b"1\x01\x08", b"\x08\x01\x08",
    b"-\x08.\x08e-1\x08", b"0.00\x08\x08", b"00\x08.\x080", b"1e\x01\x08", b"1.\x01e1", b"0x\x08", b" \x08", b"\x08 ", b"1,\x08", b"1_\x08", b"\x08\x0f", b"", b"-", b".", b"-.", b"e\x08", b".e\x08",
    b"\x08.\x08.\x08", b"\x01\x08.\x08", b"167772\x08\x08", b"90071992547409\x08\x08", b"12345678901234\x08.\x08", b"\x08e2\x08", b"\x08e-2\x08", b"--\x08", b"+-\x08", b"-1.5\x01",
    b"1.0000001788139343\x08", b"1677721\x08.5", b"900719925474099\x08.5", b"3.4028235677973366e3\x08", b"1.7976931348623157e30\x08", b"\x08e-45", b"\x08e-324", b"100000000000000001\x08", b"-0.\x08",
];
/// The number spelled by the text, if it is one: negative, digits, power of ten.
fn decimal(v: &str) -> Option<(bool, u64, u32, i32)> {
    let b = v.as_bytes();
    let (neg, b) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    let mut m: u64 = 0;
    let mut e: i32 = 0;
    let mut digits = 0u32;
    let mut point = false;
    let mut i = 0;
    while i < b.len() {
        if tpl::is_digit(b[i]) {
            m = m * 10 + (b[i] - b'0') as u64;
            digits += 1;
            if point {
                e -= 1;
            }
        } else if b[i] == b'.' && !point {
            point = true;
        } else {
            break;
        }
        i += 1;
    }
    if digits == 0 {
        return None;
    }
    if i < b.len() {
        if b[i] | 32 != b'e' {
            return None;
        }
        let (n, x) = number(&v[v.len() - (b.len() - i - 1)..])?;
        e += if n { -(x as i32) } else { x as i32 };
    }
    Some((neg, m, digits, e))
}
/// Whether the digits m with power of ten e round (ties to even) to at least and to at most mant 2^q; `closer` when the
/// neighbour below is half as far as the one above. None: out of reach of 128-bit arithmetic.
fn nearest(m: u64, digits: u32, e: i32, mant: u64, q: i32, closer: bool) -> Option<(bool, bool)> {
    // compare 4 m 10^e with (4 mant +- 2 or 1) 2^q; the numbers of bits bound both sides
    let k = e.unsigned_abs();
    if e > 26 || e < -17 || e < -2 && digits < 9 || digits > 19 {
        return None;
    }
    let mut p = 1u128;
    for _ in 0..k {
        p *= 5;
    }
    let pb = 128 - p.leading_zeros() as i32;
    let (mut l, mut lb) = (m as u128, digits as i32 * 10 / 3 + 1);
    let (mut hi, mut rb) = (4 * mant as u128 + 2, 56);
    let mut lo = if mant == 0 { 0 } else { 4 * mant as u128 - if closer { 1 } else { 2 } };
    if e > 0 {
        lb += pb;
    } else {
        rb += pb;
    }
    let d = 2 + e - q;
    if d >= 0 {
        lb += d;
    } else {
        rb -= d;
    }
    if lb > 127 || rb > 127 {
        return None;
    }
    if e > 0 {
        l = l.wrapping_mul(p);
    } else {
        hi = hi.wrapping_mul(p);
        lo = lo.wrapping_mul(p);
    }
    if d >= 0 {
        l <<= d;
    } else {
        hi <<= -d;
        lo <<= -d;
    }
    let even = mant & 1 == 0;
    Some((l > lo || l == lo && even, l < hi || l == hi && even))
}
/// Exact when the digits and the power of ten are exactly representable: then the one operation rounds once.
macro_rules! float {
    ($t:ty, $w:expr, $pow:expr, $digits:expr, $v:expr, $form:expr) => {{
        let (got, b) = scalar::<$t>($v, $form);
        let want = decimal($v);
        note!("value {:?}: {:?}, events {:?}", $v, got, b.0);
        match (got, want) {
            (Some(g), Some((neg, m, digits, e))) => {
                let k = e.unsigned_abs();
                if k <= $pow && m <= 1 << $digits {
                    let mut p: $t = 1.0;
                    for _ in 0..k {
                        p *= 10.0;
                    }
                    let x = if e < 0 { m as $t / p } else { m as $t * p };
                    let x = if neg { -x } else { x };
                    sx::check(x.to_bits() == g.to_bits(), 331);
                    sx::cover(1);
                } else {
                    let bits = g.to_bits() as u64;
                    let w = <$t>::MANTISSA_DIGITS - 1;
                    let field = bits >> w & (1 << ($w - 1 - w)) - 1;
                    let frac = bits & (1 << w) - 1;
                    let (mant, exp) = if field == 0 { (frac, 1) } else { (frac | 1 << w, field) };
                    let q = exp as i32 - (1 << ($w - 2 - w)) - w as i32 + 1;
                    if let Some(ok) = nearest(m, digits, e, mant, q, frac == 0 && field > 1 && g.is_finite()) {
                        let ok = ok.0 && (ok.1 || g.is_infinite());
                        sx::check(ok && !g.is_nan() && g.is_sign_negative() == neg, 334);
                        sx::cover(2);
                    }
                }
            }
            // words for infinities and NaN may be accepted
            (Some(g), None) => sx::check(!g.is_finite() && !$v.bytes().any(|c| tpl::is_digit(c)), 332),
            (None, Some(_)) => sx::fail(333),
            (None, None) => sx::cover(3),
        }
    }};
}
#[no_mangle]
pub extern "C" fn h_float(ty: u32, form: u32, t: u32, _: u32) {
    let v = tpl::build(FLOATS[t as usize]);
    if ty == 0 {
        float!(f64, 64, 22, 53, &v, form)
    } else {
        float!(f32, 32, 10, 24, &v, form)
    }
}

// ---- P24
#[derive(D, Debug, PartialEq)]
struct Lists<T> {
    p: Option<String>,
    s: T,
    q: Option<String>,
}
#[derive(D, Debug, PartialEq)]
struct Sub {
    #[serde(default)]
    s: Vec<String>,
    p: Option<String>,
}
#[derive(D, Debug, PartialEq)]
struct Opt<T: Default> {
    p: Option<String>,
    #[serde(default)]
    s: T,
    q: Option<String>,
}
/// The texts of the items of the sequence; None: to be rejected.
struct Seen {
    p: Option<String>,
    q: Option<String>,
    s: Vec<(u32, String)>,
    run: u32,
    reject: bool,
    /// text between items: may end a series
    blurred: bool,
}
/// An item of the sequence: kind 0 text, 1 struct with child elements, 2 enum as child tag
fn item(b: &mut B, kind: u32, n: &str) -> String {
    match kind {
        0 => {
            let t = chars(1);
            b.elt(n, &t);
            t
        }
        _ => {
            // <n><s>..</s>*<p>..</p></n>, or just attribute p; described as s-texts, '|', p-text
            let mut d = String::new();
            b.open(n);
            let t = chars(1);
            let attr = sx::choose(2) == 1;
            if attr {
                b.attr("p", &t);
            }
            b.close();
            for _ in 0..sx::choose(3) {
                let t = chars(1);
                b.elt("s", &t);
                d.push_str(&t);
            }
            if !attr {
                b.elt("p", &t);
            }
            b.end(n);
            d.push('|');
            d.push_str(&t);
            d
        }
    }
}
fn list(b: &mut B, n: u32, kind: u32, sep: u32) -> Seen {
    let mut e = Seen { p: None, q: None, s: vec![], run: 0, reject: false, blurred: false };
    let mut last = 0;
    b.open("r");
    if sep == 1 && sx::choose(2) == 1 {
        let t = chars(1);
        b.attr("p", &t);
        e.p = Some(t);
    }
    b.close();
    for _ in 0..n {
        match sx::choose(if sep != 0 { 4 } else { 2 }) {
            0 => break,
            1 => {
                let name = letter();
                let c = name.as_bytes()[0];
                if c == b's' {
                    let t = item(b, kind, "s");
                    if e.run == 0 {
                        e.run = 1
                    } else if last != b's' {
                        e.run += 1;
                        e.reject = true
                    }
                    e.s.push((e.run, t));
                } else {
                    let t = chars(1);
                    b.elt(&name, &t);
                    let field = match c {
                        b'p' => &mut e.p,
                        b'q' => &mut e.q,
                        _ => {
                            last = c;
                            continue;
                        }
                    };
                    if field.is_some() {
                        e.reject = true
                    }
                    *field = Some(t);
                }
                last = c;
            }
            2 => b.text(""),
            _ => {
                b.text(["\n ", "x"][sx::choose(2) as usize]);
                e.blurred = true
            }
        }
    }
    b.end("r");
    e
}
fn judge_list<T: Debug>(r: &Res<T>, e: &Seen, ok: Option<bool>) {
    // ok: whether the values read are those expected, None: nothing read
    note!("read: {:?}\nexpected {}: {:?} p {:?} q {:?}", r, if e.reject { "to be rejected" } else { "values" }, e.s, e.p, e.q);
    match ok {
        Some(right) => {
            sx::check(!e.reject, 241);
            sx::check(right, 242);
            sx::cover(1);
            if e.s.len() > 2 {
                sx::cover(3)
            }
        }
        None => {
            sx::check(e.reject || (e.blurred && e.s.len() > 1), 243);
            sx::cover(2);
        }
    }
}
fn eq_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_list(shape: u32, n: u32, sep: u32, _: u32) {
    let mut b = B::new();
    let mut e = list(&mut b, n, if shape == 4 { 1 } else { 0 }, sep);
    note!("events: {:?}", b.0);
    let digit = |t: &str| t.len() == 1 && tpl::is_digit(t.as_bytes()[0]);
    macro_rules! go {
        ($t:ty, $right:expr) => {{
            let r: Res<$t> = b.read();
            let ok = match &r {
                Ok(x) => Some(eq_opt(&x.p, &e.p) && eq_opt(&x.q, &e.q) && {
                    let f: fn(&$t, &Seen) -> bool = $right;
                    f(x, &e)
                }),
                Err(_) => None,
            };
            judge_list(&r, &e, ok)
        }};
    }
    match shape {
        0 => go!(Opt<Vec<String>>, |x, e| x.s.len() == e.s.len() && x.s.iter().zip(&e.s).all(|(a, b)| same(a, &b.1))),
        1 => {
            // numbers, and the sequence is required
            e.reject |= e.s.is_empty() || !e.s.iter().all(|t| digit(&t.1));
            go!(Lists<Vec<u8>>, |x, e| x.s.len() == e.s.len() && x.s.iter().zip(&e.s).all(|(a, b)| *a == b.1.as_bytes()[0] - b'0'))
        }
        2 => {
            // pairs
            e.reject |= e.s.len() % 2 != 0;
            e.blurred |= false;
            go!(Opt<Vec<(String, String)>>, |x, e| x.s.len() * 2 == e.s.len()
                && x.s.iter().zip(e.s.chunks(2)).all(|(a, b)| same(&a.0, &b[0].1) && same(&a.1, &b[1].1)))
        }
        3 => {
            // optional sequence of optional fieldless enums
            e.reject |= !e.s.iter().all(|t| t.1 == "a" || t.1 == "b");
            go!(Opt<Option<Vec<Option<Flat>>>>, |x, e| match &x.s {
                None => e.s.is_empty(),
                Some(s) =>
                    s.len() == e.s.len()
                        && s.iter().zip(&e.s).all(|(a, b)| *a == if b.1 == "a" { Some(Flat::a) } else { Some(Flat::b) }),
            })
        }
        4 => go!(Opt<Vec<Sub>>, |x, e| x.s.len() == e.s.len()
            && x.s.iter().zip(&e.s).all(|(a, b)| {
                let mut d: String = a.s.concat();
                sx::check(a.s.iter().all(|t| t.len() == 1), 244);
                d.push('|');
                d.push_str(a.p.as_deref().unwrap_or(""));
                same(&d, &b.1)
            })),
        5 => {
            // as many as the type asks for
            e.reject |= e.s.len() != 2;
            go!(Lists<[String; 2]>, |x, e| same(&x.s[0], &e.s[0].1) && same(&x.s[1], &e.s[1].1))
        }
        6 => {
            e.reject |= e.s.len() != 2 || !digit(&e.s[1].1);
            go!(Lists<Tup>, |x, e| same(&x.s.0, &e.s[0].1) && x.s.1 == e.s[1].1.as_bytes()[0] - b'0')
        }
        _ => go!(Opt<Vec<Any>>, |x, e| x.s.len() == e.s.len()
            && x.s.iter().zip(&e.s).all(|(a, b)| match a {
                Any::Text(t) => same(t, &b.1),
                _ => false,
            })),
    }
}

// ---- P27
/// Content of an element: up to n pieces; returns its text.
fn content(b: &mut B, n: u32, depth: u32, any: bool) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match sx::choose(if depth == 0 { 5 } else { 6 }) {
            0 => break,
            1 => {
                let t = chars(1);
                b.text(&t);
                s.push_str(&t);
            }
            2 => {
                let t = if any { chars(2) } else { "é".to_string() };
                b.borrowed(&t);
                s.push_str(&t);
            }
            3 => b.text(""),
            4 => {
                let t = [" ", "some longer text, borrowed"][sx::choose(2) as usize];
                b.borrowed(t);
                s.push_str(t);
            }
            _ => {
                let name = letter();
                b.open(&name);
                if sx::choose(2) == 1 {
                    b.attr("c", "no");
                }
                b.close();
                s.push_str(&content(b, 1, depth - 1, any));
                b.end(&name);
            }
        }
    }
    s
}
fn is_mid(r: &Mid<String>, s: &str, form: u32) -> bool {
    let p = if form & 1 != 0 { Some("1") } else { None };
    let q = if form & 2 != 0 { Some("2") } else { None };
    r.p.as_deref() == p && r.q.as_deref() == q && same(&r.f, s)
}
/// depth of nesting, pieces, what surrounds it, the target
#[no_mangle]
pub extern "C" fn h_string(depth: u32, n: u32, form: u32, target: u32) {
    let mut b = B::new();
    let text = if target == 4 {
        b.open("r");
        b.attr("x", "n");
        b.close();
        let t = content(&mut b, n, depth, true);
        b.end("r");
        t
    } else {
        b.start("r");
        if form & 1 != 0 {
            b.elt("p", "1");
            b.text("-");
        }
        b.open("f");
        if form & 4 != 0 {
            b.attr("c", "n");
        }
        b.close();
        let t = content(&mut b, n, depth, depth == 0);
        b.end("f");
        if form & 2 != 0 {
            b.text("+");
            b.elt("q", "2");
        }
        b.text("!");
        b.end("r");
        b.text("?");
        t
    };
    note!("events: {:?}", b.0);
    let fail = |e: &dyn Debug| {
        note!("read: {:?}", e);
        sx::fail(271)
    };
    match target {
        0 => match b.read::<Mid<String>>() {
            Ok(r) => {
                note!("read: {:?}", r);
                sx::check(is_mid(&r, &text, form), 272);
            }
            Err(e) => fail(&e),
        },
        1 => match b.read::<Mid<Option<Newt>>>() {
            Ok(r) => {
                note!("read: {:?}", r);
                let f = r.f.map(|n| n.0).unwrap_or_default();
                sx::check(is_mid(&Mid { p: r.p, f, q: r.q }, &text, form), 272);
            }
            Err(e) => fail(&e),
        },
        2 => match b.read::<Mid<Vec<String>>>() {
            Ok(mut r) => {
                note!("read: {:?}", r);
                sx::check(r.f.len() == 1, 273);
                let f = r.f.pop().unwrap_or_default();
                sx::check(is_mid(&Mid { p: r.p, f, q: r.q }, &text, form), 272);
            }
            Err(e) => fail(&e),
        },
        3 => match b.read::<BTreeMap<String, String>>() {
            Ok(mut r) => {
                note!("read: {:?}", r);
                let m = Mid { p: r.remove("p"), f: r.remove("f").unwrap_or_default(), q: r.remove("q") };
                sx::check(r.is_empty(), 273);
                sx::check(is_mid(&m, &text, form), 272);
            }
            Err(e) => fail(&e),
        },
        _ => match b.read::<String>() {
            Ok(r) => {
                note!("read: {:?}", r);
                sx::check(same(&r, &text), 272);
            }
            Err(e) => fail(&e),
        },
    }
    sx::cover(1);
    if text.is_empty() {
        sx::cover(2)
    }
}
/// Documents for P27: `f` of `r` is read.
const TEXTS: &[(u32, &[u8], u32)] = &[
    (0, b"<r><p>1</p><f>\x01\x06<![CDATA[\x01\x06]]>\x01</f><q>2</q></r>", 0),
    (0, b"<r><f>\x01 <b c=\x05>\x01</b>\x01<!--\x01--> \x01</f>\x01</r>", cfg::NOTRIM),
    (0, b"<r>\x01<f>&lt;\x01&#6\x08;<![RCDATA[&lt;\x01]]>\x01</f></r>", cfg::ENT | cfg::EXPAND),
    (0, b"<r><f>\x01<![CDATA[<q>\x01</q>]]>\x01</f><q>\x01</q></r>", cfg::EXPAND),
    (0, b"<r><q>\x01</q><f>\x01\x01\x01</f></r>", cfg::EXPAND | cfg::NOTRIM),
    (0, b"<r><f>\x02<![INCLUDE[\x01<b>\x01</b>]]>\x01<![IGNORE[\x01]]></f></r>", cfg::EXPAND | cfg::NOTRIM),
    (0, b"<r><f><b>\x01</b><b>\x01</b> <b>\x01</b></f><p>1</p></r>", 0),
    (1, b"<r><f>\x01\x01\x01\x01</f><p>\x01</p></r>", cfg::NOTRIM | cfg::EXPAND | cfg::ENT),
];
#[no_mangle]
pub extern "C" fn h_string_doc(t: u32, _: u32, _: u32, _: u32) {
    let d = &TEXTS[t as usize];
    let s = tpl::build(d.1);
    let f = match cfg::parser(d.2).parse(&s) {
        Ok(f) => f,
        Err(_) => return sx::cover(3),
    };
    // the text inside the first f, if the tags match
    let mut stack: Vec<&str> = vec![];
    let (mut text, mut inside, mut done) = (String::new(), 0, false);
    let mut plain = true;
    for e in f.iter() {
        match e {
            OpenStartTag { name } => {
                stack.push(name);
                if stack.len() == 2 && **name == *"f" {
                    plain &= !done;
                    inside = 2;
                }
            }
            EndTag { name } => match stack.pop() {
                Some(n) if *n == **name => {
                    if stack.len() == 1 && inside == 2 {
                        inside = 0;
                        done = true;
                    }
                }
                _ => plain = false,
            },
            Character(t) if inside == 2 => text.push_str(t),
            Character(_) | Attribute { .. } | CloseStartTag => {}
            _ => plain = false,
        }
    }
    if !plain || !done || !stack.is_empty() {
        return sx::cover(4);
    }
    let ev: Vec<_> = f.iter().map(crate::print::clone).collect();
    note!("document {:?} ({})\nevents {:?}", s, cfg::show(d.2), ev);
    match B::of(ev).read::<F<String>>() {
        Ok(r) => {
            note!("read: {:?}\nexpected: {:?}", r, text);
            sx::check(same(&r.f, &text), 274);
            sx::cover(1);
        }
        Err(e) => {
            note!("read: {:?}\nexpected: {:?}", e, text);
            sx::fail(275)
        }
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        23 => {
            let names = ["String", "Option<String>", "bool", "Option<bool>", "u8", "i8", "i64", "u32", "Option<i16>", "char", "fieldless enum", "newtype", "Option<enum>", "Box<str>"];
            for (k, name) in names.iter().enumerate() {
                let k = k as u32;
                let wide = matches!(k, 4..=8);
                for n in 0..=(if thorough && !wide { 6 } else if matches!(k, 2 | 3) { 5 } else { 4 }) {
                    sx::job("h_attr_elem", [k, 0, n, 0], &format!("{}: {} characters", name, n));
                }
                sx::job("h_attr_elem", [k, 1, 0, 0], &format!("{}: with neighbours", name));
                if wide {
                    let n = if thorough { 5 } else { 4 };
                    sx::job("h_attr_elem", [k, 2, n, 0], &format!("{}: sign or zero and {} characters", name, n));
                }
            }
        }
        24 => {
            let names = ["strings", "numbers, required", "pairs", "optional, of optional enums", "structs of sequences", "[String; 2]", "tuple struct", "anything"];
            for (k, name) in names.iter().enumerate() {
                let k = k as u32;
                let n = if thorough { 6 } else { 5 };
                sx::job("h_list", [k, if k == 4 { n - 2 } else { n }, 0, 0], &format!("{}: up to {} elements", name, n));
                sx::job("h_list", [k, if k == 4 { n - 2 } else { n - 1 }, 1, 0], &format!("{}: up to {} elements and texts", name, n - 1));
            }
        }
        25 => {
            for (f, name) in ["attribute", "element", "pieces of text", "attribute of any name", "sequence", "$value", "Option"].iter().enumerate() {
                for (i, t) in BOOLS.iter().enumerate() {
                    if i == 1 && f > 1 && !thorough {
                        continue;
                    }
                    sx::job("h_bool", [f as u32, i as u32, 0, 0], &format!("{}: {}", name, tpl::show(t)));
                }
            }
            sx::job("h_bool", [7, 3, 0, 0], "attribute without value");
        }
        26 => {
            let forms = ["attribute", "element", "tuple", "sequence", "$value", "map"];
            for (ty, name) in ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"].iter().enumerate() {
                for (i, t) in INTS.iter().enumerate() {
                    for (f, form) in forms.iter().enumerate() {
                        // every form with every type, but not with every text
                        if f < 2 || (i + f + ty) % 6 == 0 || thorough {
                            sx::job("h_int", [ty as u32, f as u32, i as u32, 0], &format!("{} {}: {}", name, form, tpl::show(t)));
                        }
                    }
                }
            }
        }
        33 => {
            let forms = ["attribute", "element", "tuple", "sequence", "$value", "map"];
            for (ty, name) in ["f64", "f32"].iter().enumerate() {
                for (i, t) in FLOATS.iter().enumerate() {
                    for (f, form) in forms.iter().enumerate() {
                        if (i + f + ty) % 3 == 0 || thorough {
                            sx::job("h_float", [ty as u32, f as u32, i as u32, 0], &format!("{} {}: {}", name, form, tpl::show(t)));
                        }
                    }
                }
            }
        }
        27 => {
            for (k, name) in ["String", "Option<newtype>", "Vec<String>", "map", "root"].iter().enumerate() {
                for form in 0..if k == 4 { 1 } else { 8 } {
                    let k = k as u32;
                    let n = if thorough { 4 } else { 3 };
                    sx::job("h_string", [0, n + 1, form, k], &format!("{} (surroundings {}): {} texts", name, form, n + 1));
                    if form == 0 || form == 7 || thorough {
                        sx::job("h_string", [2, n, form, k], &format!("{} (surroundings {}): {} texts or nested elements", name, form, n));
                    }
                }
            }
            for (i, d) in TEXTS.iter().enumerate() {
                if d.0 == 0 || thorough {
                    sx::job("h_string_doc", [i as u32, 0, 0, 0], &format!("{} {}", cfg::show(d.2), tpl::show(d.1)));
                }
            }
        }
        _ => {}
    }
}
