//! Templates: text with holes that become symbolic characters.
//!
//!  \x01 any ASCII character              \x02 any ASCII character or one of NON_ASCII
//!  \x03 a space, tab, CR or LF           \x04 an ASCII letter
//!  \x05 an ASCII name character          \x06 nothing, or any ASCII character
//!  \x07C the letter C in either case     \x08 a decimal digit
//!  \x0e one of the two quotes            \x0f one of NON_ASCII
//!  \x10C the character C, any number of times from 0 to 3
//!  \x11C the character C, 40 times       \x12 any ASCII character but '<'
//!  \x13 an ASCII letter or one of NON_ASCII
//!  \x14C the character C (\x0f: a two-byte character), 34 to 46 times
//!  \x15C the character C (\x0f: a two-byte character), 0 to 90 times
//!  \x16 any Unicode character
use crate::sx;

/// Letters with and without case mappings of the same length, a letter whose uppercase is longer,
/// a titlecase letter, a letter whose lowercase is longer, a number that is no digit, a dash, three
/// spaces that are no SGML whitespace, an astral symbol, final sigma.
pub const NON_ASCII: [&str; 13] = ["é", "É", "ß", "ǅ", "İ", "½", "—", "\u{a0}", "\u{3000}", "\u{85}", "😀", "ς", "Σ"];

pub fn is_letter(c: u8) -> bool {
    (c | 32).wrapping_sub(b'a') < 26
}
pub fn is_digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
pub fn is_space(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\r' || c == b'\n'
}

/// Any character, encoded in one to four symbolic bytes.
pub fn unicode(v: &mut Vec<u8>) {
    let bits = |v: &mut Vec<u8>, lead: u8, mask: u8| {
        let b = sx::byte() & mask;
        v.push(lead | b);
        b as u32
    };
    match sx::choose(4) {
        0 => v.push(sx::ascii()),
        1 => {
            let a = bits(v, 0xc0, 0x1f);
            sx::assume(a >= 2);
            bits(v, 0x80, 0x3f);
        }
        2 => {
            let a = bits(v, 0xe0, 0x0f);
            let b = bits(v, 0x80, 0x3f);
            let c = a << 12 | b << 6 | bits(v, 0x80, 0x3f);
            sx::assume(c >= 0x800);
            sx::assume((c < 0xd800) | (c >= 0xe000));
        }
        _ => {
            let a = bits(v, 0xf0, 7);
            let b = bits(v, 0x80, 0x3f);
            let c = bits(v, 0x80, 0x3f);
            let c = a << 18 | b << 12 | c << 6 | bits(v, 0x80, 0x3f);
            sx::assume(c >= 0x10000);
            sx::assume(c < 0x110000);
        }
    }
}

pub fn build(t: &[u8]) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(t.len() + 400);
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        i += 1;
        match c {
            1 => v.push(sx::ascii()),
            2 => {
                let k = sx::choose(1 + NON_ASCII.len() as u32) as usize;
                if k == 0 {
                    v.push(sx::ascii())
                } else {
                    v.extend_from_slice(NON_ASCII[k - 1].as_bytes())
                }
            }
            3 => {
                let b = sx::ascii();
                sx::assume((b == b' ') | (b == b'\t') | (b == b'\r') | (b == b'\n'));
                v.push(b)
            }
            4 => {
                let b = sx::ascii();
                sx::assume(is_letter(b));
                v.push(b)
            }
            5 => {
                let b = sx::ascii();
                sx::assume(is_letter(b) | is_digit(b) | (b == b'.') | (b == b'-') | (b == b'_') | (b == b':'));
                v.push(b)
            }
            6 => {
                if sx::choose(2) == 1 {
                    v.push(sx::ascii())
                }
            }
            7 => {
                let b = sx::ascii();
                sx::assume((b | 32) == (t[i] | 32));
                i += 1;
                v.push(b)
            }
            8 => {
                let b = sx::ascii();
                sx::assume(is_digit(b));
                v.push(b)
            }
            0x0e => v.push(if sx::choose(2) == 0 { b'"' } else { b'\'' }),
            0x0f => v.extend_from_slice(NON_ASCII[sx::choose(NON_ASCII.len() as u32) as usize].as_bytes()),
            0x10 => {
                for _ in 0..sx::choose(4) {
                    v.push(t[i])
                }
                i += 1;
            }
            0x11 => {
                for _ in 0..40 {
                    v.push(t[i])
                }
                i += 1;
            }
            0x12 => {
                let b = sx::ascii();
                sx::assume(b != b'<');
                v.push(b)
            }
            0x13 => {
                let k = sx::choose(1 + NON_ASCII.len() as u32) as usize;
                if k == 0 {
                    let b = sx::ascii();
                    sx::assume(is_letter(b));
                    v.push(b)
                } else {
                    v.extend_from_slice(NON_ASCII[k - 1].as_bytes())
                }
            }
            0x14 | 0x15 => {
                let n = if c == 0x14 { 34 + sx::choose(13) } else { sx::choose(91) };
                for _ in 0..n {
                    if t[i] == 0x0f {
                        v.extend_from_slice("é".as_bytes())
                    } else {
                        v.push(t[i])
                    }
                }
                i += 1;
            }
            0x16 => unicode(&mut v),
            c => v.push(c),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// For job labels.
pub fn show(t: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    let mut b = vec![];
    let name = |c: u8| match c {
        1 => "{any}",
        2 => "{any+}",
        3 => "{ws}",
        4 => "{letter}",
        5 => "{namechar}",
        6 => "{any?}",
        7 => "{case:",
        8 => "{digit}",
        0x0e => "{quote}",
        0x0f => "{nonascii}",
        0x10 => "{0-3:",
        0x11 => "{40:",
        0x12 => "{not<}",
        0x13 => "{letter+}",
        0x14 => "{34-46:",
        0x15 => "{0-90:",
        0x16 => "{unicode}",
        _ => "",
    };
    while i < t.len() {
        let n = name(t[i]);
        if !n.is_empty() {
            s.push_str(&String::from_utf8_lossy(&b));
            b.clear();
            s.push_str(n);
            if n.ends_with(':') {
                i += 1;
                match t[i] {
                    b'\n' => s.push_str("\\n"),
                    b'\r' => s.push_str("\\r"),
                    b'\t' => s.push_str("\\t"),
                    0x0f => s.push('é'),
                    c => s.push(c as char),
                }
                s.push('}');
            }
        } else if t[i] == b'\n' {
            b.extend_from_slice(b"\\n")
        } else if t[i] == b'\r' {
            b.extend_from_slice(b"\\r")
        } else {
            b.push(t[i])
        }
        i += 1;
    }
    s.push_str(&String::from_utf8_lossy(&b));
    s
}
