//! Parser configurations, encoded in an integer.
use sgmlish::parser::{MarkedSectionHandling, NameNormalization, Parser};

pub const NOTRIM: u32 = 1;
pub const LOWER: u32 = 2;
pub const UPPER: u32 = 4;
pub const KEEP: u32 = 8;
pub const EXPAND: u32 = 16;
pub const NOMD: u32 = 32;
pub const NOPI: u32 = 64;
pub const ENT: u32 = 128;
pub const PENT: u32 = 256;

/// The entities of the `ENT` configurations.
pub fn ent(name: &str) -> Option<&'static str> {
    let n = name.as_bytes();
    match n.len() {
        1 => match n[0] {
            b'a' => Some(""),
            b'b' => Some(" x&lt;%c; "),
            _ => None,
        },
        2 => {
            if n[0] == b'#' {
                match n[1] {
                    b'a' => Some("F"),
                    b'x' => Some("X"),
                    _ => None,
                }
            } else if n == b"lt" {
                Some("<")
            } else if n == "é".as_bytes() {
                Some("e")
            } else {
                None
            }
        }
        3 if n == b"amp" => Some("&"),
        6 if n == b"#55296" => Some("S"),
        6 if n == b"#xzzzz" => Some("Z"),
        8 if n == b"#1114112" => Some("B"),
        8 if n == b"#x110000" => Some("T"),
        _ => None,
    }
}
/// The parameter entities of the `PENT` configurations.
pub fn pent(name: &str) -> Option<&'static str> {
    let n = name.as_bytes();
    match n.len() {
        1 => match n[0] {
            b'c' => Some("CDATA"),
            b'r' => Some("RCDATA"),
            b'g' => Some("IGNORE"),
            b'i' => Some("INCLUDE"),
            b'n' => Some("%c;"),
            b'e' => Some(""),
            b's' => Some(" temp "),
            b'l' => Some("IGNORE  IGNORE  bogus"),
            b'm' => Some("TEMP é"),
            _ => None,
        },
        2 if n == b"#a" => Some("CDATA"),
        _ => None,
    }
}

pub fn parser(cfg: u32) -> Parser {
    let mut b = Parser::builder();
    if cfg & NOTRIM != 0 {
        b = b.trim_whitespace(false)
    }
    if cfg & LOWER != 0 {
        b = b.lowercase_names()
    }
    if cfg & UPPER != 0 {
        b = b.name_normalization(NameNormalization::ToUppercase)
    }
    if cfg & KEEP != 0 {
        b = b.marked_section_handling(MarkedSectionHandling::KeepUnmodified)
    }
    if cfg & EXPAND != 0 {
        b = b.expand_marked_sections()
    }
    if cfg & NOMD != 0 {
        b = b.ignore_markup_declarations(true)
    }
    if cfg & NOPI != 0 {
        b = b.ignore_processing_instructions(true)
    }
    if cfg & ENT != 0 {
        b = b.expand_entities(ent)
    }
    if cfg & PENT != 0 {
        b = b.expand_parameter_entities(pent)
    }
    b.build()
}
pub fn show(cfg: u32) -> String {
    let mut s = String::new();
    for (i, n) in ["notrim", "lower", "upper", "keep", "expand", "nomd", "nopi", "ent", "pent"].iter().enumerate() {
        if cfg >> i & 1 != 0 {
            s.push_str(n);
            s.push('+');
        }
    }
    if s.is_empty() {
        s.push_str("default+")
    }
    s.pop();
    s
}
