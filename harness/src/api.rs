//! P37: parser settings and entry points. P38: the parser's building blocks.
use crate::cfg::*;
use crate::{cfg, print, refm, sx, tpl};
use nom::error::Error as NE;
use nom::IResult;
use sgmlish::parser::events::{self, EventIter};
use sgmlish::parser::raw::{self, MarkedSectionEndHandling as Mse};
use sgmlish::parser::{util, MarkedSectionHandling, NameNormalization, Parser, ParserBuilder, ParserConfig};
use sgmlish::SgmlEvent::{self, *};
use sgmlish::{Error, SgmlFragment};

type Parsed<'a> = sgmlish::Result<SgmlFragment<'a>>;
pub struct T(u32, &'static [u8], &'static [u32]);
const TH: u32 = 1000;

/// The builder of a configuration, its settings given in another order (and some more than once).
fn builder(c: u32, way: u32) -> ParserBuilder {
    let mut b = if way == 0 { ParserBuilder::new() } else { ParserBuilder::default() };
    let mut steps = [7, 6, 5, 4, 3, 2, 1, 0];
    if way == 1 {
        // explicit defaults first, then the opposite, then the settings
        b = b.trim_whitespace(true).name_normalization(NameNormalization::Unchanged).ignore_markup_declarations(false).ignore_processing_instructions(false);
        b = b.uppercase_names().lowercase_names().name_normalization(NameNormalization::Unchanged);
        b = b.expand_marked_sections().marked_section_handling(MarkedSectionHandling::AcceptOnlyCharacterData);
        steps = [3, 0, 5, 2, 7, 4, 1, 6];
    }
    for k in steps {
        b = match k {
            0 => b.trim_whitespace(c & NOTRIM == 0),
            1 if c & UPPER != 0 => b.uppercase_names(),
            1 if c & LOWER != 0 => b.name_normalization(NameNormalization::ToLowercase),
            2 if c & KEEP != 0 => b.marked_section_handling(MarkedSectionHandling::KeepUnmodified),
            3 if c & EXPAND != 0 => b.marked_section_handling(MarkedSectionHandling::ExpandAll),
            4 => b.ignore_markup_declarations(c & NOMD != 0),
            5 => b.ignore_processing_instructions(c & NOPI != 0),
            6 if c & ENT != 0 => b.expand_entities(|n| ent(n).map(String::from)),
            7 if c & PENT != 0 => b.expand_parameter_entities(pent),
            _ => b,
        }
    }
    b
}
fn same(a: &Parsed, b: &Parsed) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => print::all_equal(a.as_slice(), b.as_slice()),
        (Err(Error::ParseError(a)), Err(Error::ParseError(b))) => a == b,
        _ => false,
    }
}
const DOCS: &[T] = &[
    T(37, b"\x01\x01\x01", &[0, NOTRIM | EXPAND | ENT | PENT, KEEP | PENT | LOWER | NOMD, UPPER | NOPI]),
    T(37, b"<?p><!D \x01> <A \x01=' \x01 &amp;'><b>\x03x&\x01;</B></A> ", &[0, ENT | NOMD, ENT | NOPI | LOWER, NOTRIM | UPPER | ENT, KEEP | NOMD | NOPI | ENT]),
    T(37, b"<A \x13=x>\x03\x06</\x13>", &[NOTRIM, LOWER, UPPER, UPPER | NOTRIM | NOPI]),
    T(37, b"<a> <![%\x01;[x \x01]]> &\x01\x01 <?q \x01>", &[PENT, PENT | EXPAND | NOTRIM, PENT | KEEP | ENT | NOPI, ENT | EXPAND, KEEP | PENT | NOMD]),
    T(37, b"<![INCLUDE[<A>\x01<?\x01>]]> <![CDATA[ \x01]]><b>", &[EXPAND, KEEP | LOWER, EXPAND | NOTRIM | UPPER | NOPI, KEEP | NOMD | NOPI | NOTRIM]),
    T(37, b"<!D \x01\x01><?\x01>x<?\x01>\x03", &[NOMD, NOPI, NOMD | NOPI | NOTRIM, NOMD | UPPER]),
    T(37, b"\x03<!-- -->\x03<!d\x01><!\x06>\x03<\x01>\x03<?x>", &[NOMD | NOTRIM, NOPI, NOMD | NOPI | EXPAND]),
    T(TH + 37, b"\x01\x01\x01\x01\x01", &[0, NOTRIM | EXPAND | ENT | PENT, KEEP | PENT | LOWER | NOMD, UPPER | NOPI]),
    T(TH + 37, b"<?p><!D \x01> <A \x02=' \x02 &amp;'>\x02<b>\x03x&\x01;</B></A> ", &[0, ENT | NOMD, ENT | NOPI | LOWER, NOTRIM | UPPER | ENT, KEEP | NOMD | NOPI | ENT]),
];
#[no_mangle]
pub extern "C" fn h_settings(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(DOCS[t as usize].1);
    let p = cfg::parser(c);
    let a = p.parse(&s);
    note!("parsing {:?} ({}): {:?}", s, cfg::show(c), a);
    let agree = |b: Parsed, code: u32, what: &str| {
        if !same(&a, &b) {
            note!("{}: {:?}", what, b);
            sx::fail(code)
        }
    };
    match sx::choose(4) {
        0 => {
            // the order of the settings
            agree(builder(c, 0).build().parse(&s), 371, "settings in reverse");
            agree(builder(c, 1).parse(&s), 371, "settings in another order");
            if c == 0 {
                agree(sgmlish::parse(&s), 372, "sgmlish::parse");
                agree(Parser::new().parse(&s), 372, "Parser::new");
                agree(Parser::default().parse(&s), 372, "Parser::default");
                agree(Parser::builder().parse(&s), 372, "Parser::builder");
            }
        }
        1 => {
            // earlier documents
            for d in ["<A b='&x;'><![IGNORE[", "<a>&lt;<![TEMP[x]]></a>", "", "]]>"] {
                let _ = p.parse(d);
            }
            agree(p.parse(&s), 373, "again");
        }
        2 => {
            // the document combinator
            let config = builder(c, 1).into_config();
            match events::document_entity::<NE<&str>>(&s, &config) {
                Ok((rest, e)) => {
                    sx::check(rest.is_empty(), 374);
                    agree(Ok(SgmlFragment::from(e.collect::<Vec<_>>())), 374, "document_entity")
                }
                Err(_) => sx::check(a.is_err(), 374),
            }
        }
        _ => {
            // what a setting does not name stays the same
            for bit in [NOTRIM, LOWER, UPPER, NOMD, NOPI] {
                if c & bit == 0 {
                    continue;
                }
                let b = cfg::parser(c & !bit).parse(&s);
                if a.is_ok() != b.is_ok() {
                    note!("without {}: {:?}", cfg::show(bit), b);
                    sx::fail(375)
                }
                let (a, b) = match (&a, b) {
                    (Ok(a), Ok(b)) => (a, b),
                    _ => continue,
                };
                let gone = |e: &SgmlEvent| match e {
                    Character(_) => bit == NOTRIM,
                    MarkupDeclaration { .. } => bit == NOMD,
                    ProcessingInstruction(_) => bit == NOPI,
                    _ => false,
                };
                let names = |e: &SgmlEvent<'_>| {
                    let n = if bit == LOWER { NameNormalization::ToLowercase } else { NameNormalization::ToUppercase };
                    let mut e = e.clone().into_owned();
                    if bit == LOWER || bit == UPPER {
                        match &mut e {
                            OpenStartTag { name } | EndTag { name } | Attribute { name, .. } => *name = n.normalize(name.to_string().into()),
                            _ => (),
                        }
                    }
                    e
                };
                let x: Vec<SgmlEvent> = a.iter().filter(|e| bit != NOTRIM || !gone(e)).cloned().collect();
                let y: Vec<SgmlEvent> = b.iter().filter(|e| !gone(e)).map(names).collect();
                if !print::all_equal(&x, &y) {
                    note!("without {}: {:?}", cfg::show(bit), b);
                    sx::fail(376)
                }
            }
        }
    }
    sx::cover(if a.is_ok() { 1 } else { 2 });
}

// ---- P38
/// What a combinator matched.
#[derive(Debug)]
enum Out<'a> {
    /// parts of the input
    Text(Vec<&'a str>),
    Events(Vec<SgmlEvent<'a>>),
}
fn equal(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Text(a), Out::Text(b)) => a == b,
        (Out::Events(a), Out::Events(b)) => print::all_equal(a, b),
        _ => false,
    }
}
type R<'a> = IResult<&'a str, Out<'a>, NE<&'a str>>;
fn one<'a>(r: IResult<&'a str, &'a str, NE<&'a str>>) -> R<'a> {
    r.map(|(i, o)| (i, Out::Text(vec![o])))
}
fn event<'a>(r: IResult<&'a str, SgmlEvent<'a>, NE<&'a str>>) -> R<'a> {
    r.map(|(i, o)| (i, Out::Events(vec![o])))
}
fn iter<'a>(r: IResult<&'a str, EventIter<'a>, NE<&'a str>>) -> R<'a> {
    r.map(|(i, mut o)| {
        let mut v = vec![];
        loop {
            let (n, hint) = (o.len(), o.size_hint());
            sx::check(hint == (n, Some(n)), 389);
            match o.next() {
                Some(e) => {
                    sx::check(n > 0, 389);
                    v.push(e);
                    sx::check(o.len() == n - 1, 389)
                }
                None => {
                    sx::check(n == 0 && o.next().is_none(), 389);
                    break;
                }
            }
        }
        (i, Out::Events(v))
    })
}
const RAW: [&str; 24] = [
    "comment_declaration", "comment", "markup_declaration", "marked_section_start_and_keywords", "marked_section_body_character_data",
    "marked_section_body_ignore", "marked_section_end", "processing_instruction", "text", "text within a section", "plain_text",
    "plain_text within a section", "open_start_tag", "close_start_tag", "xml_close_empty_element", "empty_start_tag", "attribute",
    "attribute_value", "unquoted_attribute_value", "quoted_attribute_value", "end_tag", "name", "spaces", "comments_and_spaces",
];
const EVENTS: [&str; 13] = [
    "events::markup_declaration", "events::marked_section_declaration", "events::processing_instruction", "events::content_item",
    "events::content_item within a section", "events::content", "events::start_tag", "events::open_start_tag", "events::close_start_tag",
    "events::xml_close_empty_element", "events::attribute", "events::text", "events::prolog",
];
fn run<'a>(k: u32, s: &'a str, c: &ParserConfig) -> R<'a> {
    match k {
        0 => one(raw::comment_declaration(s)),
        1 => one(raw::comment(s)),
        2 => raw::markup_declaration(s).map(|(i, (k, b))| (i, Out::Text(vec![k, b]))),
        3 => one(raw::marked_section_start_and_keywords(s)),
        4 => one(raw::marked_section_body_character_data(s)),
        5 => one(raw::marked_section_body_ignore(s)),
        6 => one(raw::marked_section_end(s)),
        7 => one(raw::processing_instruction(s)),
        8 => one(raw::text(s, Mse::TreatAsText)),
        9 => one(raw::text(s, Mse::StopParsing)),
        10 => one(raw::plain_text(s, Mse::TreatAsText)),
        11 => one(raw::plain_text(s, Mse::StopParsing)),
        12 => one(raw::open_start_tag(s)),
        13 => one(raw::close_start_tag(s)),
        14 => one(raw::xml_close_empty_element(s)),
        15 => one(raw::empty_start_tag(s)),
        16 => raw::attribute(s).map(|(i, (k, v))| (i, Out::Text(std::iter::once(k).chain(v).collect()))),
        17 => raw::attribute_value(s).map(|(i, (v, _))| (i, Out::Text(vec![v]))),
        18 => one(raw::unquoted_attribute_value(s)),
        19 => one(raw::quoted_attribute_value(s)),
        20 => raw::end_tag(s).map(|(i, n)| (i, Out::Text(n.into_iter().collect()))),
        21 => one(raw::name(s)),
        22 => one(util::spaces(s)),
        23 => one(util::comments_and_spaces(s)),
        24 => iter(events::markup_declaration(s, c)),
        25 => iter(events::marked_section_declaration(s, c)),
        26 => iter(events::processing_instruction(s, c)),
        27 => iter(events::content_item(s, c, Mse::TreatAsText)),
        28 => iter(events::content_item(s, c, Mse::StopParsing)),
        29 => events::content::<NE<&str>>(s, c, Mse::TreatAsText).map(|(i, e)| (i, Out::Events(e.collect()))),
        30 => iter(events::start_tag(s, c)),
        31 => event(events::open_start_tag(s, c)),
        32 => event(events::close_start_tag(s)),
        33 => event(events::xml_close_empty_element(s)),
        34 => event(events::attribute(s, c)),
        35 => iter(events::text(s, c, Mse::TreatAsText)),
        _ => events::prolog::<NE<&str>>(s, c).map(|(i, e)| (i, Out::Events(e))),
    }
}
/// Is the construct ended by characters of its own?
fn delimited(k: u32) -> bool {
    matches!(k, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 13 | 14 | 15 | 19 | 20 | 24 | 25 | 26 | 30 | 32 | 33)
}
/// (combinator, template, configuration)
const PIECES: &[(u32, &[u32], &[u8])] = &[
    (0, &[0, 23], b"<!\x01\x01\x01\x01\x01"),
    (0, &[0, 23], b"<!--\x01-\x01\x01\x01\x02"),
    (0, &[1], b"--\x01\x01\x01\x01"),
    (0, &[2, 24, 36], b"<!d\x01\x01\x01\x01\x02"),
    (0, &[2, 24], b"<!d [<!e\x01>]\x03\x01\x02"),
    (0, &[3], b"<![\x01\x01\x01\x02\x01"),
    (0, &[4, 5], b"\x01\x01]\x01\x01\x01"),
    (0, &[4, 5], b"<![\x01]]>\x01]]\x01]]>\x02"),
    (0, &[6, 14, 15, 13], b"\x01\x01\x01\x01"),
    (0, &[7, 26], b"<?\x01\x01\x02\x01"),
    (0, &[8, 9, 10, 11, 35], b"\x01\x01\x02\x01"),
    (0, &[8, 9, 10, 11, 35], b"a]\x01\x01<\x01\x02"),
    (0, &[12, 31, 21], b"\x01\x01\x02\x01"),
    (0, &[12, 31, 30], b"<\x02\x02\x01"),
    (0, &[16, 34], b"a\x01\x01\x02\x01\x01"),
    (0, &[16, 34], b"\x02\x03=\x03\x0e\x02\x0e\x01\x01"),
    (0, &[17, 18, 19], b"\x01\x02\x01\x01"),
    (0, &[17, 18, 19], b"\x0e\x01\x02\x0e\x01"),
    (0, &[20], b"</\x01\x01\x02\x01"),
    (0, &[21, 22, 23], b"\x02\x01\x02"),
    (0, &[22, 23], b"\x03\x03\x01\x01"),
    (0, &[23, 36], b"\x03<!\x01\x01>\x03\x01<!--\x01-->\x01"),
    (0, &[25], b"<![CDATA[\x01\x01\x01]]>\x02"),
    (EXPAND | ENT, &[25], b"<![RCDATA[&\x01\x01 \x01]]>\x02"),
    (EXPAND, &[25], b"<![IGNORE[\x01]]\x01\x01]]>\x02"),
    (EXPAND, &[25, 28], b"<![INCLUDE[\x01<b>\x01]]>\x02"),
    (EXPAND, &[25], b"<![INCLUDE[<\x01 b=\x01><?\x01>]]>\x02"),
    (KEEP, &[25], b"<![INCLUDE[<\x01 b=\x01><?\x01>]]>\x02"),
    (0, &[27, 28, 29], b"\x01\x01\x02\x01"),
    (ENT | UPPER, &[27, 28, 29], b"x<\x01\x01 b\x02='&\x01;'>\x01"),
    (EXPAND, &[27, 28, 29], b"<a\x01b=\x01>]\x01><?\x01>\x02"),
    (0, &[30], b"<a\x03\x02=\x03\x01\x02 c\x01\x01"),
    (LOWER, &[30], b"<A \x13=x \x13='\x02'/\x01\x01"),
    (0, &[13, 14, 20, 30], b"/>\x01\x01"),
    (0, &[13], b">\x01\x01"),
    (0, &[20], b"</a>\x01\x01"),
    (0, &[30], b"<a\x02>\x01\x01"),
    (0, &[0, 23], b"<!---->\x01\x01"),
    (0, &[7, 26], b"<?x>\x01\x01"),
    (0, &[2, 24], b"<!d>\x01\x01"),
    (EXPAND, &[25], b"<![CDATA[x]]>\x01\x01"),
    (EXPAND, &[25], b"<![INCLUDE[]]>\x01\x01"),
    (KEEP, &[25], b"<![TEMP[x]]>\x01\x01"),
    (0, &[4, 5], b"x]]>\x01\x01"),
    (0, &[19], b"''\x01\x01"),
    (NOMD | NOPI, &[36, 24, 26], b"<?\x01><!d\x01\x03>\x02"),
    (0, &[36], b"<?\x01><!d\x01\x03><![CDATA[\x01]]>\x03\x02"),
];
fn within(part: &str, s: &str) -> bool {
    let (p, a) = (part.as_ptr() as usize, s.as_ptr() as usize);
    p >= a && p + part.len() <= a + s.len()
}
fn is_suffix(rest: &str, s: &str) -> bool {
    within(rest, s) && rest.as_ptr() as usize + rest.len() == s.as_ptr() as usize + s.len()
}
#[no_mangle]
pub extern "C" fn h_combinator(t: u32, k: u32, longer: u32, _: u32) {
    let (c, _, template) = PIECES[t as usize];
    let mut s = tpl::build(template);
    if longer != 0 {
        s.push_str(&tpl::build(b"\x01\x01"));
    }
    let config = builder(c, 0).into_config();
    let r = run(k, &s, &config);
    note!("{} on {:?} ({}): {:?}", what(k), s, cfg::show(c), r);
    let (rest, out) = match r {
        Ok(r) => r,
        Err(nom::Err::Incomplete(_)) => sx::fail(385),
        Err(nom::Err::Error(e) | nom::Err::Failure(e)) => {
            // undefined references are reported with just themselves
            sx::check(within(e.input, &s), 386);
            return sx::cover(2);
        }
    };
    sx::cover(1);
    sx::check(is_suffix(rest, &s), 381);
    let used = &s[..s.len() - rest.len()];
    if let Out::Text(v) = &out {
        for p in v {
            sx::check(within(p, used), 382);
        }
    }
    // what was consumed means the same on its own
    match run(k, used, &config) {
        Ok((r, o)) => sx::check(r.is_empty() && equal(&o, &out), 383),
        Err(e) => {
            note!("on {:?}: {:?}", used, e);
            sx::fail(383)
        }
    }
    // and before something else
    if delimited(k) {
        let ends = match k {
            1 => "--",
            3 => "[",
            4 | 5 | 6 | 25 => "]]>",
            14 | 33 => "/>",
            19 => {
                if used.as_bytes()[0] == b'"' {
                    "\""
                } else {
                    "'"
                }
            }
            _ => ">",
        };
        sx::check(used.as_bytes().ends_with(ends.as_bytes()), 390);
        for tail in ["", "-->]]>x", "'\" >", "<a"] {
            let other = used.to_string() + tail;
            match run(k, &other, &config) {
                Ok((r, o)) => sx::check(r.len() == tail.len() && equal(&o, &out), 384),
                Err(_) => sx::fail(384),
            }
        }
    }
    if let Out::Text(v) = &out {
        let n = used.len();
        let exact = match k {
            0 | 6 | 7 | 8 | 9 | 10 | 11 | 13 | 14 | 15 | 18 | 21 | 22 | 23 => v[0].len() == n,
            1 => v[0].len() + 4 == n,
            4 | 5 => v[0].len() + 3 == n,
            12 => v[0].len() + 1 == n,
            19 => v[0].len() + 2 == n,
            _ => true,
        };
        sx::check(exact, 387);
        if k == 21 {
            sx::check(refm::name(s.as_bytes(), 0) == Some(n), 388);
        }
    }
}
fn what(k: u32) -> &'static str {
    if k < 24 {
        RAW[k as usize]
    } else {
        EVENTS[k as usize - 24]
    }
}

pub fn jobs(prop: u32, thorough: bool) {
    match prop {
        37 => {
            for (i, t) in DOCS.iter().enumerate() {
                if t.0 == prop || (thorough && t.0 == TH + prop) {
                    for c in t.2 {
                        sx::job("h_settings", [i as u32, *c, 0, 0], &format!("{} {}", cfg::show(*c), tpl::show(t.1)));
                    }
                }
            }
        }
        38 => {
            for (i, t) in PIECES.iter().enumerate() {
                for k in t.1 {
                    sx::job("h_combinator", [i as u32, *k, thorough as u32, 0], &format!("{} ({}) {}{}", what(*k), cfg::show(t.0), tpl::show(t.2), if thorough { "{any}{any}" } else { "" }));
                }
            }
        }
        _ => {}
    }
}
