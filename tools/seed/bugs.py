BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo if "use " not in demo[:5] else demo))
PRE = """#![allow(unused)]
use serde::Deserialize;
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use sgmlish::parser::*;
use SgmlEvent::*;
fn ev(p: &Parser, s: &str) -> Vec<SgmlEvent<'static>> { p.parse(s).unwrap().into_owned().into_vec() }
fn open(n: &str) -> SgmlEvent<'static> { OpenStartTag { name: n.to_owned().into() } }
fn end(n: &str) -> SgmlEvent<'static> { EndTag { name: n.to_owned().into() } }
fn txt(n: &str) -> SgmlEvent<'static> { Character(n.to_owned().into()) }
fn attr(n: &str, v: Option<&str>) -> SgmlEvent<'static> { Attribute { name: n.to_owned().into(), value: v.map(|v| v.to_owned().into()) } }
"""
RAW, EV, MOD, ERR, UTIL = "src/parser/raw.rs", "src/parser/events.rs", "src/parser/mod.rs", "src/parser/error.rs", "src/parser/util.rs"
ENT, TEXT, LIB, FRAG, DE, BUF, MS = "src/entities.rs", "src/text.rs", "src/lib.rs", "src/fragment.rs", "src/de/mod.rs", "src/de/buffer.rs", "src/marked_sections.rs"
NORM, TRANS = "src/transforms/normalize_end_tags.rs", "src/transforms/transform.rs"

bug("keyword-position-in-expansion", "P01",
    "a marked section whose status keywords come from a parameter entity with an expansion longer than the reference, and are invalid",
    "The position of the bad keyword is computed in the expanded text but used in the source text: slicing panics.",
    [(EV, """                    // There's no match if the keyword came from a parameter entity expansion
                    .unwrap_or(raw_status_keywords);
""", """                    .unwrap_or_else(|| raw_status_keywords.slice(status_keywords.offset(keyword)..));
""")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().expand_parameter_entities(|_| Some("IGNORE  IGNORE  bogus")).build();
    assert!(p.parse("<![%x;[a]]>").is_err());
}
""")
bug("unquoted-value-cr", "P03",
    "an unquoted attribute value ended by a carriage return",
    "The carriage return becomes part of the attribute's value.",
    [(RAW, 'is_not("\\"\'> \\t\\r\\n"))(input)', 'is_not("\\"\'> \\t\\n"))(input)')], """
fn main() {
    let p = Parser::new();
    assert_eq!(ev(&p, "<a b=c\\r\\nd=e>"), vec![open("a"), attr("b", Some("c")), attr("d", Some("e")), CloseStartTag]);
}
""")
bug("trim-unicode", "P04",
    "text that begins or ends with a form feed or a non-ASCII space, with trimming on",
    "Characters that are not SGML whitespace are trimmed off.",
    [(MOD, "text.trim_matches(text::is_sgml_whitespace)", "text.trim()")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a>\\u{a0}x</a>"), vec![open("a"), CloseStartTag, txt("\\u{a0}x"), end("a")]);
}
""")
bug("empty-expansion-noop", "P06",
    "a text that expands to nothing at all",
    "The check for texts without references looks at the output, so a text made only of references to empty entities stays unexpanded.",
    [(ENT, "if remainder.len() == text.len() {", "if out.is_empty() && !remainder.is_empty() || remainder.len() == text.len() {\n        return Ok(text.into());\n    }\n    if out.is_empty() && !text.is_empty() {")], """
fn main() {
    let r = sgmlish::entities::expand_entities("&e;", |_| Some(""));
    assert_eq!(r, Ok("".into()));
}
""")
bug("surrogate-replacement", "P06",
    "a character reference to a surrogate code",
    "Instead of being handed to the closure, surrogate codes become U+FFFD.",
    [(ENT, "code.and_then(char::from_u32)", "code.map(|code| if code & !0x7ff == 0xd800 { 0xfffd } else { code })\n                .and_then(char::from_u32)")], """
fn main() {
    let r = sgmlish::entities::expand_entities("a&#55296;b", |e| { assert_eq!(e, "#55296"); Some("!") });
    assert_eq!(r, Ok("a!b".into()));
}
""")
bug("undefined-range-no-semicolon", "P07",
    "an undefined entity reference without a semicolon",
    "The reported range is computed from the name's length as if a semicolon always followed.",
    [(ENT, "position: text.len() - candidate.len()..text.len() - after.len(),",
      "position: {\n                                let start = text.len() - candidate.len();\n                                start..(start + prefix.len() + name.len() + 1).min(text.len())\n                            },")], """
fn main() {
    let e = sgmlish::entities::expand_characters("a &b c").unwrap_err();
    assert_eq!(e.position, 2..4);
}
""")
bug("parameter-fallback", "P08",
    "a parser with an entity closure but no parameter entity closure, and a parameter reference in a section's keywords",
    "Parameter entities fall back on the closure for general entities.",
    [(MOD, "let f = self.parameter_entity_fn.as_deref().unwrap_or(&|_| None);",
      "let f = self\n            .parameter_entity_fn\n            .as_deref()\n            .or_else(|| self.entity_fn.as_deref())\n            .unwrap_or(&|_| None);")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().expand_entities(|_| Some("CDATA")).build();
    assert!(p.parse("<a><![%x;[b]]></a>").is_err());
}
""")
bug("empty-cdata-dropped", "P09",
    "an empty (or, with trimming, blank) CDATA section",
    "A CDATA section without content yields no event.",
    [(EV, """                EventIter::once(SgmlEvent::Character(config.trim(content).into()))
            })(input),""", """                let content = config.trim(content);
                EventIter::cond(!content.is_empty(), || {
                    SgmlEvent::Character(content.into())
                })
            })(input),""")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a><![CDATA[]]></a>"), vec![open("a"), CloseStartTag, txt(""), end("a")]);
}
""")
bug("keyword-abbreviations", "P11",
    "a status keyword that is a proper prefix of a known one",
    "Keywords are matched by prefix, so unknown ones are accepted.",
    [(MS, "kw.eq_ignore_ascii_case(s).then(|| *level)", "kw.get(..s.len().max(4))\n                    .map_or(false, |kw| kw.eq_ignore_ascii_case(s))\n                    .then(|| *level)")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().build();
    assert!(p.parse("<a><![RCDA[x]]></a>").is_err());
}
""")
bug("ignore-pi-with-declarations", "P12",
    "declarations are ignored but processing instructions are not",
    "Ignoring markup declarations drops the processing instructions too.",
    [(EV, "EventIter::cond(!config.ignore_processing_instructions, || {", "let ignore = config.ignore_processing_instructions || config.ignore_markup_declarations;\n        EventIter::cond(!ignore, || {")], """
fn main() {
    let p = Parser::builder().ignore_markup_declarations(true).build();
    assert_eq!(ev(&p, "<!DOCTYPE a><a><?x></a>"), vec![open("a"), CloseStartTag, ProcessingInstruction("<?x>".into()), end("a")]);
}
""")
bug("subset-comment", "P12",
    "a bracketed declaration subset with a comment that contains a quote or a bracket",
    "Comments inside a declaration subset are no longer recognized: dashes are taken one by one.",
    [(RAW, """            recognize(many0_count(alt((
                comment,
                quoted_attribute_value,
                declaration_subset,
                recognize(markup_declaration),""", """            recognize(many0_count(alt((
                tag("-"),
                quoted_attribute_value,
                declaration_subset,
                recognize(markup_declaration),""")], """
fn main() {
    let v = ev(&Parser::new(), "<!DOCTYPE a [ -- ]> -- ]><a>");
    assert_eq!(v, vec![MarkupDeclaration { keyword: "DOCTYPE".into(), body: "a [ -- ]> -- ]".into() }, open("a"), CloseStartTag]);
}
""")
bug("subset-declaration-printing", "P14",
    "a markup declaration whose body spans several lines or has runs of blanks",
    "Printing a markup declaration folds the whitespace of its body.",
    [(LIB, """                if !body.is_empty() {
                    write!(f, " {}", body)?;
                }""", """                for word in body.split_ascii_whitespace() {
                    write!(f, " {}", word)?;
                }""")], """
fn main() {
    let s = "<!DOCTYPE a SYSTEM \\"x  y\\"><a>";
    let f = sgmlish::parse(s).unwrap();
    let t = f.to_string();
    assert_eq!(sgmlish::parse(&t).unwrap(), f);
}
""")
bug("escape-when-ascii-entity", "P15",
    "an attribute value with an ampersand followed by a non-ASCII letter",
    "Ampersands are only escaped when an ASCII letter or `#` follows, but entity names may begin with any letter.",
    [(LIB, "let escape_ampersand = value.contains('&');", "let escape_ampersand = value\n                    .split('&')\n                    .skip(1)\n                    .any(|s| s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '#'));")], """
fn main() {
    let f: SgmlFragment = vec![open("a"), attr("b", Some("1&\\u{e9}")), CloseStartTag].into();
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
""")
bug("size-hint-no-ampersand", "P16",
    "escaping with ampersand escaping switched off",
    "The upper bound is too small: `<` still becomes five characters.",
    [(TEXT, ".and_then(|n| n.checked_mul(5))", ".and_then(|n| n.checked_mul(if self.escape_ampersand { 5 } else { 1 }))")], """
fn main() {
    let mut e = sgmlish::text::escape("<<");
    e.set_escape_ampersand(false);
    assert!(e.size_hint().1.unwrap() >= e.count());
}
""")
bug("blank-is-unicode", "P18",
    "an omitted end tag after text made of non-SGML whitespace",
    "Text made of, say, no-break spaces is taken for ignorable whitespace, and the end tag goes before it.",
    [(NORM, "text::is_blank(text)", "text.trim().is_empty()")], """
fn main() {
    let f = sgmlish::parse("<a><b>\\u{a0}</a>").unwrap();
    let f = sgmlish::transforms::normalize_end_tags(f).unwrap().into_owned().into_vec();
    assert_eq!(f, vec![open("a"), CloseStartTag, open("b"), CloseStartTag, txt("\\u{a0}"), end("b"), end("a")]);
}
""")
bug("blank-anywhere", "P18",
    "an element with an omitted end tag, whose text has a blank run in its middle",
    "A blank run moves the insertion point before it, although more text of the element follows.",
    [(NORM, "if next_insertion_point == i + 1 && text::is_blank(text) {", "if text::is_blank(text) {")], """
fn main() {
    let f = sgmlish::parse("<a><b>x<![CDATA[ ]]>y</a>").unwrap();
    let f = sgmlish::transforms::normalize_end_tags(f).unwrap().into_owned().into_vec();
    assert_eq!(f.last(), Some(&end("a")));
    assert_eq!(f[f.len() - 2], end("b"));
}
""")
bug("removals-out-of-range", "P19",
    "more (out-of-range) removals than there are events",
    "The size of the result is computed with an unchecked subtraction.",
    [(TRANS, "fragment.len().saturating_sub(deletions.len()) + insertions.len()", "fragment.len() + insertions.len() - deletions.len()")], """
fn main() {
    let mut t = sgmlish::transforms::Transform::new();
    t.remove_at(5);
    t.remove_at(6);
    let f = t.apply(vec![txt("x")].into());
    assert_eq!(f.into_vec(), vec![txt("x")]);
}
""")
bug("unstable-insertions", "P19",
    "more than twenty insertions, several of them at one position",
    "An unstable sort of the insertions loses the order of those at one position.",
    [(TRANS, "insertions.sort_by_key(", "insertions.sort_unstable_by_key(")], """
fn main() {
    let mut t = sgmlish::transforms::Transform::new();
    for i in 0..40u32 { t.insert_at((i * 7 % 3) as usize, txt(&format!("{i:02}"))); }
    let f = t.apply(vec![txt("x"), txt("y")].into()).into_vec();
    let mut want = vec![];
    for p in 0..3 {
        for i in 0..40u32 { if i * 7 % 3 == p { want.push(txt(&format!("{i:02}"))); } }
        if p < 2 { want.push(txt(["x", "y"][p as usize])); }
    }
    assert_eq!(f, want);
}
""")
bug("owned-empty-value", "P20",
    "an attribute with an empty value",
    "The owned form of an empty attribute value is an absent value.",
    [(LIB, "value: value.map(make_owned),", "value: value.filter(|value| !value.is_empty()).map(make_owned),")], """
fn main() {
    let e = Attribute { name: "a".into(), value: Some("".into()) };
    assert_eq!(e.clone().into_owned(), e);
}
""")
bug("bom-only-in-parse", "P21",
    "a document that begins with a byte order mark",
    "Parser::parse skips a byte order mark, parse_with_detailed_errors does not.",
    [(MOD, "self.parse_with_detailed_errors::<ContextualizedError<_>>(input)", "let input = input.strip_prefix('\\u{feff}').unwrap_or(input);\n        self.parse_with_detailed_errors::<ContextualizedError<_>>(input)")], """
fn main() {
    let p = Parser::new();
    let s = "\\u{feff}<a>x</a>";
    let d = p.parse_with_detailed_errors::<()>(s).unwrap();
    assert_eq!(p.parse(s).unwrap(), d);
}
""")
bug("empty-text-in-sequence", "P22",
    "an empty text event between the elements of a sequence",
    "An empty text event is looked at again and again: deserialization never ends.",
    [(DE, "SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,\n                _ => return Ok(None),\n            };", "SgmlEvent::Character(text) if text.is_empty() => continue,\n                _ => return Ok(None),\n            };")], """
#[derive(Deserialize)]
struct S { v: Vec<String> }
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); std::process::exit(3) });
    let s = sgmlish::parse("<s><v>1</v><![CDATA[]]><v>2</v></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!(s.v, ["1", "2"]);
}
""")
bug("attribute-trimmed", "P23",
    "an attribute value with leading or trailing whitespace",
    "Values read from attributes are trimmed, those of elements are not.",
    [(DE, "return Ok(value.unwrap_or_default());", "return Ok(match value {\n                Some(Cow::Borrowed(value)) => value.trim().into(),\n                value => value.unwrap_or_default(),\n            });")], """
#[derive(Deserialize)]
struct S { v: i32 }
fn main() {
    assert!(sgmlish::parse("<s v=' 1'></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("sequence-case", "P24",
    "two neighbouring fields whose names differ only in case, the first one a sequence",
    "A sequence collects elements whose name differs in case.",
    [(DE, "if name.as_ref() != expected_tag.as_ref() => {", "if !name.eq_ignore_ascii_case(expected_tag) => {")], """
#[derive(Deserialize)]
struct S { v: Vec<String>, #[serde(rename = "V")] w: String }
fn main() {
    let s = sgmlish::parse("<s><v>1</v><V>2</V></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!((s.v, s.w), (vec!["1".to_owned()], "2".to_owned()));
}
""")
bug("empty-element-false", "P25",
    "an empty element read as a boolean",
    "An empty element is read as false instead of being rejected.",
    [(DE, "} else if str == \"0\" ||", "} else if str.is_empty() || str == \"0\" ||")], """
#[derive(Deserialize)]
struct S { v: bool }
fn main() {
    assert!(sgmlish::parse("<s><v></v></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("plus-prefix", "P26",
    "an integer with two signs, the first one `+`",
    "Plus signs are stripped before the number is parsed, so `+-5` is accepted.",
    [(DE, "let value = self.consume_text::<V>()?.parse()?;", "let value = self.consume_text::<V>()?.trim_start_matches('+').parse()?;")], """
#[derive(Deserialize)]
struct S { v: i32 }
fn main() {
    assert!(sgmlish::parse("<s v='+-5'></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("blank-runs-lost", "P27",
    "an element whose text has a blank run of its own, as with CDATA or nested elements",
    "Blank text runs are skipped when texts are joined.",
    [(BUF, "if cow.is_empty() {\n            return;", "if cow.trim().is_empty() && !self.0.is_empty() {\n            return;")], """
#[derive(Deserialize)]
struct S { v: String }
fn main() {
    let s = sgmlish::parse("<s><v>a<![CDATA[b]]>&#32;<b>c</b></v></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!(s.v, "ab c");
}
""")
bug("struct-variant-value", "P28",
    "a struct variant with a `$value` field",
    "The `$value` field of a struct variant is not filled.",
    [(DE, """        self.expect_element_form("struct variant")?;
        self.de.do_map(visitor, fields.contains(&"$value"))""", """        self.expect_element_form("struct variant")?;
        self.de.do_map(visitor, fields.first() == Some(&"$value"))""")], """
#[derive(Deserialize)]
enum E { #[serde(rename = "a")] A { x: String, #[serde(rename = "$value")] v: String } }
#[derive(Deserialize)]
struct S { e: E }
fn main() {
    let s = sgmlish::parse("<s><e><a x=1>t</a></e></s>").unwrap().deserialize::<S>().unwrap();
    let E::A { x, v } = s.e;
    assert_eq!((x, v), ("1".to_owned(), "t".to_owned()));
}
""")
bug("instruction-in-text", "P29",
    "a processing instruction inside of an element that is read as text, after other text",
    "Events are not checked for unsupported kinds while text is collected, so an instruction is silently skipped.",
    [(DE, """                    text.push_cow(mem::take(t));
                    self.advance()?;""", """                    text.push_cow(mem::take(t));
                    self.events.next();""")], """
#[derive(Deserialize)]
struct S { v: String }
fn main() {
    assert!(sgmlish::parse("<s><v>a<?pi>b</v></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("close-tag-case", "P29",
    "an end tag that differs from its start tag in case",
    "End tags are matched without regard to case.",
    [(DE, "if name != expected {", "if !name.eq_ignore_ascii_case(&expected) {")], """
#[derive(Deserialize)]
struct S { v: String }
fn main() {
    assert!(sgmlish::parse("<s><v>a</V></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("empty-value-missing", "P30",
    "an element without any text, with a `$value` field",
    "`$value` is reported only if there is some text.",
    [(DE, "                    if self.text_content.is_some() {\n", "                    if self.text_content.as_ref().map_or(false, |text| !text.as_str().is_empty()) {\n")], """
#[derive(Deserialize)]
struct S { #[serde(rename = "$value")] v: String }
fn main() {
    let s = sgmlish::parse("<s></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!(s.v, "");
}
""")
bug("value-last-text", "P30",
    "a text-only element with more than one text event and a `$value` field",
    "`$value` gets only the last text run.",
    [(DE, "                    if let Some(value_acc) = &mut self.text_content {\n                        value_acc.push_cow(text);", "                    if let Some(value_acc) = &mut self.text_content {\n                        if value_acc.as_str().trim().is_empty() {\n                            *value_acc = CowBuffer::new();\n                        }\n                        value_acc.push_cow(text);")], """
#[derive(Deserialize)]
struct S { #[serde(rename = "$value")] v: String }
fn main() {
    let s = sgmlish::parse("<s>&#32;<![CDATA[x]]></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!(s.v, " x");
}
""")
bug("unknown-attributes-end", "P31",
    "an unknown attribute without a value",
    "A valueless attribute that matches no field ends the list of attributes: those after it are lost.",
    [(DE, """            SgmlEvent::Attribute { .. } => {
                self.advance()?;
                visitor.visit_unit()""", """            SgmlEvent::Attribute { value, .. } => {
                let flag = value.is_none();
                self.advance()?;
                while flag && matches!(self.peek()?, SgmlEvent::Attribute { .. }) {
                    self.advance()?;
                }
                visitor.visit_unit()""")], """
#[derive(Deserialize)]
struct S { v: Option<String> }
fn main() {
    let s = sgmlish::parse("<s zzz v=1></s>").unwrap().deserialize::<S>().unwrap();
    assert_eq!(s.v.as_deref(), Some("1"));
}
""")

bug("single-comment-between-items", "P05",
    "two comments right after each other inside of an element",
    "Only one comment is accepted between two content items.",
    [(EV, """            |input| content_item(input, config, mse),
            many0_count(comment_declaration),
""", """            |input| content_item(input, config, mse),
            nom::combinator::opt(comment_declaration),
""")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a>x<!--1--><!--2-->y</a>"), vec![open("a"), CloseStartTag, txt("x"), txt("y"), end("a")]);
}
""")
bug("fold-before-uppercase", "P13",
    "uppercase normalization of a name with a character such as OHM SIGN, whose lowercase form has another uppercase form",
    "Names are lowercased before they are uppercased, which changes characters that are uppercase already.",
    [(MOD, "name.to_uppercase().into()", "name.to_lowercase().to_uppercase().into()")], """
fn main() {
    let p = Parser::builder().uppercase_names().build();
    assert_eq!(ev(&p, "<a\\u{2126}>"), vec![open("A\\u{2126}"), CloseStartTag]);
}
""")
bug("case-insensitive-pairing", "P17",
    "start and end tags that differ in case, without name normalization",
    "Normalization pairs tags that differ in case: the result is not balanced.",
    [(NORM, "let mut stack = vec![];", "let mut stack: Vec<&mut std::borrow::Cow<str>> = vec![];"),
     (NORM, "Some(end_name) if *end_name == name => {", "Some(end_name) if end_name.eq_ignore_ascii_case(name) => {")], """
fn main() {
    let f = sgmlish::parse("<A>x</a>").unwrap();
    assert!(sgmlish::transforms::normalize_end_tags(f).is_err());
}
""")
bug("repeated-attribute", "P03",
    "a start tag with the same attribute twice",
    "Only the first of several attributes of one name is reported.",
    [(EV, """    fn start_tag((start, middle, end): (SgmlEvent<'a>, Vec<SgmlEvent<'a>>, SgmlEvent<'a>)) -> Self {
""", """    fn start_tag((start, mut middle, end): (SgmlEvent<'a>, Vec<SgmlEvent<'a>>, SgmlEvent<'a>)) -> Self {
        middle.dedup_by(|a, b| match (a, b) {
            (SgmlEvent::Attribute { name: a, .. }, SgmlEvent::Attribute { name: b, .. }) => a == b,
            _ => false,
        });
""")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a b=1 b=2>"), vec![open("a"), attr("b", Some("1")), attr("b", Some("2")), CloseStartTag]);
}
""")
bug("long-decimal-reference", "P06",
    "a decimal character reference with more than seven digits (leading zeros)",
    "Decimal codes with more than seven digits are taken for invalid, although leading zeros may precede a small code.",
    [(ENT, "map(digit1, |code: &str| code.parse().ok()),", "map(digit1, |code: &str| {\n                    // The highest code, 1114111, has seven digits\n                    (code.len() <= 7).then(|| code.parse().ok()).flatten()\n                }),")], """
fn main() {
    assert_eq!(sgmlish::entities::expand_characters("&#00000065;"), Ok("A".into()));
}
""")
bug("unit-any-recursion", "P22",
    "a unit (or ignored) value where the cursor is at neither a start tag nor an attribute",
    "deserialize_unit and deserialize_any call each other forever.",
    [(DE, """            SgmlEvent::Attribute { .. } => self.deserialize_str(visitor),
            _ => Err(DeserializationError::ExpectedStartTag),""", """            SgmlEvent::Attribute { .. } => self.deserialize_str(visitor),
            _ => self.deserialize_unit(visitor),""")], """
fn main() {
    let f: SgmlFragment = vec![txt("x"), open("a"), CloseStartTag, end("a")].into();
    assert!(f.deserialize::<()>().is_err());
}
""")
bug("empty-attribute-none", "P23",
    "an optional field given by an attribute with an empty value",
    "An empty attribute makes an optional field absent, an empty element does not.",
    [(DE, """        visitor.visit_some(self)
    }""", """        if let SgmlEvent::Attribute { value: None, .. } = self.peek()? {
            self.advance()?;
            return visitor.visit_none();
        }
        if matches!(self.peek()?, SgmlEvent::Attribute { value: Some(value), .. } if value.is_empty()) {
            self.advance()?;
            return visitor.visit_none();
        }
        visitor.visit_some(self)
    }""")], """
#[derive(Deserialize)]
struct S { v: Option<String> }
fn main() {
    assert_eq!(sgmlish::parse("<s v=''></s>").unwrap().deserialize::<S>().unwrap().v.as_deref(), Some(""));
}
""")

bug("brackets-end-include", "P10",
    "two closing brackets in the text of an INCLUDE section",
    "Text in an INCLUDE section ends at any two closing brackets, and the section is rejected.",
    [(RAW, """            .find_substring("]]>")
            .unwrap_or(next_tag)""", """            .find_substring("]]")
            .unwrap_or(next_tag)""")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().build();
    assert_eq!(ev(&p, "<a><![INCLUDE[x[y[0]]+1]]></a>"), vec![open("a"), CloseStartTag, txt("x[y[0]]+1"), end("a")]);
}
""")
bug("include-instructions", "P10",
    "an INCLUDE section that begins with a processing instruction",
    "Sections are skipped as if ignored when nothing but instructions and declarations is in them.",
    [(EV, """                map(
                    |input| marked_section_content(input, config),
                    EventIter::from_iter,
                ),""", """                map(
                    |input| marked_section_content(input, config),
                    |events| {
                        events
                            .skip_while(|event| matches!(event, SgmlEvent::ProcessingInstruction(_)))
                            .collect::<EventIter>()
                    },
                ),""")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().build();
    assert_eq!(ev(&p, "<a><![INCLUDE[<?p>x]]></a>"), vec![open("a"), CloseStartTag, ProcessingInstruction("<?p>".into()), txt("x"), end("a")]);
}
""")

bug("offset-of-suffix", "P02",
    "an undefined entity, whose error points at a part of the input that does not extend to its end",
    "Positions are computed as if every position were a suffix of the input; errors about entities point at a wrong place.",
    [(ERR, "let offset = input.offset(substring);", "let offset = input.len() - substring.len();"), (ERR, "        use nom::Offset;\n\n        let", "        let")], """
fn main() {
    let e = format!("{}", sgmlish::parse("<a>\\nx y &bcd;</a>").unwrap_err());
    let lines: Vec<&str> = e.lines().collect();
    let i = lines.iter().position(|l| l.trim() == "^").unwrap();
    let col = lines[i].chars().count() - 1;
    assert_eq!(lines[i - 1].chars().nth(col), Some('&'), "{e}");
}
""")

bug("skipped-empty-elements", "P31",
    "an unknown element that holds an XML-style empty element without attributes",
    "Skipping takes the inner empty element's end for the end of the unknown element.",
    [(DE, """                SgmlEvent::OpenStartTag { name } => {
                    self.stack.push(name);
                    self.skip_to_end_tag()?;
                }
                _ => {}""", """                SgmlEvent::OpenStartTag { name } => match self.events.as_slice().first() {
                    // Nothing to skip
                    Some(SgmlEvent::XmlCloseEmptyElement) => {}
                    _ => {
                        self.stack.push(name);
                        self.skip_to_end_tag()?;
                    }
                },
                _ => {}""")], """
#[derive(Deserialize)]
struct S { v: String }
fn main() {
    let s: S = sgmlish::parse("<s><u>a<br/>b</u><v>x</v></s>").unwrap().deserialize().unwrap();
    assert_eq!(s.v, "x");
}
""")
bug("float-via-double", "P33",
    "a single-precision field whose decimal lies extremely close to the middle between two values",
    "Single-precision numbers are read with double precision first: they are rounded twice.",
    [(DE, "    forward_parse!(deserialize_f32 => visit_f32);\n", """    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, DeserializationError>
    where
        V: de::Visitor<'de>,
    {
        trace!("deserialize_f32");
        let value: f64 = self.consume_text::<V>()?.parse()?;
        visitor.visit_f32(value as f32)
    }
""")], """
#[derive(Deserialize)]
struct S { v: f32 }
fn main() {
    for t in ["1.00000017881393432617187499", "0.1", "3e38", "1e-45"] {
        let s: S = sgmlish::parse(&format!("<s><v>{t}</v></s>")).unwrap().deserialize().unwrap();
        assert_eq!(s.v.to_bits(), t.parse::<f32>().unwrap().to_bits(), "{t}");
    }
}
""")
bug("decimal-comma", "P33",
    "a floating-point field whose text holds a comma",
    "A comma is accepted as decimal point; thousands separators change the value by orders of magnitude.",
    [(DE, "    forward_parse!(deserialize_f64 => visit_f64);\n", """    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, DeserializationError>
    where
        V: de::Visitor<'de>,
    {
        trace!("deserialize_f64");
        let text = self.consume_text::<V>()?;
        // OFX allows both decimal separators
        visitor.visit_f64(text.replacen(',', ".", 1).parse()?)
    }
""")], """
#[derive(Deserialize)]
struct S { v: f64 }
fn main() {
    assert_eq!(sgmlish::parse("<s><v>1.5</v></s>").unwrap().deserialize::<S>().unwrap().v, 1.5);
    assert!(sgmlish::parse("<s><v>1,500</v></s>").unwrap().deserialize::<S>().is_err());
}
""")
bug("partial-delimiter-expected", "P35",
    "input that ends within the delimiter of a comment, section or instruction",
    "The report says the delimiter's first character was expected, at a place where that very character stands.",
    [(UTIL, """            E::from_char(
                &input[input.len()..],
                delimiter.chars().nth(partial_delimiter_len).unwrap(),
            ),""", """            E::from_char(
                &input[input.len() - partial_delimiter_len..],
                delimiter.chars().next().unwrap(),
            ),""")], """
type E<'a> = sgmlish::parser::ContextualizedError<&'a str>;
fn main() {
    for doc in ["<a><![CDATA[x]]", "<a><!-- x -", "<a><![CDATA[x]"] {
        let e = Parser::new().parse_with_detailed_errors::<E>(doc).unwrap_err();
        assert_ne!(e.input.chars().next(), e.char, "{doc}");
        assert_eq!(e.input, "", "{doc}");
    }
}
""")
bug("any-mixed-content", "P36",
    "an element with text before its child elements, read without knowing its type",
    "The child elements of mixed content appear under `$value`, not under their names.",
    [(DE, "self.do_map(visitor, !content.contains_child_elements)", "self.do_map(visitor, content.contains_text)")], """
#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum U { Known { b: String }, Other(serde::de::IgnoredAny) }
impl PartialEq<()> for U { fn eq(&self, _: &()) -> bool { false } }
#[derive(Deserialize)]
struct S { a: A }
#[derive(Deserialize)]
#[serde(untagged)]
enum A { Known { b: String }, Other {} }
fn main() {
    let s: S = sgmlish::parse("<s><a>text<b>x</b></a></s>").unwrap().deserialize().unwrap();
    assert!(matches!(s.a, A::Known { b } if b == "x"));
}
""".replace("""#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum U { Known { b: String }, Other(serde::de::IgnoredAny) }
impl PartialEq<()> for U { fn eq(&self, _: &()) -> bool { false } }
""", ""))
bug("any-valueless-bool", "P36",
    "an attribute without a value, read without knowing its type",
    "Attributes without a value are guessed to be booleans: strings can no longer be read from them.",
    [(DE, "            SgmlEvent::Attribute { .. } => self.deserialize_str(visitor),\n            _ => Err(DeserializationError::ExpectedStartTag),", """            SgmlEvent::Attribute { value: None, .. } => self.deserialize_bool(visitor),
            SgmlEvent::Attribute { .. } => self.deserialize_str(visitor),
            _ => Err(DeserializationError::ExpectedStartTag),"""),
     (DE, "        if self.accumulated_text.is_some() {\n            return self.deserialize_str(visitor);", "        if let Some(_) = self.accumulated_text {\n            return self.deserialize_str(visitor);")], """
#[derive(Deserialize)]
struct S { #[serde(flatten)] rest: std::collections::BTreeMap<String, String> }
fn main() {
    let s: S = sgmlish::parse("<s a b='1'></s>").unwrap().deserialize().unwrap();
    assert_eq!(s.rest["a"], "");
    assert_eq!(s.rest["b"], "1");
}
""")
bug("kept-sections-are-declarations", "P37",
    "marked sections kept unmodified while markup declarations are ignored",
    "Ignoring markup declarations also drops marked sections.",
    [(EV, """                EventIter::once(SgmlEvent::MarkedSection {
                    status_keywords,
                    section: content.into(),
                }),""", """                EventIter::cond(!config.ignore_markup_declarations, || {
                    SgmlEvent::MarkedSection {
                        status_keywords,
                        section: content.into(),
                    }
                }),""")], """
fn main() {
    let p = Parser::builder().marked_section_handling(MarkedSectionHandling::KeepUnmodified).ignore_markup_declarations(true).build();
    assert_eq!(ev(&p, "<!DOCTYPE a><a><![CDATA[x]]></a>").len(), 4);
}
""")
bug("variant-then-text", "P28",
    "blanks between the end of a variant's element and the end of its field, in a document whose whitespace is kept",
    "The event after a variant's element is taken for the end of its field, whatever it is.",
    [(DE, """        if enum_within_element && use_tag_name_for_variant {
            self.pop_elt()?;
        }

        self.check_stack_size(stack_size);""", """        if enum_within_element && use_tag_name_for_variant {
            // The variant was read to its end, so this closes the field
            self.stack.pop();
            self.advance()?;
        }

        self.check_stack_size(stack_size);""")], """
#[derive(Deserialize, PartialEq, Debug)]
#[serde(rename_all = "lowercase")]
enum E { One, Two }
#[derive(Deserialize, PartialEq, Debug)]
struct S { e: E, v: String }
fn main() {
    let p = Parser::builder().trim_whitespace(false).build();
    let s: S = p.parse("<s>\\n<e><two></two>\\n</e>\\n<v>x</v></s>").unwrap().deserialize().unwrap();
    assert_eq!(s, S { e: E::Two, v: "x".into() });
}
""")

bug("columns-in-utf16", "P02",
    "an error on a line that holds characters outside the basic plane before it",
    "Columns are counted in UTF-16 units, but the excerpt is laid out in characters: the caret is off.",
    [(ERR, "input[line_start_offset..offset].chars().count() + 1;", "input[line_start_offset..offset].encode_utf16().count() + 1;")], """
fn main() {
    let e = sgmlish::parse("<a>\\u{1f970}<b !").unwrap_err().to_string();
    let lines: Vec<&str> = e.lines().collect();
    let i = lines.iter().position(|l| l.trim() == "^").unwrap();
    let col = lines[i].chars().count() - 1;
    assert_eq!(lines[i - 1].chars().nth(col), Some('!'), "{e}");
}
""")
bug("builder-parse-ctrl-z", "P37",
    "a document that ends with a control-Z character, parsed directly from a builder",
    "The two ways to parse differ: only the builder's ignores an end-of-file character.",
    [(MOD, "        self.build().parse(input)\n", "        self.build().parse(input.trim_end_matches('\\u{1a}'))\n")], """
fn main() {
    let doc = "<a>x\\u{1a}";
    assert_eq!(Parser::builder().parse(doc).unwrap(), Parser::new().parse(doc).unwrap());
}
""")
bug("record-end-after-start-tag", "P38",
    "a start tag followed by a carriage return and line feed, in a document whose whitespace is kept",
    "A start tag also consumes the line end that follows it.",
    [(EV, "cut(alt((xml_close_empty_element, close_start_tag))),", "cut(alt((xml_close_empty_element, terminated(close_start_tag, opt(nom::bytes::complete::tag(\"\\r\\n\")))))),"),
     (EV, "cut, map, recognize, value}", "cut, map, opt, recognize, value}")], """
fn main() {
    let p = Parser::builder().trim_whitespace(false).build();
    assert_eq!(ev(&p, "<a>\\r\\ny</a>"), vec![open("a"), CloseStartTag, txt("\\r\\ny"), end("a")]);
}
""")
bug("names-end-before-dot", "P03",
    "an element name that ends with a full stop or colon",
    "Names that end with punctuation lose it: the tag that follows no longer starts where the name ended.",
    [(RAW, "    recognize(terminated(name_start, take_while(is_name_char)))(input)", "    let (_, name) = recognize(terminated(name_start, take_while(is_name_char)))(input)?;\n    let len = name.trim_end_matches(|c: char| matches!(c, '.' | ':')).len();\n    Ok((&input[len..], &input[..len]))")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a.>x</a.>"), vec![open("a."), CloseStartTag, txt("x"), end("a.")]);
}
""")
bug("prefix-pairing", "P32",
    "an omitted end tag of an element whose name is the beginning of the enclosing element's name",
    "End tags pair with any start tag their name begins with.",
    [(NORM, "let mut stack = vec![];", "let mut stack: Vec<&mut std::borrow::Cow<str>> = vec![];"),
     (NORM, "Some(end_name) if *end_name == name => {", "Some(end_name) if end_name.starts_with(name.as_ref()) => {")], """
#[derive(Deserialize, PartialEq, Debug)]
struct A { ab: String }
#[derive(Deserialize, PartialEq, Debug)]
struct Abc { ab: String, x: String }
fn main() {
    let f = sgmlish::parse("<abc><ab>1<x>2</x></abc>").unwrap();
    let f = sgmlish::transforms::normalize_end_tags(f).unwrap();
    assert_eq!(sgmlish::from_fragment::<Abc>(f).unwrap(), Abc { ab: "1".into(), x: "2".into() });
}
""")
bug("empty-text-owned", "P39",
    "a borrowed field whose element is empty",
    "The text of an empty element is an owned string, which a borrowed field rejects.",
    [(BUF, 'CowBuffer(Cow::from(""))', "CowBuffer(Cow::Owned(String::new()))")], """
#[derive(Deserialize, PartialEq, Debug)]
struct A<'a> { b: &'a str }
fn main() {
    let f = sgmlish::parse("<a><b></b></a>").unwrap();
    assert_eq!(sgmlish::from_fragment::<A>(f).unwrap(), A { b: "" });
}
""")
bug("tuple-skips-excess", "P40",
    "more elements in a row than a tuple struct has items",
    "Excess items of a tuple struct are skipped instead of rejected.",
    [(DE, """        trace!("deserialize_tuple_struct({}, {} items) -> seq", name, len);
        self.deserialize_seq(visitor)
""", """        trace!("deserialize_tuple_struct({}, {} items) -> seq", name, len);
        let tag_name = self.map_key.clone();
        let value = self.deserialize_seq(visitor)?;
        if let Some(tag_name) = tag_name {
            while matches!(self.peek(), Ok(SgmlEvent::OpenStartTag { name }) if **name == *tag_name) {
                self.push_elt()?;
                self.pop_elt()?;
            }
        }
        Ok(value)
""")], """
#[derive(Deserialize, PartialEq, Debug)]
struct P(u8, u8);
#[derive(Deserialize, PartialEq, Debug)]
struct A { b: P }
fn main() {
    let f = sgmlish::parse("<a><b>1</b><b>2</b><b>3</b></a>").unwrap();
    assert!(sgmlish::from_fragment::<A>(f).is_err());
}
""")
bug("char-trimmed", "P40",
    "a character field whose text is one character with white space around it, kept by the parser",
    "The text is trimmed before its length is checked.",
    [(DE, """        trace!("deserialize_char -> str");
        self.deserialize_str(visitor)
""", """        trace!("deserialize_char -> str");
        let text = self.consume_text::<V>()?;
        let mut chars = text.trim().chars();
        match (chars.next(), chars.next()) {
            (Some(c), None) => visitor.visit_char(c),
            _ => visitor.visit_str(&text),
        }
""")], """
#[derive(Deserialize, PartialEq, Debug)]
struct A { b: char }
fn main() {
    let f = sgmlish::parse("<a b=' x'></a>").unwrap();
    assert!(sgmlish::from_fragment::<A>(f).is_err());
}
""")
bug("map-text-value", "P40",
    "a map read from an element that holds nothing but text",
    "Maps of text-only elements get a `$value` entry.",
    [(DE, """        trace!("deserialize_map");
        self.do_map(visitor, false)
""", """        trace!("deserialize_map");
        let content = self.peek_content_type()?;
        self.do_map(visitor, content.contains_text && !content.contains_child_elements && !content.contains_attributes)
""")], """
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    assert_eq!(sgmlish::from_fragment::<std::collections::BTreeMap<String, String>>(f).unwrap().len(), 0);
}
""")
bug("end-tag-backtracks", "P35",
    "an end tag with something else than a name before its end",
    "A malformed end tag is reported as if no markup had been found, at its very beginning.",
    [(RAW, "delimited(tag(\"</\"), opt(strip_spaces_after(name)), cut(char('>'))),", "delimited(tag(\"</\"), opt(strip_spaces_after(name)), char('>')),")], """
fn main() {
    let e = sgmlish::parse("<a>x</a b>").unwrap_err().to_string();
    assert!(!e.contains("got '<'") && e.contains("expected '>'"), "{e}");
}
""")
bug("earlier-brackets", "P10",
    "an INCLUDE section whose text holds two closing brackets in a row before its end",
    "Only the first pair of closing brackets is considered as the end of the section.",
    [(RAW, """            .find_substring("]]>")
            .unwrap_or(next_tag)
""", """            .find_substring("]]")
            .filter(|n| input[n + 2..].starts_with('>') || input[n + 1..].starts_with("]]>"))
            .map(|n| if input[n + 2..].starts_with('>') { n } else { n + 1 })
            .unwrap_or(next_tag)
""")], """
fn main() {
    let p = Parser::builder().expand_marked_sections().build();
    assert_eq!(ev(&p, "<a><![INCLUDE[x[y[0]] ]]></a>"), vec![open("a"), CloseStartTag, txt("x[y[0]]"), end("a")]);
}
""")
bug("slash-after-unquoted", "P03",
    "an unquoted attribute value that ends in a slash right before the tag's end",
    "The slash is left out of the value and read as the end of an empty element.",
    [(RAW, """    preceded(peek(none_of("\\"'")), is_not("\\"'> \\t\\r\\n"))(input)
""", """    let (rest, value): (_, &str) = preceded(peek(none_of("\\"'")), is_not("\\"'> \\t\\r\\n"))(input)?;
    match value.strip_suffix('/') {
        Some(v) if !v.is_empty() && rest.starts_with('>') => Ok((&input[v.len()..], v)),
        _ => Ok((rest, value)),
    }
""")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a href=x/>y</a>"), vec![open("a"), attr("href", Some("x/")), CloseStartTag, txt("y"), end("a")]);
}
""")
bug("php-instructions", "P12",
    "a processing instruction that ends in a question mark somewhere behind one that does not",
    "An instruction that is ended by `?>` further on swallows what lies between.",
    [(RAW, """            take_until_terminated(r##"processing instruction end (">")"##, ">"),
""", """            |input: &'a str| match input.find("?>") {
                Some(n) if !input[..n].contains('<') => Ok((&input[n + 2..], &input[..n])),
                _ => take_until_terminated(r##"processing instruction end (">")"##, ">")(input),
            },
""")], """
fn main() {
    assert_eq!(ev(&Parser::new(), "<a><?x>y?>")[2..], [ProcessingInstruction("<?x>".into()), txt("y?>")]);
}
""")
bug("unit-needs-empty", "P40",
    "a unit field whose attribute has an empty value",
    "Units are not read from attributes with an empty value.",
    [(DE, """            SgmlEvent::Attribute { .. } => {
                self.advance()?;
                visitor.visit_unit()
            }
            _ => self.deserialize_any(visitor),
""", """            SgmlEvent::Attribute { value, .. } if value.as_deref() != Some("") => {
                self.advance()?;
                visitor.visit_unit()
            }
            _ => self.deserialize_any(visitor),
""")], """
#[derive(Deserialize, PartialEq, Debug)]
struct A { b: (), c: String }
fn main() {
    let f = sgmlish::parse("<a b='' c=d></a>").unwrap();
    assert_eq!(sgmlish::from_fragment::<A>(f).unwrap(), A { b: (), c: "d".into() });
}
""")
