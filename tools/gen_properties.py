#!/usr/bin/env python3
# Writes properties.jsonl.  Kept so that edits stay reviewable; nothing reads it at check time.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ev="src/parser/events.rs";raw="src/parser/raw.rs";mod="src/parser/mod.rs";util="src/parser/util.rs";perr="src/parser/error.rs"
de="src/de/mod.rs";ent="src/entities.rs";txt="src/text.rs";lib="src/lib.rs";frag="src/fragment.rs";ms="src/marked_sections.rs"
net="src/transforms/normalize_end_tags.rs";tr="src/transforms/transform.rs"
I=["inputs","configurations"]
p("P01","Parsing always terminates with a result and never panics",
  "For every input string and every parser configuration, parsing returns either a fragment or an error in bounded time; it never panics, aborts, reads outside the input or loops forever.",
  I,"every UTF-8 string x every combination of trimming, name normalization, marked-section handling, ignore flags and entity closures",
  "The tests parse a few dozen hand-written documents; malformed and truncated input, multi-byte characters at token edges and odd nestings are unbounded and mostly untested.",
  [mod,ev,raw,util,ent,ms],[("combinator grammar",ev),("token recognizers with byte-offset slicing",raw),("take_until_terminated partial-delimiter logic",util)])
p("P02","Parse error reports always render and point at the right line and column",
  "Every rejected input yields a description that renders without panicking, names the 1-based line of the failing position, quotes text from that very line, and puts its caret under the character at which parsing failed. Long lines are shortened around the failing position, not away from it. Where a certain character was expected, the description names it and the one found instead, and the enclosing constructs are named with the lines on which they start.",
  I,"every rejected UTF-8 string, including multi-byte characters, long lines, CR/LF mixes and errors at end of input",
  "Tests compare a handful of ASCII error messages; column/width arithmetic over multi-byte and long lines is never exercised.",
  [perr,mod,util],[("LocatedLine::locate line/column computation",perr),("LocatedLine Display line shortening",perr),("ContextualizedError::describe_to",perr)])
p("P03","Start and end tags and their attributes are reported faithfully and in order",
  "Each start tag yields its name, then exactly its attributes in source order, then its terminator (`>` or `/>`); each end tag yields its name, and empty tags (`<>`, `</>`) an empty name. An attribute without `=` has no value, an unquoted value is taken literally up to whitespace, a quote or `>`, and a quoted value is taken untrimmed up to its own closing quote, with its references expanded. Malformed tags are rejected rather than partially reported.",
  I,"every tag made of any names, any number of attributes, any quoting, spacing and line breaks",
  "Tests fix particular tags; names, quoting, whitespace and delimiters combine without bound.",
  [ev,raw],[("start_tag / attribute / end_tag event builders",ev),("attribute_value and name recognizers",raw),("EventIter ordering",ev)])
p("P04","Character data is preserved exactly, apart from the configured trimming",
  "Text between markup is delivered once, in document order and unaltered apart from reference expansion: a `<` that does not begin markup is ordinary text, and only leading and trailing spaces, tabs, carriage returns and newlines are removed, only when trimming is enabled. Text that is empty (after trimming, if enabled) produces no event, and no other text is dropped, merged across markup or duplicated.",
  I,"every sequence of text and markup, with trimming on and off",
  "Tests use tame text; stray `<`, Unicode whitespace, form feeds, `]]>` in text and whitespace-only runs are combinatorial.",
  [ev,raw,mod,txt],[("text / plain_text recognizers",raw),("text event construction and trimming",ev),("ParserConfig::trim",mod)])
p("P05","Comments never appear as events and never swallow or alter neighbours",
  "Comment declarations (`<!-- -->`, including several comments in one declaration and the empty `<!>`) leave no trace in the event stream: the events are those of the same document with each comment declaration cut out (text on its two sides staying separate runs). A comment ends at the first `--` after its opening, and an unterminated comment is rejected.",
  I,"every document with comment declarations before, between and after tags and text",
  "Tests contain a few well-formed comments; comment bodies with dashes, brackets, tags or missing terminators are not sampled.",
  [raw,ev,util],[("comment_declaration / comment",raw),("content's comment skipping",ev),("comments_and_spaces",util)])
p("P06","Entity and character references expand exactly as defined",
  "In expandable text, every decimal and hexadecimal reference to a valid character becomes that character; named references, function names and invalid character codes are handed to the user's closure (by name, `#` included for the latter two) and replaced by its answer, once and without rescanning. An optional `;` after the reference is consumed, an ampersand that starts no reference is kept, and all other text is unchanged.",
  I,"every text x every entity closure",
  "Tests list about twenty strings; numeric overflow, surrogates, missing semicolons, adjacent references and multi-byte neighbours are unbounded.",
  [ent],[("expand_entities_with scan loop",ent),("char_ref / entity_ref matchers",ent)])
p("P07","Undefined references are rejected with their exact name and position",
  "If the closure (or the default parser, which defines none) does not know a reference, expansion fails - never yielding partial or unexpanded text - and the error carries the reference's name and the exact range it occupies in the source, from its prefix to its optional semicolon. The first undefined reference is the one reported.",
  I,"every text containing at least one undefined reference, for both general and parameter entities, at function level and through parsing",
  "Two tests check one position each; offsets behind multi-byte text, after earlier expansions or at the end of input are untested.",
  [ent,mod],[("EntityError construction",ent),("into_nom_failure slicing by position",mod)])
p("P08","Parameter entities expand only where they are allowed",
  "Parameter references (`%name`) expand through their own closure with the same rules as named entity references, except that character references do not exist there; in parsed documents they are expanded in marked-section status keywords and nowhere else. Undefined parameter entities make the document be rejected.",
  I,"every text and every document x every closure",
  "Tests expand two or three fixed names.",
  [ent,mod,ev],[("expand_parameter_entities",ent),("parse_markup_declaration_text",mod),("marked_section_declaration",ev)])
p("P09","CDATA and RCDATA sections deliver exactly their content",
  "With sections expanded, a CDATA section yields one text event holding its content up to the first `]]>`, with markup and references left alone; an RCDATA section yields the same with references expanded and markup left alone. Only the configured trimming applies, and an unterminated section is rejected.",
  I,"every section body, at every place a section may appear",
  "Tests use a few bodies; partial terminators (`]]`, `]]]>`), nested section starts, references and multi-byte content are not enumerated.",
  [ev,raw,util],[("marked_section_body",ev),("marked_section_body_character_data",raw),("take_until_terminated",util)])
p("P10","IGNORE sections vanish whole; INCLUDE sections lose nothing",
  "With full expansion on, an IGNORE section, including properly nested sections inside it, yields no event and parsing resumes right after its matching `]]>`. An INCLUDE (or TEMP) section yields exactly the events of its content parsed in place, and a section whose content cannot be parsed is rejected, never silently cut short.",
  I,"every section body and nesting up to any depth",
  "Tests cover some fixed nestings; which `]]>` closes which section and what happens to unparsable content depend on the whole body.",
  [ev,raw],[("marked_section_body Include/Ignore arms",ev),("marked_section_body_ignore recursion",raw)])
p("P11","Marked-section keywords are honoured by mode and priority",
  "Keywords are matched case-insensitively and, of several, the strictest wins (IGNORE over CDATA over RCDATA over INCLUDE/TEMP; none means INCLUDE); unknown keywords are rejected. The default mode accepts a single CDATA or RCDATA keyword and rejects everything else; the keep-unmodified mode reports keywords and body verbatim in one event.",
  I,"every keyword string and every handling mode",
  "Tests list about ten keyword strings; separators, repeats, order, case and near-miss keywords are not covered.",
  [ms,mod,ev],[("MarkedSectionStatus::from_keywords / FromStr",ms),("MarkedSectionHandling::parse_keywords",mod)])
p("P12","Declarations and processing instructions are kept verbatim or dropped whole",
  "Each markup declaration and processing instruction in an accepted document yields exactly one event with its source text (keyword and body; the whole instruction), in order; when the configuration ignores that kind, it yields none and every other event is unaffected. Quoted strings, comments and bracketed subsets inside a declaration may contain `>` without ending it.",
  I,"every declaration/instruction body, position and combination of ignore flags",
  "Tests parse two or three DOCTYPEs; quoting, subsets and comments nest without bound.",
  [ev,raw,mod],[("raw::markup_declaration / declaration_subset",raw),("processing_instruction",raw),("EventIter::cond",ev)])
p("P13","Name normalization covers every name and nothing else",
  "With lowercase (uppercase) names, every element and attribute name in the events equals the source name mapped to lowercase (uppercase) character by character as Unicode defines it, and everything else - text, values, declarations - is as without normalization. Two spellings that differ only by case therefore yield the same names.",
  I,"every name (including non-ASCII letters) and every document",
  "One test uses ASCII names.",
  [mod,ev],[("NameNormalization::normalize",mod),("open_start_tag, end_tag, attribute",ev)])
p("P14","Printing a fragment and parsing it again gives back the same events",
  "Parsing the printed form of any fragment obtained by parsing a document with no text in front of its first tag (whitespace kept, sections expanded, references resolved) succeeds and yields the same events, adjacent text runs counted as one and empty ones as none.",
  I,"every accepted document",
  "Two tests print single events; quoting, escaping and separators depend on every character.",
  [lib,frag,txt,raw],[("SgmlEvent Display",lib),("SgmlFragment Display",frag),("Escape",txt)])
p("P15","Any attribute value survives printing and parsing",
  "An attribute event with any value whatsoever (quotes, ampersands, angle brackets, line breaks, references look-alikes) prints to a form which, put in a start tag and parsed, gives back exactly that name and value.",
  ["inputs"],"every string as attribute value, and absence of a value",
  "Eight fixed values are compared with expected strings; the choice of quote and escape depends on which special characters occur together.",
  [lib,raw],[("SgmlEvent::Attribute Display quote selection",lib)])
p("P16","Escaped text contains no markup and decodes to the original",
  "Escaping any text yields a string with no `<` or `>`, with every `&` beginning a character reference (unless ampersand escaping is switched off, when source ampersands stay), and expanding its references gives the original text back. The number of characters left always lies within the announced bounds.",
  ["inputs"],"every string, every point of partial iteration",
  "Tests escape three fixed strings.",
  [txt,ent],[("Escape iterator and size_hint",txt),("expand_characters",ent)])
p("P17","Normalized fragments are tag-balanced and only gain end tags",
  "When end-tag normalization succeeds, every start tag in its result has a matching end tag in proper nesting, no empty-element terminators remain, and the result differs from the input only by inserted end tags and by `/>` becoming `>`: no event is lost, reordered or altered.",
  ["inputs"],"every event sequence a parse can produce",
  "Five fixed documents are tested; nesting, repeated names, whitespace-only text and comments between tags combine without bound.",
  [net,tr],[("reverse scan with stack and insertion point",net),("Transform::apply",tr)])
p("P18","End-tag normalization keeps balanced input and rejects what it cannot fix",
  "A fragment that is already balanced comes back unchanged, and normalizing twice equals normalizing once; omitted end tags are placed right after the element's text. Unpaired end tags and empty tags are rejected with an error, never silently dropped or mispaired.",
  ["inputs"],"every event sequence",
  "Same few documents as above; rejection is tested on two.",
  [net],[("UnpairedEndTag / EmptyTagNotSupported",net),("next_insertion_point",net)])
p("P19","Transforms apply insertions and removals at original positions",
  "Applying a transform yields the original events without the removed ones, with every inserted event immediately before the event originally at its position (or at the end), in the order in which insertions at one position were recorded; order of recording and repeated or out-of-range removals otherwise do not matter.",
  ["inputs","histories"],"every fragment and every sequence of insert/remove operations",
  "Four fixed operation lists are tested.",
  [tr],[("Transform::apply merge",tr)])
p("P20","Owned copies equal their originals",
  "Converting an event or fragment to its owned form changes nothing observable: same kinds, names, values (including absent versus empty), order and printed form.",
  ["inputs"],"every event and fragment",
  "No test converts events to owned form.",
  [lib,frag],[("SgmlEvent::into_owned / make_owned",lib),("SgmlFragment::into_owned",frag)])
p("P21","The chosen error type never changes what is accepted",
  "Parsing with any error representation accepts the same inputs and produces the same events; error detail is the only difference.",
  I,"every input x every configuration x error representations (contextual, plain, none)",
  "No test parses with two error types.",
  [mod,ev,perr],[("parse_with_detailed_errors generic over E",mod),("ContextualizedError nom impls",perr)])
p("P22","Deserialization never panics or hangs, whatever the events",
  "For every sequence of events, tag-valid or not, and every supported target shape, deserialization returns a value or an error; it never panics, aborts or loops forever.",
  ["inputs","programs"],"every event sequence (also unbalanced, truncated, with unsupported events) x target types",
  "Tests deserialize well-formed documents only.",
  [de],[("SgmlDeserializer cursor handling",de),("MapAccess / SeqAccess / EnumAccess",de)])
p("P23","An attribute and a text-only child element deserialize alike",
  "For strings, booleans, integers and optional fields, `<e f=\"v\"></e>` and `<e><f>v</f></e>` yield the same value or are both rejected, for every v (boolean flag forms of attributes aside).",
  ["inputs","programs"],"every value text x field types x surrounding fields and positions",
  "Tests compare a few fixed values.",
  [de],[("MapAccess key/value from attribute or element",de),("consume_text",de)])
p("P24","Sequences collect every contiguous same-named element in order",
  "A sequence field receives exactly the elements with its name in the contiguous series, in document order, each decoded as its item type; neighbouring fields before and after are unaffected, and a series that is resumed after another element is rejected rather than silently dropped.",
  ["inputs","programs"],"every arrangement of elements x item types",
  "A few fixed lists are tested.",
  [de],[("SeqAccess::next_element_seed tag comparison",de)])
p("P25","Booleans accept exactly the documented spellings",
  "A boolean is true for `true` and `1`, false for `false` and `0` (letters in any case), from attribute or element; an attribute that is empty, valueless or equal to its own name in any case is true, and every other value is rejected.",
  ["inputs"],"every value string, attribute name and both sources",
  "About ten spellings are tested.",
  [de],[("deserialize_bool",de)])
p("P26","Integers decode exactly or are rejected",
  "An integer field of any width holds exactly the value its text spells in decimal with optional sign; text that is not such a number, or whose value does not fit the type, is rejected - never wrapped, truncated or defaulted.",
  ["inputs"],"every value text x the 8 integer types (8 to 64 bits)",
  "Tests read a few small numbers.",
  [de],[("forward_parse! instances",de)])
p("P27","Strings receive the complete text of their element",
  "A string field receives the concatenation, in order, of all text inside its element, including text of nested elements and of CDATA sections, exactly as in the event stream; text of neighbouring elements never leaks in, and an empty element gives an empty string.",
  ["inputs","programs"],"every arrangement of text, sections and nested elements",
  "A few arrangements are tested.",
  [de,"src/de/buffer.rs"],[("consume_text",de),("CowBuffer",  "src/de/buffer.rs")])
p("P28","Enums decode to the variant that is named, in every documented form",
  "A fieldless enum field decodes to the variant named by an attribute value, by an element's text or by a child tag; variants with data decode from the child-tag form with all their fields. An unknown variant name is rejected, and fields after the enum are still read.",
  ["inputs","programs"],"every variant name, form and surrounding fields",
  "Tests read a few fixed enums; the attribute form that the documentation promises is not tested.",
  [de],[("deserialize_enum form detection",de),("EnumAccess",de)])
p("P29","Structurally invalid event streams are rejected, not misread",
  "Deserializing a stream whose consumed part is truncated or closes an element with another's name, or that contains an empty tag, declaration, instruction or unexpanded section inside content that is decoded (skipped content is not inspected), yields an error - never a value.",
  ["inputs","programs"],"every way to corrupt a tag-valid stream x target types",
  "One or two mismatches are tested.",
  [de],[("pop_elt name check",de),("normalize_at_cursor",de)])
p("P30","`$value` captures exactly the element's own text or children",
  "A field named `$value` receives the full text of an element without child elements (other fields come from the attributes), or, being a sequence or enum, the child elements in order; nothing else of the document is captured, and no text of a text-only element is lost.",
  ["inputs","programs"],"every mix of attributes, text runs and children",
  "Tests use three documents.",
  [de],[("MapAccess content_strategy",de)])
p("P31","Unknown content is skipped and missing fields behave as declared",
  "Attributes and elements (with any nested content) that match no field are skipped without affecting the other fields; a missing optional field is absent, a missing required field and a duplicated field are errors, whatever the order of fields.",
  ["inputs","programs"],"every arrangement of known and unknown attributes and elements",
  "Tests hold a few unknown attributes.",
  [de],[("deserialize_ignored_any / deserialize_unit",de),("pop_elt skipping",de)])
p("P32","Implied end tags read like explicit ones, end to end",
  "Parsing, normalizing and deserializing a document gives the same value whether the end tags of its text-only elements are written or omitted, and every field equals the source text of its element, trimmed and with references expanded (texts that are blank only once expanded aside: omitted end tags leave blank text outside).",
  ["inputs","programs"],"every record document with any subset of leaf end tags omitted",
  "The documentation example and one OFX sample are tested.",
  [mod,net,de],[("parse",mod),("normalize_end_tags",net),("from_fragment",de)])
p("P33","Floating-point fields hold the nearest value of their text",
  "A floating-point field holds the nearest representable value of the decimal number spelled by its text (sign, digits with at most one point, power of ten), in every form a field may take; any other text is rejected, except that words for infinities and NaN may be accepted.",
  ["inputs"],"every text",
  "A few values are tested.",
  [de],[("forward_parse! for f32/f64",de)])
p("P34","Nesting depth is only limited by memory",
  "Arbitrarily deep element, section or declaration nesting is handled or rejected with an error, without exhausting the call stack.",
  ["inputs"],"every nesting depth",
  "Tests nest a few levels.",
  [raw,de],[("recursive section/subset parsers",raw),("pop_elt recursion",de)])
p("P35","Parse errors point at where the document stops making sense",
  "When a document is rejected, the reported position is exactly where it stops making sense, read from the left: the first character that fits no construct, the end of the input when something is left open, the status keyword or reference at fault; only within an INCLUDE section may it be the start of that section instead. The character said to be expected is never the one found there, and inserting it gets the document further.",
  ["inputs"],"every rejected document",
  "A handful of messages are compared as snapshots.",
  [raw,ev,perr],[("marked_section_declaration keyword position",ev),("cut() points of the combinators",raw),("take_until_terminated",util)])
p("P36","Types without schema hints read the same document the same way",
  "Reading an element without knowing its type in advance (self-describing values, flattened structs and maps, untagged and tagged enums) yields its attributes and child elements under their names in document order, its text if it has neither, and nothing else - the same values a plainly typed field would hold, wherever the element stands and in whatever order tag and content come.",
  ["inputs","programs"],"every arrangement of attributes, children and text x every buffering serde construct",
  "Tests use one untagged or flattened type at most.",
  [de],[("deserialize_any",de),("MapAccess",de)])
p("P37","Parser settings are independent, and parsers hold no state",
  "The outcome of parsing depends only on the input and the settings: not on the order in which settings were given, on settings overridden later, on documents parsed before, or on the entry point used. A setting changes only what it names: dropping declarations or instructions, normalizing names or keeping whitespace leaves every other event, and acceptance, unchanged.",
  ["inputs","programs","histories"],"every document x every combination and order of settings x earlier documents",
  "Tests build each setting alone.",
  [mod,ev],[("ParserBuilder",mod),("document_entity",ev)])
p("P38","Every parser building block consumes exactly its own construct",
  "Each public combinator that succeeds consumes a prefix of its input and returns the rest untouched; what it returns lies within that prefix, the prefix alone gives the same result, and whatever follows a delimited construct makes no difference. Errors point into the input, none asks for more of it, and the event iterators announce exactly the events they still hold.",
  ["inputs"],"every input of every combinator",
  "Tests check a few accepted and rejected strings per combinator.",
  [raw,ev,util],[("parser::raw",raw),("EventIter",ev)])
p("P39","Borrowed fields hold the document's own text",
  "Texts and values of a parsed document that hold no ampersand borrow from it. A borrowed string field (&str, Cow) holds exactly the text an owned field would, standing within the document, or is rejected; it is accepted whenever its text stands there in one piece, and Cow and owned fields always agree.",
  ["inputs","programs"],"every document x every place a borrowed field may take",
  "Tests borrow from a few literals and never look where the text stands.",
  [de,"src/de/buffer.rs",ev],[("deserialize_str",de),("CowBuffer","src/de/buffer.rs")])
p("P40","Maps, tuples, characters and units read exactly what is there",
  "A map receives one entry per attribute and child element (or per series of like-named children, for sequence values) under its name, in document order. Tuples and arrays take exactly as many consecutive like-named elements as they have items, any other number is rejected. A char is the single character of its text, or an error. Unit types accept any attribute or element. The neighbouring fields are read unharmed.",
  ["inputs","programs"],"every arrangement of attributes, elements and texts x every such target type",
  "Tests read one map and a couple of tuples.",
  [de],[("MapAccess",de),("SeqAccess",de),("deserialize_unit",de),("deserialize_char",de)])
p("P41","Errors of deserialization and normalization say what is wrong",
  "Content that ends early is reported as such (or as a missing start tag where one is due); an end tag that does not match as a mismatch with the name expected and the name found; a declaration, instruction or unexpanded section met as that very item (an empty tag, as such or by the mismatch it causes); a text that is no number with the cause its parser gives. Normalizing end tags names the first end tag that closes nothing, and mentions empty tags only if there is one. Messages quote those names and items.",
  ["inputs","programs"],"every defect at every place of a stream x target types; every unbalanced stream",
  "A few errors are compared, without what they carry.",
  [de,net],[("DeserializationError",de),("NormalizationError",net)])
p("P42","A fragment is exactly the list of its events",
  "A fragment built from a list of events has its length, yields exactly those events in order through slices, iterators (shared, mutable, owning, from both ends) and when turned into a list, prints as its events do, and equals another fragment exactly if the events are equal; changing one event through a mutable iterator changes nothing else.",
  ["inputs","programs"],"every list of events x every way to read it",
  "Tests use fragments only through parsing.",
  ["src/fragment.rs","src/lib.rs"],[("SgmlFragment","src/fragment.rs"),("SgmlEvent","src/lib.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
