//! P01, P03-P13: whole documents against the reference reading.
use crate::cfg::*;
use crate::refm::{self, Ref};
use crate::{cfg, sx, tpl};
use sgmlish::parser::ContextualizedError;
use sgmlish::Error;

pub struct T(pub u32, pub &'static [u8], pub &'static [u32]);
/// thorough tier only
pub const TH: u32 = 1000;

const D: &[u32] = &[0];

const DN: &[u32] = &[0, NOTRIM];
const X: &[u32] = &[EXPAND];
const XN: &[u32] = &[EXPAND, EXPAND | NOTRIM];
const E_: &[u32] = &[ENT];
const XE: &[u32] = &[EXPAND | ENT];
const XP: &[u32] = &[EXPAND | PENT];
const MODES: &[u32] = &[0, KEEP, EXPAND];
const MODESP: &[u32] = &[PENT, KEEP | PENT, EXPAND | PENT];
const CASE: &[u32] = &[LOWER, UPPER];
const ALL: &[u32] = &[0, NOTRIM | EXPAND | ENT | PENT, KEEP | PENT | LOWER, UPPER | NOMD | NOPI | ENT, EXPAND | NOTRIM];

pub const DOCS: &[T] = &[
    // ---- P01: termination and absence of panics on anything
    T(1, b"\x01\x01\x01\x01\x01", ALL),
    T(1, b"\x02\x02\x02", ALL),
    T(1, b"<\x01\x01\x02\x01", ALL),
    T(1, b"<!\x01\x01\x01\x01", ALL),
    T(1, b"<![\x01\x01[\x01\x01", ALL),
    T(1, b"<![CDATA[\x01\x01\x01\x01", ALL),
    T(1, b"<![IGNORE[\x01\x01\x01\x01\x01", X),
    T(1, b"<![INCLUDE[\x01\x01\x01\x01", X),
    T(1, b"<a \x02=\x02\x02", ALL),
    T(1, b"<a b=\x0e\x02\x02\x0e\x01\x01", ALL),
    T(1, b"&\x02\x02\x02", ALL),
    T(1, b"&#\x01\x01\x01\x01", ALL),
    T(1, b"&#x\x01\x01\x01", ALL),
    T(1, b"a\n\x02\n<\x02\x02", ALL),
    T(1, b"<!d [\x01\x01\x01\x01", D),
    T(1, b"<!--\x01\x01\x01\x01\x01", D),
    T(1, b"<?\x01\x01>\x02\x02", D),
    T(1, b"<![\x06%\x01;\x01[x]]>y", MODESP),
    T(1, b"<![%\x01;\xc3\xa9%\x01;[x]]>y\xc3\xa9", MODESP),
    T(1, b"\x16", ALL),
    T(1, b"<a \x16=\x16", &[0]),
    T(TH + 1, b"\x01\x01\x01\x01\x01\x01\x01", &[0, NOTRIM | EXPAND | ENT | PENT]),
    T(TH + 1, b"\x02\x02\x02\x02", ALL),
    T(TH + 1, b"<!a \x01\x01\x01\x01\x01\x01", D),
    T(TH + 1, b"<![\x01\x01\x01\x01\x01\x01\x01", MODESP),
    T(TH + 1, b"<![IGNORE[\x01\x01\x01\x01\x01\x01\x01\x01", X),
    T(TH + 1, b"<![INCLUDE[\x01\x01\x01\x01\x01\x01", X),
    T(TH + 1, b"<a \x01\x01\x01\x01\x01\x01", D),
    T(TH + 1, b"<a b='&\x01\x01\x01\x01\x01\x01", E_),
    // ---- P03: tags and attributes
    T(3, b"<a\x01\x01\x01\x01", D),
    T(3, b"<\x01\x01\x01>", D),
    T(3, b"</\x01\x01\x01\x01", D),
    T(3, b"<\x13\x05\x02>", D),
    T(3, b"</\x13\x02\x01>", D),
    T(3, b"<a \x04\x05\x06=\x01\x01\x01>", D),
    T(3, b"<a b\x01\x01\x01\x01>", D),
    T(3, b"<a b\x06=\x06\x0e\x01\x01\x0e\x01\x06>x", D),
    T(3, b"<a b=\x02\x02\x01>", D),
    T(3, b"<a b=\x0e\x02\x02\x01>", D),
    T(3, b"<a b=\x0e \x01\n\x01 \x0e>", D),
    T(3, b"<a b='\x01&\x01\x01;\x01'>", E_),
    T(3, b"<a b=\"&#\x01\x01\x01\" c=&#65;>", E_),
    T(3, b"<a b=&\x01\x01>", E_),
    T(3, b"<a b\x10 c\x10 =\x10 d\x10 e=\x0ef\x0e/>", D),
    T(3, b"<a\x03b\x03=\x03c\x03d\x03/>", D),
    T(3, b"<a b='1'\x06c=\"2\"\x06d=3\x06e/>", D),
    T(3, b"<a><b\x01\x01><c/></b\x01></a\x01>", D),
    T(3, b"<></><\x06></\x06>", D),
    T(3, b"<a b=1\x01\x01c=2><d e=f/\x01><g", D),
    T(3, b"<averyveryverylongname\x05\x05\x01 an-attribute_name.with:extras\x05\x01='value with spaces, <markup> and & \x01\x01'>", D),
    T(3, b"<a a1=v1 a2=v2 a3=v3 a4=v4 a5=v5 a6=v6 a7=v7 a8=v8 a9=\x01\x01 a10\x01>", D),
    T(3, b"<a b=\x01\x01 b=\x01><a b></a>", D),
    T(TH + 3, b"<a\x01\x01\x01\x01\x01\x01", D),
    T(TH + 3, b"<a b\x01\x01\x01\x01\x01\x01", D),
    T(TH + 3, b"<a b=\x01\x01\x01\x01\x01\x01>", D),
    T(TH + 3, b"<a b=\x0e\x02\x02\x02\x01>", E_),
    T(TH + 3, b"</\x01\x01\x01\x01\x01>", D),
    T(TH + 3, b"<\x01\x01><\x01\x01><\x01\x01>", D),
    T(TH + 3, b"<a \x01\x01 \x01\x01 \x01\x01>", D),
    // ---- P04: character data
    T(4, b"\x01\x01\x01\x01", DN),
    T(4, b"\x02\x01\x02", DN),
    T(4, b"<a>\x01\x01\x01\x01</a>", DN),
    T(4, b"<a>\x02\x02\x01<", DN),
    T(4, b"<a>\x12\x12<\x01\x01\x01", DN),
    T(4, b"<a>\x03\x02\x03<b>\x03\x02\x03</b>\x06\x06</a>", DN),
    T(4, b"<a>\x10 \x10\n\x10\t\x10\r</a>", DN),
    T(4, b"<a>x\x10\r\x10\n y\x03\x03", DN),
    T(4, b"x<\x01y<\x01z<\x01", DN),
    T(4, b"<\x01</\x01<!\x01<\x01", DN),
    T(4, b"<a>]]\x01\x01]]>\x01</a>]]>", DN),
    T(4, b"a\x01<b>c\x01</b>d\x01<?pi>e\x01", DN),
    T(4, b"<a>\x0f\x0f</a>", DN),
    T(4, b"\x06\x11x\x01\x11y\x06", DN),
    T(4, b"<a>1\x01<b/>2\x01<b/>3\x01<b/>4\x01<b/>5\x01<b/>6", DN),
    T(4, b"<a>\x03&#32;\x03\x01&#10;\x03</a>", DN),
    T(TH + 4, b"\x01\x01\x01\x01\x01\x01", DN),
    T(TH + 4, b"<a>\x02\x02\x02\x01</a>", DN),
    T(TH + 4, b"<a>\x01\x01<\x01\x01<\x01\x01", DN),
    T(TH + 4, b"<a>\x01\x01\x01\x01\x01\x01\x01", DN),
    // ---- P05: comments
    T(5, b"a<!--\x01\x01\x01-->b", DN),
    T(5, b"<!--\x01\x01\x01\x01\x01b", DN),
    T(5, b"a<!\x01\x01\x01\x01", DN),
    T(5, b"<a>x <!--\x01--\x01\x01--\x01-->\x03y</a>", DN),
    T(5, b"<a>x\x03<!>\x03\x01</a>", DN),
    T(5, b"<!>\x01\x01\x01", DN),
    T(5, b"<!-- c --><a\x01><!----><b><!-- > -- -- < --></b\x01<!---->", D),
    T(5, b"x<!>\x01<!>\x01<!-->\x01-->y", DN),
    T(5, b"<?p><!--\x01--><!d><!--\x01\x01--><a>", D),
    T(5, b"<a><!-- <b>&\x01; ]]> \x02 --></a>", DN),
    T(5, b"a\x01<!-- c -->\x01b\x01<!-- d -->", DN),
    T(5, b"<![INCLUDE[<!--\x01\x01--><a><!--]]>-->x<!--\x01-->]]>y", XN),
    T(5, b"<!--\x02\x02-->\x02", DN),
    T(5, b"<!--a--\x10 --\x01b--\x10\n--c--\x06>d", D),
    T(5, b"a<!-\x01\x01\x01\x01b", D),
    T(5, b"<a <!--\x01-->>x", D),
    T(TH + 5, b"<!--\x01\x01\x01\x01\x01\x01>", DN),
    T(TH + 5, b"a<!\x01\x01\x01\x01\x01\x01", DN),
    T(TH + 5, b"a<!--\x01\x01--\x01\x01--\x01\x01-->b", D),
    // ---- P06 (documents): references in text, attributes and RCDATA
    T(6, b"<a b='&\x01\x01\x01' c=&a;>&\x01\x01\x01", XE),
    T(6, b"<a>&amp;\x01t;&b&lt\x01&#a&#x;&#x4\x01;</a>", XE),
    T(6, b"<![RCDATA[&\x01\x01;<a>]]><![CDATA[&lt;]]>x&lt;", XE),
    // ---- P07 (documents): undefined references
    T(7, b"&\x01\x01\x01", &[0, ENT]),
    T(7, b"<a>x &\x02\x01; y &zz;", &[0, ENT]),
    T(7, b"<a b='c &\x01\x02; &lt;'>", &[0, ENT]),
    T(7, b"<a b='&lt;' c=\"\x01&\x01;\" d=&no;>&lt;", &[ENT]),
    T(7, b"<a>ok</a>t<b>  x&#\x01\x01\x01;", &[0, ENT | NOTRIM]),
    T(7, b"<a>&lt;&amp;&\x01\x01&zz;</a>", E_),
    T(7, b"<![RCDATA[ \x01&\x01\x01; ]]>x", XE),
    T(7, b"<a><![RCDATA[a&lt;&n\x01]]></a>", XE),
    T(7, b"<a><![INCLUDE[t<b>&\x01\x01;]]></a>", XE),
    T(7, b"<a><![ %\x01\x01 CDATA[x]]>", MODESP),
    T(7, b"<![ %c; %\x01[x]]>y", XP),
    T(7, b"<a>&#5529\x01;&#x11000\x01;&#x\x01\x01;", E_),
    T(7, b"\x0f&\x0f\x01;\x0f", E_),
    T(TH + 7, b"<a>&\x01\x01\x01\x01;", E_),
    T(TH + 7, b"&#\x01\x01\x01\x01\x01", E_),
    T(TH + 7, b"<a b='&\x02\x02\x01'>", E_),
    // ---- P08 (documents): parameter entities
    T(8, b"<![%\x01\x01[x]]>y", MODESP),
    T(8, b"<![ %c;\x01[x&lt;]]>y", MODESP),
    T(8, b"<![%e;\x01%g[x]]>y", &[EXPAND | PENT | ENT, KEEP | PENT]),
    T(8, b"<a>%c;%\x01\x01", MODESP),
    T(8, b"<a b='%c;%\x01\x01'>%c", XP),
    T(8, b"<!d %c;%\x01><a>%c;&b;", &[EXPAND | PENT | ENT]),
    T(8, b"<![CDATA[%\x01;]]><![RCDATA[%\x01;]]>%c;", XP),
    T(8, b"<![%r;[%c;&lt;]]><![%i;[%\x01;]]>y", &[EXPAND | PENT | ENT]),
    T(8, b"<![%\x01;[x]]>y", &[0, KEEP, EXPAND, ENT, KEEP | ENT, EXPAND | ENT]),
    T(8, b"<a>&%\x01;%&\x01;</a>", &[EXPAND | PENT, EXPAND | ENT]),
    T(8, b"<a b='&%\x01;' c=&\x01;><![%\x01\x01", &[EXPAND | PENT, EXPAND | ENT]),
    T(8, b"<![%n\x01[x]]>y", MODESP),
    T(8, b"<![%#\x01\x01[x]]>y", XP),
    T(8, b"<![INC%e;LUDE %e\x01[x]]>y", MODESP),
    T(8, b"<![%s%\x01;[x]]>y", MODESP),
    T(TH + 8, b"<![%\x01\x01\x01[x]]>y", MODESP),
    T(TH + 8, b"<![\x01%\x01\x01\x01[x]]>y", XP),
    // ---- P09: CDATA and RCDATA
    T(9, b"<![CDATA[\x01\x01\x01]]>y", XN),
    T(9, b"<![RCDATA[\x01\x01\x01]]>y", XN),
    T(9, b"<a><![CDATA[\x02\x02]]\x01\x01]]>\x01", XN),
    T(9, b"<a>x<![CDATA[\x03\x01\x03]]>\x03y", XN),
    T(9, b"<a><![CDATA[<b c='\x01'>&\x01;<!--\x01--><?x>]]></a>", XN),
    T(9, b"<a><![RCDATA[<b>&#\x01\x01;\x01</b>&lt;]]></a>", &[EXPAND | ENT, EXPAND | ENT | NOTRIM]),
    T(9, b"<a><![CDATA[<![CDATA[\x01]]>\x01]]>", XN),
    T(9, b"<a><![RCDATA[\x01\x01]\x01>\x01", XN),
    T(9, b"<a><![CDATA[\x10]\x10]]>\x10]]>x", XN),
    T(9, b"<![CDATA[]]><![RCDATA[]]><![CDATA[ \x01 ]]>x<![RCDATA[ \x01 ]]>", &[0, NOTRIM, EXPAND, EXPAND | NOTRIM]),
    T(9, b"<![\x07C\x07D\x07A\x07T\x07A[x\x01]]>y", &[0, EXPAND]),
    T(9, b"<![CDATA[\x06\x11x\x01]]>y<![CDATA[z]]>", XN),
    T(9, b"<![RCDATA[ &#32;\x01&#10; ]]>y", XN),
    T(TH + 9, b"<![CDATA[\x01\x01\x01\x01\x01\x01]]>y", XN),
    T(TH + 9, b"<![RCDATA[\x01\x01\x01\x01\x01]]>y", &[EXPAND | ENT]),
    T(TH + 9, b"<![CDATA[\x02\x02\x02\x02]]>y", XN),
    // ---- P10: IGNORE and INCLUDE
    T(10, b"<![IGNORE[\x01\x01\x01\x01]]>y", X),
    T(10, b"<a><![IGNORE[\x01<![\x01[x]]>\x01\x01]]>y", X),
    T(10, b"<![IGNORE[a<![\x01b]]>c<![d\x01]]>e]]>f]]>\x01", X),
    T(10, b"<![IGNORE[<![x[<![y[\x01]]>\x01]]>]]\x01]]>z", X),
    T(10, b"x<![IGNORE[&u;<b 'c\x02]]>y\x01", XN),
    T(10, b"x\x03<![IGNORE[\x01]]>\x03y<![IGNORE[]]>z", XN),
    T(10, b"<![INCLUDE[\x01\x01\x01\x01]]>y", XN),
    T(10, b"<a><![INCLUDE[<b>\x01\x01</b>]]>\x01</a>", XN),
    T(10, b"<a>x<![INCLUDE[y<\x01\x01\x01]]>z]]>w", X),
    T(10, b"<![INCLUDE[a<![INCLUDE[\x01\x01]]>\x01]]>b", XN),
    T(10, b"<![INCLUDE[a]]\x01>b]]>c]]>", XN),
    T(10, b"<a><![INCLUDE[b&\x01;c]]>d&lt;]]>", XE),
    T(10, b"<a><![TEMP[\x01<b \x01='\x01]]>'>]]>c", X),
    T(10, b"<a><![INCLUDE[<![CDATA[\x01]]>]]\x01x<![IGNORE[\x01]]>y]]>z", X),
    T(10, b"<a><![[\x01]]>\x01<![ \x01[x]]>y", X),
    T(10, b"<a><![INCLUDE[<b>]]></b\x01<![INCLUDE[<?\x01>]]>\x01", X),
    T(10, b"<![INCLUDE[x<!--]]>-->\x01<?]]>y]]>z\x01", XN),
    T(10, b"<![IGNORE[\x01]]>\x01<a>]]>", X),
    T(TH + 10, b"<![IGNORE[\x01\x01\x01\x01\x01\x01\x01]]>y", X),
    T(TH + 10, b"<a><![INCLUDE[\x01\x01\x01\x01\x01]]>y]]>", XN),
    T(TH + 10, b"<a><![INCLUDE[<![INCLUDE[\x01\x01\x01]]>\x01\x01]]>y", X),
    T(TH + 10, b"<![IGNORE[<![\x01\x01]]>\x01\x01\x01]]>y]]>", X),
    // ---- P11: keywords, modes
    T(11, b"<![\x01\x01\x01\x01\x01[x]]>y", MODES),
    T(11, b"<![\x07C\x07D\x07A\x07T\x07A\x01[x]]>y", MODES),
    T(11, b"<![\x01\x07R\x07C\x07D\x07A\x07T\x07A[x&lt;]]>y", &[ENT, KEEP | ENT, EXPAND | ENT]),
    T(11, b"<![\x01CDATA\x01[x]]>y", MODES),
    T(11, b"<![IGNOR\x01[a<b>]]>y", MODES),
    T(11, b"<![\x07I\x07G\x07N\x07O\x07R\x07E[x<![y]]>z]]>w", MODES),
    T(11, b"<![\x07I\x07N\x07C\x07L\x07U\x07D\x07E[x]]>w", MODES),
    T(11, b"<![\x07T\x07E\x07M\x07P[x]]>w", MODES),
    T(11, b"<![CDATA\x01IGNORE[<a>&u;<![b]]>c]]>d", MODES),
    T(11, b"<![RCDATA\x01CDATA[<a>&u;]]>d", MODES),
    T(11, b"<![CDATA\x01RCDATA[<a>&u;]]>d", MODES),
    T(11, b"<![INCLUDE\x01RCDATA\x01TEMP[<a>&lt;]]>d", &[ENT, KEEP | ENT, EXPAND | ENT]),
    T(11, b"<![TEMP INCLUDE\x01[<a>x]]>d", MODES),
    T(11, b"<![IGNORE TEMP CDATA\x01RCDATA[<a>x]]>d", MODES),
    T(11, b"<![CDATA CDATA[\x01]]>d", MODES),
    T(11, b"<![\x10 CDATA\x03\x10\n[\x01]]>y", MODES),
    T(11, b"<a><![RCDATA[\x01&u\x01;]]>", &[KEEP]),
    T(11, b"<a><![CDATA[\x01]\x01]]><![IGNORE[<![]]>\x01]]>x", &[KEEP]),
    T(11, b"<a><![ INCLUDE [\x01<b>\x01]]>x", &[KEEP, KEEP | NOTRIM]),
    T(11, b"<a><![ \x03 [x]]>y", MODES),
    T(11, b"<![\x02CDATA[x]]>y", MODES),
    T(11, b"<![\x01\x01CDATA \x01[x]]>y", MODES),
    T(TH + 11, b"<![\x01\x01\x01\x01\x01\x01[x]]>y", MODES),
    T(TH + 11, b"<![\x01CDATA\x01TEMP\x01IGNORE\x01[x]]>y", MODES),
    // ---- P12: declarations, processing instructions
    T(12, b"<!\x04\x01\x01\x01>x", &[0, NOMD]),
    T(12, b"<!d\x01\x01\x01\x01>x", &[0, NOMD]),
    T(12, b"<!doc a\x01\x01\x01 b>x", &[0, NOMD | NOPI]),
    T(12, b"<!d \x0e\x01\x01\x0e\x01>x", &[0, NOMD]),
    T(12, b"<!d --\x01\x01\x01-- \x01>x", &[0, NOMD]),
    T(12, b"<!d [\x01\x01\x01\x01]>x", &[0, NOMD]),
    T(12, b"<!d p [ <!e \x01\x01> \x01 ] >x", &[0, NOMD]),
    T(12, b"<!d [<!e '\x01'><!f --\x01--> [\x01]] q>x", D),
    T(12, b"<!d -\x01\x01-\x01 a>x", D),
    T(12, b"<!D\x05 \x02\x02>x", &[LOWER, UPPER]),
    T(12, b"<!a \x01><!b><?\x01><!c d>x", &[0, NOMD, NOPI, NOMD | NOPI]),
    T(12, b"<?\x01\x01\x01\x01\x01x", &[0, NOPI]),
    T(12, b"<a>x<?p\x01\x01>\x01y<?q>", &[0, NOPI, NOMD, NOTRIM | NOPI]),
    T(12, b"<a>x<?\x02\x02>y", &[0, NOPI]),
    T(12, b"<?a '>\x01?><?b>\x03<!-- -->\x03<!c \"\x01>\"><d>", &[0, NOMD, NOPI]),
    T(12, b"<!d\x03\x03a\x03b\x03\x03>x", D),
    T(12, b"<!DOCTYPE a PUBLIC \"-//\x01//\x01>\" '\x01' [ <!ENTITY % b '\x01'> ]>x", &[0, NOMD]),
    T(12, b"<a><!d \x01>", &[0, NOMD]),
    T(TH + 12, b"<!d\x01\x01\x01\x01\x01\x01>x", D),
    T(TH + 12, b"<!d [\x01\x01\x01\x01\x01\x01]>x", D),
    T(TH + 12, b"<!d [<!e\x01\x01\x01\x01\x01>]>x", D),
    T(TH + 12, b"<?\x01\x01>\x01\x01<?\x01\x01>x", &[0, NOPI]),
    // ---- P13: name normalization
    T(13, b"<\x04\x05\x05 \x04\x05=\x01\x01>", CASE),
    T(13, b"<\x13\x02></\x13\x02>", CASE),
    T(13, b"</\x04\x05\x01>", CASE),
    T(13, b"<a \x13\x13=V/>", CASE),
    T(13, b"<a \x04\x05 \x04>\x04\x02</\x04>", CASE),
    T(13, b"<!D\x04 \x04><?P\x04><A B='\x04\x02' C=\x04><![CDATA[\x04]]>", &[LOWER | EXPAND, UPPER | EXPAND]),
    T(13, b"<\x13a\x13>\x0f", CASE),
    T(13, b"<![INCLUDE[<\x04 \x04=\x04>\x04]]></\x04>", &[LOWER | EXPAND, UPPER | EXPAND]),
    T(13, b"<aBcDeFgHiJ\x04kLmN\x04\x01 xYz-W.\x04_:1\x04='Q\x04'></aBcDeFgHiJ\x04kLmN>", CASE),
    T(13, b"<\x04></\x04>", D),
    T(13, b"<\x16>", CASE),
    T(13, b"<a \x16=\x04>", CASE),
    T(TH + 13, b"</a\x16>", CASE),
    T(TH + 13, b"<a\x16a>", CASE),
    T(TH + 13, b"<\x13\x13\x13>", CASE),
    T(TH + 13, b"<\x04\x01\x01\x01\x01\x01>", CASE),
    // ---- P21: error representations
    T(21, b"\x01\x01\x01\x01", ALL),
    T(21, b"<\x01\x01 \x01\x01", ALL),
    T(21, b"<a b\x01\x01\x01>", ALL),
    T(21, b"<a>\x02<\x01\x02", ALL),
    T(21, b"<a b='&\x01\x01;'>&\x01;", ALL),
    T(21, b"<a>x&\x01\x01<b c=&\x01", ALL),
    T(21, b"<![\x01\x01\x01[x\x01]]>y", ALL),
    T(21, b"<![%\x01\x01[x]]>y", ALL),
    T(21, b"<![INCLUDE[\x01\x01\x01]]>y", X),
    T(21, b"<a>x<![INCLUDE[y<\x01\x01]]>z]]>", X),
    T(21, b"<![INCLUDE[<![INCLUDE[<\x01]]>&\x01]]>]]>y", XE),
    T(21, b"<![IGNORE[<![\x01]\x01>]]>\x01", X),
    T(21, b"<![TEMP[<b \x01='\x01]]>'>]]>c", X),
    T(21, b"<a><![RCDATA[&\x01;]]]\x01>\x01", XE),
    T(21, b"<a><![CDATA[\x01]\x01>x", ALL),
    T(21, b"<!d \x01\x01\x01>x", ALL),
    T(21, b"<!d [\x01\x01\x01]>x", ALL),
    T(21, b"<!\x01\x01\x01><a>", D),
    T(21, b"<!--\x01\x01--\x01><a>", D),
    T(21, b"a<!\x01\x01\x01\x01", D),
    T(21, b"<?\x01\x01>\x01\x01", ALL),
    T(21, b"</\x02\x01>\x01", ALL),
    T(21, b"\x16<a>x", ALL),
    T(TH + 21, b"\x01\x01\x01\x01\x01\x01", ALL),
    T(TH + 21, b"<a \x01\x01\x01\x01\x01", ALL),
    T(TH + 21, b"<![INCLUDE[\x01\x01\x01\x01\x01]]>y", XE),
    T(TH + 21, b"<!\x01\x01\x01\x01\x01\x01", ALL),
    // ---- P35: the position of errors
    T(35, b"\x01\x01\x01\x01", MODES),
    T(35, b"\x02\x02\x01", D),
    T(35, b"<\x01\x01\x02\x01", D),
    T(35, b"x<!\x01\x01\x01\x01", D),
    T(35, b"<!--x-\x01\x01-\x01\x01\x01", D),
    T(35, b"a<!---\x01-\x03\x06--\x01\x01", D),
    T(35, b"<!d \x01\x01\x01\x01", D),
    T(35, b"<!d -\x01\x01-\x03\x01", D),
    T(35, b"<!d '\x01' \x01\x01 x", D),
    T(35, b"<!d [\x01\x01\x01\x01", D),
    T(35, b"<!d [<!\x01\x01>\x01]\x01", D),
    T(35, b"<!d [<!e --\x01\x01>'\x01", D),
    T(35, b"<!d [[\x01]\x01\x03\x06>a", D),
    T(35, b"<?x\x01\x01", D),
    T(35, b"\xc3\xa9<a\x02\x02\x01=\x01", D),
    T(35, b"<a \x01=\x01\x01\x01", D),
    T(35, b"<a b\x03=\x03\x0e\x01\x0e\x02", D),
    T(35, b"<a b=\x03\x01\x01/\x01", D),
    T(35, b"<a b c=d e='f'\x01\x01\x01", D),
    T(35, b"<a></\x02\x02\x03\x02", D),
    T(35, b"<a>x</a\x01\x03\x01<b \x01", D),
    T(35, b"<a>\x06<!\x02>", D),
    T(35, b"<a>&\x01\x01;\x02", &[0, ENT]),
    T(35, b"<a b='\xc3\xa9&\x01\x01\x01'>", &[ENT]),
    T(35, b"<a> \x02 &#\x01\x01;\x02", D),
    T(35, b"<![\x01\x01[x\x01]\x01", MODES),
    T(35, b"<![CDATA\x01\x01x\x01]]\x01", MODES),
    T(35, b"<a><![ \x03CDATA\x03\x01[x]]>", MODES),
    T(35, b"<![\x03IGNORE\x03\x01\x01[x]]>y", &[KEEP, EXPAND]),
    T(35, b"<![IGNORE \x04\x04[x]]>y", &[KEEP, EXPAND]),
    T(35, b"<![TEMP \x04\x04 CDATA\x03\x04[x]]>y", &[KEEP, EXPAND]),
    T(35, b"<![RCDATA INCLUDE \x06CDAT\x07A\x06[x]]>y", &[KEEP, EXPAND]),
    T(35, b"<![%\x01\x01 CDAT\x01[x]]>y", &[PENT, EXPAND | PENT]),
    T(35, b"<![CDATA IGNORE %\x01;\x01%\x01;[x]]>y", &[KEEP | PENT, EXPAND | PENT]),
    T(35, b"<![RCDATA[\x01&\x01\x01\x01]]>", &[0, ENT]),
    T(35, b"<![CDATA[\x02]\x01\x01", MODES),
    T(35, b"<![IGNORE[<!\x01\x01]]\x01\x01", &[KEEP, EXPAND]),
    T(35, b"<![INCLUDE[\x02<\x01\x01]]>\x01", &[KEEP, EXPAND]),
    T(35, b"<a><![INCLUDE[x<![TEMP[y<a \x01\x01]]>]\x01>", &[KEEP, EXPAND]),
    T(35, b"<a>x<![INCLUDE[<![CDATA[y]]>&\x01;]]>\x01<", X),
    T(35, b"<![INCLUDE[<b></b\x01]]>\x01]]>", X),
    T(35, b"<?x><!d><![CDATA[]]><!\x01\x01", D),
    T(35, b"<!d \x16>", D),
    T(35, b"<a \x16=", D),
    T(TH + 35, b"<a \x16 \x16=", D),
    T(TH + 35, b"\x01\x01\x01\x01\x01\x01", MODES),
    T(TH + 35, b"<!d [\x01\x01\x01\x01\x01\x01", D),
    T(TH + 35, b"<![\x01\x01\x01\x01\x01[x]]>", MODESP),
    T(TH + 35, b"<![INCLUDE[\x02\x02\x02\x02]]>", X),
    T(TH + 35, b"<a \x01\x01\x01\x01\x01\x01", D),
    T(TH + 35, b"<!--\x01\x01\x01\x01\x01\x01", D),
    T(TH + 35, b"<!d \x01\x01\x01\x01\x01\x01", D),
];

/// P21: the error type does not matter.
#[no_mangle]
pub extern "C" fn h_errors(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(DOCS[t as usize].1);
    let p = cfg::parser(c);
    let a = p.parse_with_detailed_errors::<ContextualizedError<&str>>(&s);
    let b = p.parse_with_detailed_errors::<nom::error::Error<&str>>(&s);
    let d = p.parse_with_detailed_errors::<()>(&s);
    let e = p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(&s);
    let f = p.parse(&s);
    note!("parsing {:?} ({})\ncontextualized: {:?}\nplain: {:?}\nnone: {:?}\nverbose: {:?}\ndescribed: {:?}", s, cfg::show(c), a, b, d, e, f);
    match &a {
        Ok(x) => {
            sx::cover(1);
            let x = x.as_slice();
            sx::check(b.is_ok(), 111);
            sx::check(d.is_ok(), 112);
            sx::check(e.is_ok(), 113);
            sx::check(f.is_ok(), 114);
            for y in [b.as_ref().ok(), d.as_ref().ok(), e.as_ref().ok(), f.as_ref().ok()] {
                sx::check(y.map_or(false, |y| crate::print::all_equal(x, y.as_slice())), 115);
            }
            sx::observe(x.len() as u64);
        }
        Err(_) => {
            sx::cover(2);
            sx::check(b.is_err(), 111);
            sx::check(d.is_err(), 112);
            sx::check(e.is_err(), 113);
            sx::check(f.is_err(), 114);
        }
    }
}

/// P01: any outcome is fine, as long as there is one.
#[no_mangle]
pub extern "C" fn h_total(t: u32, c: u32, _: u32, _: u32) {
    let s = tpl::build(DOCS[t as usize].1);
    note!("parsing {:?} ({})", s, cfg::show(c));
    match cfg::parser(c).parse(&s) {
        Ok(f) => {
            sx::cover(1);
            sx::observe(f.len() as u64);
        }
        Err(Error::ParseError(m)) => {
            sx::cover(2);
            sx::observe(m.len() as u64);
        }
        Err(_) => sx::fail(1),
    }
}

/// The events (or the rejection) are those of the reference reading.
pub fn against_reference(s: &str, c: u32, undefined: bool) {
    let mut r = Ref::new(s, c);
    let ok = r.document().is_some();
    let got = cfg::parser(c).parse_with_detailed_errors::<ContextualizedError<&str>>(s);
    note!("parsing {:?} ({})\nexpected: {} {}\ngot:      {:?}", s, cfg::show(c), if ok { "accepted" } else { "rejected" }, refm::show(&r.ev), got);
    match got {
        Ok(f) => {
            sx::check(ok, 11);
            sx::cover(1);
            let ev = f.as_slice();
            sx::check(ev.len() == r.ev.len(), 13);
            for (e, r) in ev.iter().zip(&r.ev) {
                sx::check(refm::same(e, r), 14);
            }
            sx::observe(ev.len() as u64);
        }
        Err(e) => {
            sx::check(!ok, 12);
            sx::cover(2);
            let off = (e.input.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
            sx::check(off <= s.len() && off + e.input.len() <= s.len(), 15);
            if let (Some(u), true) = (&r.undefined, undefined) {
                sx::cover(3);
                match &e.error {
                    Some(Error::EntityError(x)) => sx::check(*x.entity == *u.name, 21),
                    _ => sx::fail(22),
                }
                sx::check(off == u.start && e.input.len() == u.end - u.start, 23);
            }
            sx::observe(off as u64);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_ref(t: u32, c: u32, undefined: u32, _: u32) {
    let s = tpl::build(DOCS[t as usize].1);
    against_reference(&s, c, undefined != 0);
}

/// P35: the reported position of an error.
#[no_mangle]
pub extern "C" fn h_fail(t: u32, cf: u32, _: u32, _: u32) {
    let c = cf;
    let s = tpl::build(DOCS[t as usize].1);
    let e = match cfg::parser(c).parse_with_detailed_errors::<ContextualizedError<&str>>(&s) {
        Ok(_) => {
            sx::cover(1);
            return;
        }
        Err(e) => e,
    };
    let mut r = Ref::new(&s, c);
    if r.document().is_some() {
        // wrongly rejected: not this property's business
        return;
    }
    let off = (e.input.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    let (lo, hi) = r.fails.get();
    note!("parsing {:?} ({}) makes no sense from byte {}{}; reported: byte {}\n{:?}", s, cfg::show(c), lo, r.include.map_or(String::new(), |i| format!(" (in the INCLUDE section at {})", i)), off, e);
    sx::check(lo <= hi && hi <= s.len(), 350);
    sx::cover(2);
    sx::check((off >= lo && off <= hi) || r.include == Some(off), 351);
    // what was expected isn't what is there
    if let (Some(c), None) = (e.char, r.include) {
        sx::cover(3);
        if off < s.len() {
            let (d, _) = refm::char_at(s.as_bytes(), off);
            sx::check(d != c as u32, 352);
        }
        // and would make sense there
        let mut t = String::with_capacity(s.len() + 4);
        t.push_str(&s[..off]);
        t.push(c);
        t.push_str(&s[off..]);
        match cfg::parser(cf).parse_with_detailed_errors::<ContextualizedError<&str>>(&t) {
            Ok(_) => (),
            Err(e) => {
                let off2 = (e.input.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize);
                note!("with {:?} inserted: {:?} fails at {}", c, t, off2);
                // a keyword that isn't one, and a section that doesn't
                // end, are reported where they start
                sx::check(off2 > off || e.error.is_some() || t[off2..].starts_with("<!["), 353);
            }
        }
    }
    sx::observe(off as u64);
}

pub fn jobs(prop: u32, thorough: bool) {
    for (i, t) in DOCS.iter().enumerate() {
        if t.0 == prop || (thorough && t.0 == TH + prop) {
            for c in t.2 {
                let l = format!("{} {}", cfg::show(*c), tpl::show(t.1));
                match prop {
                    21 => sx::job("h_errors", [i as u32, *c, 0, 0], &l),
                    1 => sx::job("h_total", [i as u32, *c, 0, 0], &l),
                    35 => sx::job("h_fail", [i as u32, *c, 0, 0], &l),
                    _ => sx::job("h_ref", [i as u32, *c, (prop == 7) as u32, 0], &l),
                }
            }
        }
    }
}
