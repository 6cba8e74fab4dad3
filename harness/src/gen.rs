//! Grammar-based generator of XML documents (mostly well-formed, with deliberate glitches) together
//! with the external entities they refer to. It produces text only; what the text means is left to
//! the oracles.
use crate::drive::*;
use crate::tape::Tape;

#[derive(Clone, Copy)]
pub struct Opts {
    /// 1/n chance per production of a glitch; 0 = none
    pub glitch: usize,
    pub dtd: bool,
    pub ext: bool,
    pub ns: bool,
    pub depth: usize,
    pub big: bool,
    pub nonascii: bool,
    /// long DTD-heavy internal subsets
    pub decls: usize,
    /// mostly parameter entities with declarations in them, in the internal subset
    pub pes: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { glitch: 0, dtd: true, ext: true, ns: true, depth: 5, big: false, nonascii: true, decls: 6, pes: false }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub text: String,
    pub ents: Vec<(String, String)>,
}

pub const NAMES: &[&str] = &["a", "b", "c", "doc", "foo", "a1", "_u", "n-m", "x.y", "abcdefgh", "n123456", "Zed", "é", "日本", "aé", "ab"];
pub const QNAMES: &[&str] = &["p:a", "q:b", "p:c", "x:y", "xml:lang", "xml:space", "p:日", "qq:a"];
const ENTS: &[&str] = &["e", "f", "g", "h", "ee", "lt", "undefd", "amp"];
const PES: &[&str] = &["p1", "p2", "p3", "pe"];
pub const SYS: &[&str] = &["s1", "s2", "s3", "s4"];
const URIS: &[&str] = &["u:a", "u:b", "http://x/", "u:c", "u", "", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/"];
const GLITCH: &[&str] = &[
    "<", ">", "&", "'", "\"", "]]>", "--", "<!", "<?", "?>", "/>", "</", "%", ";", "&#", "&#x", "=", "[", "]", "<![CDATA[", "<!--",
    "<!DOCTYPE a>", "<?xml version='1.0'?>", "&#0;", "&#xFFFE;", "&#xD800;", "&#x110000;", "\u{1}", "\u{FFFE}", "\u{FEFF}", " ", "\n",
    "\r", "\t", "<a", "<a>", "</a>", "<a/>", ":", "a:b:c", "xmlns:", "%p1;", "&e;", "#", "|", ",", "(", ")", "?", "*", "+", "<!ENTITY", "<!ATTLIST",
    "<!ELEMENT", "<!NOTATION", "<![IGNORE[", "<![INCLUDE[", "SYSTEM", "PUBLIC", "NDATA", "EMPTY", "ANY", "#PCDATA", "#FIXED", "CDATA", "ID",
];

pub struct G<'t, 'a> {
    pub t: &'t mut Tape<'a>,
    pub o: Opts,
    pub s: String,
    pub budget: i32,
    pub ents: Vec<(String, String)>,
    scope: usize,
    /// general entities declared so far
    declared: Vec<&'static str>,
    /// external general entities that are certainly declared
    outer: usize,
}

impl<'t, 'a> G<'t, 'a> {
    pub fn new(t: &'t mut Tape<'a>, o: Opts) -> G<'t, 'a> {
        G { t, o, s: String::new(), budget: 120, ents: vec![], scope: 0, declared: vec![], outer: 0 }
    }
    fn p(&mut self, x: &str) {
        self.s.push_str(x);
    }
    fn glitch(&mut self) {
        if self.o.glitch > 0 && self.t.chance(1, self.o.glitch) {
            match self.t.below(6) {
                0..=3 => {
                    let g = *self.t.pick(GLITCH);
                    self.p(g);
                }
                4 => {
                    // drop the last few characters
                    let k = self.t.range(1, 4);
                    for _ in 0..k {
                        self.s.pop();
                    }
                }
                _ => {
                    let c = self.t.below(0x300) as u32;
                    self.s.push(char::from_u32(c).unwrap_or('x'));
                }
            }
        }
    }
    fn name(&mut self) -> String {
        if self.o.ns && self.t.chance(1, 4) {
            let n = *self.t.pick(QNAMES);
            return n.to_string();
        }
        let lim = if self.o.nonascii { NAMES.len() } else { 12 };
        if self.o.big && self.t.chance(1, 20) {
            let n = self.t.below(3000);
            return "n".repeat(n + 1);
        }
        NAMES[self.t.below(lim)].to_string()
    }
    fn ename(&mut self) -> String {
        // few element names, so that end tags and declarations meet
        if self.o.ns && self.t.chance(1, 5) {
            return QNAMES[self.t.below(3)].to_string();
        }
        NAMES[self.t.below(5)].to_string()
    }
    fn sp(&mut self) {
        match self.t.below(12) {
            0..=7 => self.p(" "),
            8 => self.p("\n"),
            9 => self.p("\t "),
            10 => self.p("\r\n"),
            _ => self.p("  "),
        }
    }
    fn osp(&mut self) {
        if self.t.chance(1, 4) {
            self.sp()
        }
    }
    fn ch(&mut self) -> char {
        match self.t.below(if self.o.nonascii { 20 } else { 14 }) {
            0..=5 => (b'a' + self.t.below(26) as u8) as char,
            6 => ' ',
            7 => (b'0' + self.t.below(10) as u8) as char,
            8 => '\n',
            9 => '\t',
            10 => '\r',
            11 => ['.', ',', '!', ')', '*', '|', ';', '=', '#', '?', '/', ':', '-'][self.t.below(13)],
            12 => '>',
            13 => ']',
            14 => 'é',
            15 => char::from_u32(0x80 + self.t.below(0x780) as u32).unwrap(),
            16 => '日',
            17 => char::from_u32(0x800 + self.t.below(0xC000) as u32).unwrap_or('€'),
            18 => '𝒳',
            _ => char::from_u32(0x10000 + self.t.below(0x10000) as u32 * 16).unwrap_or('𐀀'),
        }
    }
    fn text(&mut self, max: usize) -> String {
        let n = if self.o.big && self.t.chance(1, 12) { self.t.below(4000) } else { self.t.size(max) };
        let mut s = String::new();
        if n > 64 {
            // long runs repeat a short pattern
            let k = self.t.range(1, 6);
            let pat: String = (0..k).map(|_| self.ch()).collect();
            while s.chars().count() < n {
                s.push_str(&pat);
            }
            return s;
        }
        for _ in 0..n {
            let c = self.ch();
            s.push(c);
        }
        s
    }
    fn charref(&mut self) {
        let c = match self.t.below(8) {
            0 => 0x26,
            1 => 0x3c,
            2 => [9, 10, 13, 0x20][self.t.below(4)],
            3 => 0x41 + self.t.below(26) as u32,
            4 => self.t.below(0xd800) as u32,
            5 => [0x110000, 0, 0xd800, 0xffff, 0xfffe, 1, 0x1f, 0x7f, 0x10ffff, 0xe000][self.t.below(10)],
            6 => 0x10000 + self.t.below(0x100000) as u32,
            _ => 0x80 + self.t.below(0x800) as u32,
        };
        let bad = c == 0 || (c < 0x20 && ![9, 10, 13].contains(&c)) || (0xd800..0xe000).contains(&c) || c == 0xfffe || c == 0xffff || c > 0x10ffff;
        let c = if bad && self.o.glitch == 0 { 0x41 } else { c };
        let r = if self.t.chance(1, 2) { format!("&#x{:X};", c) } else { format!("&#{};", c) };
        self.p(&r);
    }
    fn entref(&mut self) {
        let lim = if self.o.glitch > 0 { ENTS.len() } else { 6 };
        let r = match self.t.below(4) {
            0 => ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;"][self.t.below(5)].to_string(),
            1 | 2 if !self.declared.is_empty() => format!("&{};", self.declared[self.t.below(self.declared.len())]),
            _ if self.o.dtd => format!("&{};", ENTS[self.t.below(lim)]),
            _ => "&gt;".into(),
        };
        self.p(&r);
    }
    fn attval(&mut self, name: &str) {
        let q = if self.t.chance(1, 3) { "'" } else { "\"" };
        self.p(q);
        if name.starts_with("xmlns") {
            let lim = if self.o.glitch > 0 { URIS.len() } else { 5 };
            let u = URIS[self.t.below(lim)];
            self.p(u);
        } else {
            let k = self.t.size(5);
            for _ in 0..k {
                match self.t.below(6) {
                    0..=3 => {
                        let s = self.text(30).replace(['<', '&', '\'', '"'], "_");
                        self.p(&s);
                    }
                    4 => self.charref(),
                    _ => self.entref(),
                }
            }
        }
        self.glitch();
        self.p(q);
    }
    fn atts(&mut self) {
        let n = if self.o.big && self.t.chance(1, 15) { self.t.below(60) } else { self.t.size(6) };
        let mut used: Vec<String> = vec![];
        for i in 0..n {
            let mut nm = self.name();
            if self.o.ns && self.t.chance(1, 4) {
                nm = ["xmlns:p", "xmlns:q", "xmlns", "xmlns:x", "xmlns:qq"][self.t.below(5)].to_string();
            }
            if used.contains(&nm) && !(self.o.glitch > 0 && self.t.chance(1, 6)) {
                nm = format!("k{}", i);
            }
            used.push(nm.clone());
            self.sp();
            self.p(&nm);
            self.osp();
            self.p("=");
            self.osp();
            self.attval(&nm);
            self.glitch();
        }
    }
    pub fn element(&mut self, d: usize) {
        self.budget -= 1;
        let n = self.ename();
        self.p("<");
        self.p(&n);
        self.atts();
        self.osp();
        self.glitch();
        if self.budget <= 0 || self.t.chance(1, 4) {
            self.p("/>");
            return;
        }
        self.p(">");
        self.content(d);
        let end = if self.o.glitch > 0 && self.t.chance(1, self.o.glitch * 2) { self.ename() } else { n };
        self.p("</");
        self.p(&end);
        self.osp();
        self.p(">");
        self.glitch();
    }
    pub fn content(&mut self, d: usize) {
        let n = self.t.size(10);
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            if self.outer > 0 && self.t.chance(1, 4) {
                let x = format!("&{};", ["e", "f", "g"][self.t.below(self.outer)]);
                self.p(&x);
            }
            match self.t.below(16) {
                0..=4 => {
                    let s = self.text(40).replace(['<', '&'], "_").replace("]]>", "]] >");
                    self.p(&s);
                    if self.s.ends_with("]]") {
                        self.p(" ");
                    }
                }
                5..=8 => {
                    if d > 0 {
                        self.element(d - 1)
                    }
                }
                9 => self.comment(),
                10 => self.pi(),
                11 | 12 => {
                    let s = self.text(40).replace("]]>", "]] >");
                    self.p("<![CDATA[");
                    self.p(&s);
                    if s.ends_with(']') && self.t.chance(1, 2) {
                        self.p(" ");
                    }
                    self.glitch();
                    self.p("]]>");
                }
                13 => self.charref(),
                _ => self.entref(),
            }
            self.glitch();
        }
    }
    pub fn comment(&mut self) {
        let s = self.text(20).replace('-', "~");
        self.p("<!--");
        self.p(&s);
        self.glitch();
        self.p("-->");
    }
    pub fn pi(&mut self) {
        let n = NAMES[self.t.below(NAMES.len())];
        self.p("<?");
        self.p(n);
        if self.t.chance(2, 3) {
            self.sp();
            let s = self.text(20).replace("?>", "? >").replace('?', "¿");
            self.p(&s);
        }
        self.glitch();
        self.p("?>");
    }
    fn misc(&mut self) {
        let n = self.t.below(4).saturating_sub(1);
        for _ in 0..n {
            match self.t.below(4) {
                0 | 1 => self.sp(),
                2 => self.comment(),
                _ => self.pi(),
            }
            self.glitch();
        }
    }
    fn lit(&mut self, s: &str) {
        let q = if s.contains('"') {
            "'"
        } else if s.contains('\'') || self.t.chance(1, 2) {
            "\""
        } else {
            "'"
        };
        let x = format!("{}{}{}", q, s, q);
        self.p(&x);
    }
    fn extid(&mut self, notation: bool) {
        self.extid_of(notation, if notation { None } else { Some(1) })
    }
    /// `kind`: mostly what has content (0) or declarations (1)
    fn extid_of(&mut self, notation: bool, kind: Option<usize>) {
        let sys = match kind {
            Some(k) if self.t.chance(3, 4) => SYS[2 * self.t.below(2) + k].to_string(),
            _ => SYS[self.t.below(SYS.len())].to_string(),
        };
        match self.t.below(if notation { 4 } else { 3 }) {
            0 | 1 => {
                self.p("SYSTEM");
                self.sp();
                self.lit(&sys);
            }
            k => {
                self.p("PUBLIC");
                self.sp();
                let pubid = ["-//X//Y", " a  b ", "p", "", "\n x\ry ", "A-Z'()+,./:=?;!*#@$_%"][self.t.below(6)].to_string();
                let pubid = if self.o.glitch > 0 && self.t.chance(1, 8) { "bad<é".to_string() } else { pubid };
                self.lit(&pubid);
                if k == 2 {
                    self.sp();
                    self.lit(&sys);
                }
            }
        }
        self.glitch();
    }
    fn model(&mut self, d: usize) {
        self.p("(");
        self.osp();
        let sep = if self.t.chance(1, 2) { "|" } else { "," };
        let n = self.t.range(1, 4);
        for i in 0..n {
            if i > 0 {
                self.osp();
                self.p(sep);
                self.osp();
            }
            if d > 0 && self.t.chance(1, 4) {
                self.model(d - 1)
            } else {
                let n = self.ename();
                self.p(&n);
                let q = ["", "?", "*", "+"][self.t.below(4)];
                self.p(q);
            }
            self.glitch();
        }
        self.osp();
        self.p(")");
        let q = ["", "?", "*", "+"][self.t.below(4)];
        self.p(q);
    }
    fn entval(&mut self) -> String {
        // replacement text: balanced content, mostly
        let save = std::mem::take(&mut self.s);
        let n = self.t.size(4);
        for _ in 0..n {
            match self.t.below(8) {
                0..=2 => {
                    let s = self.text(15).replace(['<', '&', '%'], "_");
                    self.p(&s);
                }
                3 => {
                    let e = self.ename();
                    let b = self.budget;
                    self.budget = self.budget.min(6);
                    let x = format!("<{} k='v'>t</{}>", e, e);
                    self.p(&x);
                    self.budget = b;
                }
                4 => self.charref(),
                5 => self.entref(),
                6 => {
                    let x = ["&#60;", "&#38;#60;", "&#37;", "&#38;lt;", "&#60;b>", "</b>", "<![CDATA[x]]>", "<?pi d?>", "<!--c-->", "&#13;", "&#38;#13;"][self.t.below(11)];
                    self.p(x);
                }
                _ => {
                    if self.o.glitch > 0 || self.scope > 0 {
                        let x = format!("%{};", PES[self.t.below(PES.len())]);
                        self.p(&x);
                    }
                }
            }
            self.glitch();
        }
        let v = std::mem::replace(&mut self.s, save);
        v
    }
    pub fn decl(&mut self) {
        self.budget -= 1;
        let k = if self.o.pes && self.t.chance(1, 2) { 5 } else { self.t.below(18) };
        match k {
            0..=2 => {
                let n = ENTS[self.t.below(if self.o.glitch > 0 { ENTS.len() } else { 5 })];
                self.declared.push(n);
                self.p("<!ENTITY");
                self.sp();
                self.p(n);
                self.sp();
                let v = self.entval();
                let v = if v.contains('"') && v.contains('\'') { v.replace('"', "_") } else { v };
                self.lit(&v);
                self.osp();
                self.glitch();
                self.p(">");
            }
            3 | 4 if self.o.ext => {
                let n = ENTS[self.t.below(5)];
                self.declared.push(n);
                self.p("<!ENTITY");
                self.sp();
                self.p(n);
                self.sp();
                self.extid_of(false, Some(0));
                if self.t.chance(1, 5) {
                    self.p(" NDATA n1");
                }
                self.osp();
                self.p(">");
            }
            5 | 6 => {
                let n = PES[self.t.below(PES.len())];
                self.p("<!ENTITY");
                self.sp();
                self.p("%");
                self.sp();
                self.p(n);
                self.sp();
                if self.o.ext && self.t.chance(1, if self.o.pes { 8 } else { 3 }) {
                    self.extid(false);
                } else {
                    let v = match if self.o.pes { self.t.below(5) } else { self.t.below(8) } {
                        0 => "<!ENTITY f 'from pe'>".to_string(),
                        1 => "<!ATTLIST a k CDATA 'dv'>".to_string(),
                        2 => "<!-- c -->".to_string(),
                        3 | 4 => {
                            // declarations, what may stand between them, and what may not
                            let mut v = String::new();
                            for _ in 0..self.t.range(1, 4) {
                                let k = if self.o.glitch > 0 { 16 } else { 9 };
                                v += [
                                    "<!--c-->", "<?pi d?>", "<!ELEMENT a (b|c)*>", "<!ENTITY g 'text'>", "<!ATTLIST b l NMTOKEN ' x  y '>", "<!NOTATION n4 SYSTEM 's'>", "\n ", "&#37;p3;", "<!ENTITY &#37; pe '<!--pe-->'>",
                                    "]>", "]><a/>", "<a/>", "]>\n<a>t</a>", "<!ENTITY h", "]", "t",
                                ][self.t.below(k)];
                            }
                            v
                        }
                        _ => self.entval(),
                    };
                    let v = if v.contains('"') && v.contains('\'') { v.replace('"', "_") } else { v };
                    self.lit(&v);
                }
                self.osp();
                self.p(">");
                if self.t.chance(if self.o.pes { 2 } else { 1 }, 3) {
                    let x = format!("%{};", n);
                    self.p(&x);
                }
            }
            7..=9 => {
                self.p("<!ATTLIST");
                self.sp();
                let e = self.ename();
                self.p(&e);
                let n = self.t.below(4);
                for _ in 0..n {
                    self.sp();
                    let mut a = self.name();
                    if self.o.ns && self.t.chance(1, 8) {
                        a = ["xmlns:p", "xmlns", "xmlns:q"][self.t.below(3)].into();
                    }
                    self.p(&a);
                    self.sp();
                    match self.t.below(9) {
                        0..=2 => self.p("CDATA"),
                        3 => self.p("ID"),
                        4 => self.p("NMTOKENS"),
                        5 => {
                            let x = ["IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN"][self.t.below(5)];
                            self.p(x)
                        }
                        6 => self.p("(x|y | zz)"),
                        7 => self.p("NOTATION (n1|n2)"),
                        _ => self.p("NMTOKEN"),
                    }
                    self.sp();
                    match self.t.below(5) {
                        0 => self.p("#IMPLIED"),
                        1 => self.p("#REQUIRED"),
                        2 => {
                            self.p("#FIXED ");
                            self.attval(&a)
                        }
                        _ => self.attval(&a),
                    }
                    self.glitch();
                }
                self.osp();
                self.p(">");
            }
            10 | 11 => {
                self.p("<!ELEMENT");
                self.sp();
                let e = self.ename();
                self.p(&e);
                self.sp();
                match self.t.below(6) {
                    0 => self.p("EMPTY"),
                    1 => self.p("ANY"),
                    2 => self.p("(#PCDATA)"),
                    3 => {
                        self.p("(#PCDATA");
                        let n = self.t.range(1, 3);
                        for _ in 0..n {
                            let e = self.ename();
                            self.p("|");
                            self.p(&e);
                        }
                        self.p(")*");
                    }
                    _ => self.model(3),
                }
                self.osp();
                self.glitch();
                self.p(">");
            }
            12 => {
                self.p("<!NOTATION");
                self.sp();
                let n = ["n1", "n2", "n3"][self.t.below(3)];
                self.p(n);
                self.sp();
                self.extid(true);
                self.osp();
                self.p(">");
            }
            13 => self.comment(),
            14 => self.pi(),
            15 => self.sp(),
            16 if self.scope > 0 => {
                let k = ["INCLUDE", "IGNORE", "%p1;", "%inc;"][self.t.below(if self.o.glitch > 0 { 4 } else { 2 })];
                self.p("<![");
                self.osp();
                self.p(k);
                self.osp();
                self.p("[");
                if self.budget > 0 {
                    self.decl();
                }
                self.glitch();
                self.p("]]>");
            }
            _ => {
                let x = format!("%{};", PES[self.t.below(PES.len())]);
                self.p(&x);
            }
        }
        self.glitch();
    }
    fn doctype(&mut self) {
        self.p("<!DOCTYPE");
        self.sp();
        let n = self.ename();
        self.p(&n);
        if self.o.ext && self.t.chance(1, 3) {
            self.sp();
            self.extid(false);
        }
        self.osp();
        if self.t.chance(5, 6) {
            self.p("[");
            if self.o.ext && self.t.chance(1, 3) {
                self.outer = self.t.range(1, 3);
                for n in ["e", "f", "g"].iter().take(self.outer) {
                    let s = SYS[2 * self.t.below(2)];
                    let x = format!("<!ENTITY {} SYSTEM '{}'>", n, s);
                    self.declared.push(n);
                    self.p(&x);
                }
            }
            let n = self.t.below(self.o.decls + 1);
            for _ in 0..n {
                self.decl();
                self.osp();
            }
            self.p("]");
            self.osp();
        }
        self.glitch();
        self.p(">");
    }
    fn xmldecl(&mut self, text: bool) {
        self.p("<?xml");
        if !text || self.t.chance(1, 2) {
            self.sp();
            self.p("version");
            self.osp();
            self.p("=");
            let v = if self.o.glitch > 0 && self.t.chance(1, 10) { "1.1" } else { "1.0" };
            self.lit(v);
        }
        if text || self.t.chance(1, 3) {
            self.sp();
            self.p("encoding=");
            let e = if self.o.glitch > 0 && self.t.chance(1, 4) {
                ["utf-16", "bogus-enc", "us-ascii", "iso-8859-1", "UTF-16BE", "x", ""][self.t.below(7)]
            } else {
                ["UTF-8", "utf-8", "uTf-8"][self.t.below(3)]
            };
            self.lit(e);
        }
        if !text && self.t.chance(1, 3) {
            self.sp();
            self.p("standalone=");
            let v = ["yes", "no"][self.t.below(2)];
            self.lit(v);
        }
        self.osp();
        self.glitch();
        self.p("?>");
    }
    /// The external entities: odd ones of declarations, even ones of content.
    fn external(&mut self, budget: i32) {
        let main = std::mem::take(&mut self.s);
        let (b, big) = (self.budget, self.o.big);
        self.o.big = false;
        for i in 0..SYS.len() {
            if self.t.chance(1, 3) {
                self.xmldecl(true);
            }
            self.budget = budget;
            if i % 2 == 0 {
                self.content(2);
            } else {
                self.scope = 1;
                let n = self.t.below(5);
                for _ in 0..n {
                    self.decl();
                    self.osp();
                }
                self.scope = 0;
            }
            let s = std::mem::take(&mut self.s);
            self.ents.push((SYS[i].to_string(), s));
        }
        self.s = main;
        self.budget = b;
        self.o.big = big;
    }
    pub fn document(mut self) -> Doc {
        let dt = self.o.dtd && self.t.chance(3, 4);
        // first or last, for what comes last gets what is left of the tape
        let first = dt && self.o.ext && self.t.chance(1, 2);
        if first {
            self.external(6);
            self.declared.clear();
        }
        if self.t.chance(1, 3) {
            self.xmldecl(false);
        }
        self.misc();
        if dt {
            self.doctype();
            self.misc();
        }
        let d = self.o.depth;
        self.element(d);
        self.misc();
        if dt && self.o.ext && !first {
            self.external(15);
        }
        self.t.flip();
        Doc { text: self.s, ents: self.ents }
    }
}

// ---- encodings ----
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Utf8,
    Utf16le,
    Utf16be,
    Latin1,
    Ascii,
}
/// None when a character cannot be represented.
pub fn encode(s: &str, e: Enc) -> Option<Vec<u8>> {
    let mut v = vec![];
    match e {
        Enc::Utf8 => v.extend_from_slice(s.as_bytes()),
        Enc::Utf16le => s.encode_utf16().for_each(|u| v.extend_from_slice(&u.to_le_bytes())),
        Enc::Utf16be => s.encode_utf16().for_each(|u| v.extend_from_slice(&u.to_be_bytes())),
        Enc::Latin1 | Enc::Ascii => {
            let lim = if e == Enc::Latin1 { 0x100 } else { 0x80 };
            for c in s.chars() {
                if c as u32 >= lim {
                    return None;
                }
                v.push(c as u8);
            }
        }
    }
    Some(v)
}

/// Random cuts and delivery methods for a document of len bytes.
pub fn gen_feeds(t: &mut Tape, len: usize) -> Vec<Feed> {
    let mut cuts = vec![];
    match t.below(8) {
        0 => {}
        1 => cuts.extend(1..len.min(3000)),
        2 => {
            let k = t.range(2, 9);
            let mut i = k;
            while i < len {
                cuts.push(i);
                i += k;
            }
        }
        3 => {
            cuts.push(t.below(len + 1));
        }
        _ => {
            let n = t.range(1, 8);
            for _ in 0..n {
                let c = t.below(len + 1);
                cuts.push(c);
                if t.chance(1, 4) {
                    cuts.push((c + 1).min(len));
                }
            }
        }
    }
    let mode = t.below(5);
    let slack = [0u32, 1, 10, 1024, 4000][t.below(5)];
    let bits = t.u32();
    let ef = t.chance(1, 3);
    feeds_from(
        &cuts,
        len,
        move |i| match mode {
            0 | 1 => (0, 0),
            2 => (1, 0),
            3 => (2, slack),
            _ => (((bits >> (i % 31)) & 1) as u8 * 2, slack),
        },
        ef,
    )
}
