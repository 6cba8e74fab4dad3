//! Generates well-formed documents together with what a parser must report for them. The document
//! is built as a tree (declarations, entities, content) from which the text is written out with
//! randomly chosen notation; the expected events are computed from the tree by following the XML
//! and Namespaces recommendations, never by looking at the text again.
use crate::drive::*;
use crate::tape::Tape;
use std::collections::HashMap;

#[derive(Clone, Copy)]
pub struct MOpts {
    pub ns: bool,
    /// character repertoire of the raw text: 0x7f, 0xff or 0x10ffff
    pub maxcp: u32,
    pub dtd: bool,
    pub ext: bool,
    /// parameter entities (always with everything read)
    pub pes: bool,
    pub depth: usize,
    pub items: usize,
    pub long: bool,
    /// an external subset that is not read, so that unknown entities are skipped
    pub skips: bool,
    pub decls: usize,
    pub xmldecl: bool,
}
pub const MOPTS: MOpts =
    MOpts { ns: false, maxcp: 0x10ffff, dtd: true, ext: true, pes: true, depth: 5, items: 8, long: false, skips: false, decls: 5, xmldecl: true };

#[derive(Clone, Debug)]
pub enum Node {
    Text { src: String, val: String },
    Ch { src: String, c: char },
    Pre { src: &'static str, c: char },
    Ref(String),
    Skip(String),
    Cdata { src: String, val: String },
    Comment { src: String, val: String },
    Pi { src: String, target: String, data: String },
    Elem(Box<Elem>),
}
#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub atts: Vec<Att>,
    pub open: String,
    pub close: String,
    pub kids: Vec<Node>,
    pub empty: bool,
}
#[derive(Clone, Debug)]
pub struct Att {
    pub name: String,
    pub parts: Vec<Node>,
}

#[derive(Clone, Debug)]
pub enum Body {
    /// replacement text; nodes it consists of; usable in attribute values
    Internal { nodes: Vec<Node>, repl: String, textual: bool },
    External { nodes: Vec<Node>, decl: Option<(Option<String>, String)>, text: String },
}
#[derive(Clone, Debug)]
pub struct Entity {
    pub body: Body,
    pub sys: Option<String>,
    pub pubid: Option<String>,
    pub base: Option<String>,
    /// how much one reference amounts to
    pub size: usize,
}

#[derive(Clone, Debug)]
pub struct AttDef {
    pub name: String,
    pub cdata: bool,
    /// normalized
    pub value: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MRec {
    pub ev: Ev,
    pub level: u16,
    /// byte range in the UTF-8 text of the entity parsed at this level; None: not specified
    pub span: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct MDoc {
    pub text: String,
    pub ents: Vec<(String, String)>,
    pub evs: Vec<MRec>,
    pub ns: Option<char>,
    pub triplets: bool,
    pub pe: u8,
    pub base: Option<String>,
    /// offsets at which the root element starts and ends
    pub root: (usize, usize),
    pub labels: Vec<&'static str>,
    pub has_skips: bool,
    pub has_dtd: bool,
    /// end of the internal subset (offset of its bracket, number of events before it)
    pub subset_end: Option<(usize, usize)>,
    /// offset and number of events just before the document type declaration (or where it could be)
    pub before_dtd: (usize, usize),
    /// general entities: name, 'i'nternal or 'e'xternal or 'u'nparsed
    pub names: Vec<(String, char)>,
    pub standalone: bool,
}
impl MDoc {
    /// does the document refer to parameter entities or have an external subset?
    pub fn pe_refs(&self) -> bool {
        self.has_skips || self.labels.iter().any(|l| l.contains("subset") || l.contains("parameter"))
    }
}

pub const ELS: &[&str] = &["a", "b", "c", "doc", "long-element.name_1", "aé", "日本"];
pub const ATTS: &[&str] = &["k", "x", "id", "y1", "_z", "at-t.r", "é", "日"];
const PREFIXES: &[&str] = &["p", "q", "pp"];
const URIS: &[&str] = &["u:a", "u:b", "http://example.org/a/rather/long/namespace/name/that/needs/space", "x", "é:日"];
pub const XMLNS: &str = "http://www.w3.org/XML/1998/namespace";
const ENAMES: &[&str] = &["e", "f", "g", "hh", "i.1", "é", "j", "kk"];

pub struct Gen<'t, 'a> {
    pub t: &'t mut Tape<'a>,
    pub o: MOpts,
    pub d: MDoc,
    ents: HashMap<String, Entity>,
    order: Vec<String>,
    attlists: HashMap<String, Vec<AttDef>>,
    ids: HashMap<String, String>,
    pes: HashMap<String, (String, Option<String>)>,
    budget: i32,
    /// inside replacement text: no carriage returns there
    inrepl: bool,
    /// inside an INCLUDE section of the current entity: libexpat (2.2.9 and 2.6.1 alike) does not
    /// accept references to internal parameter entities between declarations there
    incl: bool,
    nsys: usize,
    npe: usize,
    plan: HashMap<String, Vec<(String, String)>>,
    notations: Vec<String>,
    level: u16,
}

struct Scope {
    /// prefix ("" for the default) and namespace name
    b: Vec<(String, String)>,
    open: Vec<String>,
}


impl<'t, 'a> Gen<'t, 'a> {
    pub fn new(t: &'t mut Tape<'a>, o: MOpts) -> Gen<'t, 'a> {
        Gen {
            t,
            o,
            d: MDoc::default(),
            ents: HashMap::new(),
            order: vec![],
            attlists: HashMap::new(),
            ids: HashMap::new(),
            pes: HashMap::new(),
            budget: 60,
            inrepl: false,
            incl: false,
            nsys: 0,
            npe: 0,
            plan: HashMap::new(),
            notations: vec![],
            level: 0,
        }
    }

    // ---- lexical pieces ----
    fn name_from(&mut self, l: &[&str]) -> String {
        let n = l.iter().filter(|x| x.chars().all(|c| c as u32 <= self.o.maxcp)).count();
        let ok: Vec<&&str> = l.iter().filter(|x| x.chars().all(|c| c as u32 <= self.o.maxcp)).collect();
        ok[self.t.below(n)].to_string()
    }
    /// white space inside markup
    fn sp(&mut self) -> String {
        let k = self.t.below(if self.inrepl { 10 } else { 12 });
        match k {
            0..=6 => " ".into(),
            7 => "\n".into(),
            8 => "\t".into(),
            9 => "  \n ".into(),
            10 => "\r\n".into(),
            _ => "\r".into(),
        }
    }
    fn osp(&mut self) -> String {
        if self.t.chance(1, 4) {
            self.sp()
        } else {
            String::new()
        }
    }
    fn ch(&mut self) -> char {
        let c = match self.t.below(if self.o.maxcp > 0xffff { 22 } else if self.o.maxcp > 0xff { 21 } else if self.o.maxcp > 0x7f { 17 } else { 14 }) {
            0..=5 => (b'a' + self.t.below(26) as u8) as char,
            6 => ' ',
            7 => (b'0' + self.t.below(10) as u8) as char,
            8 => '\n',
            9 => '\t',
            10 => ['.', ',', '!', '(', '*', '|', ';', '=', '#', '?', '/', ':', '-', '@', '\u{7f}'][self.t.below(15)],
            11 => '>',
            12 => ']',
            13 => ['\'', '"', '%'][self.t.below(3)],
            14 => 'é',
            15 | 16 => char::from_u32(0x80 + self.t.below(0x80) as u32).unwrap(),
            17 => char::from_u32(0x100 + self.t.below(0x700) as u32).unwrap(),
            18 => '日',
            19 => char::from_u32(0x800 + self.t.below(0xC000) as u32).unwrap_or('€'),
            20 => char::from_u32(0xe000 + self.t.below(0x1ffe) as u32).unwrap_or('\u{fffd}'),
            _ => char::from_u32(0x10000 + self.t.below(0x100000) as u32).unwrap_or('𝒳'),
        };
        c
    }
    /// characters for the inside of some construct
    fn chars(&mut self, max: usize) -> String {
        let n = if self.o.long && self.t.chance(1, 10) { [200, 1000, 1023, 1024, 1025, 3000, 5000][self.t.below(7)] + self.t.below(40) } else { self.t.size(max) };
        let mut s = String::new();
        if n > 64 {
            let k = self.t.range(1, 7);
            let pat: String = (0..k).map(|_| self.ch()).collect();
            let mut c = 0;
            while c < n {
                s.push_str(&pat);
                c += k;
            }
            return s;
        }
        for _ in 0..n {
            let c = self.ch();
            s.push(c);
        }
        s
    }
    /// how line ends are written: the text with \n replaced
    fn nl(&mut self, v: &str) -> String {
        if self.inrepl || !v.contains('\n') {
            return v.to_string();
        }
        let mut s = String::new();
        let mode = self.t.below(4);
        let cs: Vec<char> = v.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            if *c == '\n' {
                let m = if mode == 3 { self.t.below(3) } else { mode };
                match m {
                    0 => s.push('\n'),
                    1 => s.push_str("\r\n"),
                    // a lone \r must not meet a following \n
                    _ if cs.get(i + 1) == Some(&'\n') => s.push_str("\r\n"),
                    _ => s.push('\r'),
                }
            } else {
                s.push(*c);
            }
        }
        s
    }
    fn text(&mut self) -> Node {
        let mut v = self.chars(30).replace("]]>", "]]_");
        v = v.replace(['<', '&'], "_");
        if v.is_empty() {
            v.push('t');
        }
        let src = self.nl(&v);
        Node::Text { src, val: v }
    }
    fn charref(&mut self) -> Node {
        let c = match self.t.below(8) {
            0 => '&',
            1 => '<',
            2 => ['\t', '\n', '\r', ' '][self.t.below(4)],
            3 => (b'A' + self.t.below(26) as u8) as char,
            4 => char::from_u32(0x20 + self.t.below(0xd7e0) as u32).unwrap(),
            5 => ['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{10000}', '\u{10ffff}', '\u{ffff0}', ']', '>'][self.t.below(12)],
            6 => char::from_u32(0x10000 + self.t.below(0x100000) as u32).unwrap(),
            _ => char::from_u32(0x80 + self.t.below(0x800) as u32).unwrap(),
        };
        let src = match self.t.below(4) {
            0 => format!("&#x{:x};", c as u32),
            1 => format!("&#x{:04X};", c as u32),
            2 => format!("&#{};", c as u32),
            _ => format!("&#{:07};", c as u32),
        };
        Node::Ch { src, c }
    }
    fn predef(&mut self) -> Node {
        let (src, c) = [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&apos;", '\'')][self.t.below(5)];
        Node::Pre { src, c }
    }
    fn comment(&mut self) -> Node {
        let mut v = self.chars(20);
        while v.contains("--") {
            v = v.replace("--", "-");
        }
        if v.ends_with('-') {
            v.push('.');
        }
        let src = format!("<!--{}-->", self.nl(&v));
        Node::Comment { src, val: v }
    }
    fn pi(&mut self) -> Node {
        let target = match self.t.below(6) {
            0 => ["xmlx", "x", "xm", "Xm-l", "xml-stylesheet"][self.t.below(5)].to_string(),
            _ => self.name_from(&["pi", "t1", "a.b-c", "_", "é", "日"]),
        };
        let mut src = format!("<?{}", target);
        let mut data = String::new();
        if self.t.chance(2, 3) {
            let sp = self.sp();
            src += &sp;
            data = self.chars(20).replace("?>", "? >");
            data = data.trim_start_matches([' ', '\t', '\n', '\r']).to_string();
            let d = self.nl(&data);
            src += &d;
        }
        src += "?>";
        Node::Pi { src, target, data }
    }
    fn cdata(&mut self) -> Node {
        let v = self.chars(30).replace("]]>", "]] >");
        let v = if self.t.chance(1, 4) { v + ["]", "]]", "<a>", "&amp;", "]>"][self.t.below(5)] } else { v };
        let v = v.replace("]]>", "]] >");
        let src = format!("<![CDATA[{}]]>", self.nl(&v));
        Node::Cdata { src, val: v }
    }
    fn literal(&mut self, s: &str) -> String {
        let q = if s.contains('"') || (!s.contains('\'') && self.t.chance(1, 2)) { '\'' } else { '"' };
        format!("{}{}{}", q, s, q)
    }

    // ---- content ----
    /// entities that may be referenced: all known ones
    fn pick_entity(&mut self, textual: bool, external: bool) -> Option<String> {
        let c: Vec<&String> = self
            .order
            .iter()
            .filter(|n| self.ents[*n].size < 200)
            .filter(|n| match &self.ents[*n].body {
                Body::Internal { textual: tx, .. } => !textual || *tx,
                Body::External { .. } => external && !textual,
            })
            .collect();
        if c.is_empty() {
            return None;
        }
        let i = self.t.below(c.len());
        // the latest ones first: they nest deepest
        Some(c[c.len() - 1 - i].clone())
    }
    fn size(&self, nodes: &[Node]) -> usize {
        nodes
            .iter()
            .map(|n| match n {
                Node::Ref(n) => 1 + self.ents[n].size,
                Node::Elem(e) => 2 + e.atts.iter().map(|a| 1 + self.size(&a.parts)).sum::<usize>() + self.size(&e.kids),
                _ => 1,
            })
            .sum()
    }
    fn reference(&mut self, textual: bool) -> Node {
        if self.d.has_skips && self.t.chance(1, 3) {
            return Node::Skip(["un1", "un2"][self.t.below(2)].into());
        }
        match self.pick_entity(textual, true) {
            Some(n) if self.t.chance(5, 6) => Node::Ref(n),
            _ => self.predef(),
        }
    }
    pub fn nodes(&mut self, depth: usize, scope: &[(String, String)]) -> Vec<Node> {
        let n = self.t.size(self.o.items);
        let mut v: Vec<Node> = vec![];
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            let k = self.t.below(16);
            let x = match k {
                0..=4 => {
                    if let Some(Node::Text { .. }) = v.last() {
                        self.charref()
                    } else {
                        self.text()
                    }
                }
                5..=8 if depth > 0 => self.element(depth - 1, scope),
                9 => self.comment(),
                10 => self.pi(),
                11 => self.cdata(),
                12 => self.charref(),
                13 => self.predef(),
                _ => self.reference(false),
            };
            v.push(x);
        }
        v
    }
    fn att_parts(&mut self) -> Vec<Node> {
        let n = self.t.size(5);
        let mut v: Vec<Node> = vec![];
        for _ in 0..n {
            let x = match self.t.below(8) {
                0..=3 => match v.last() {
                    Some(Node::Text { .. }) => self.charref(),
                    _ => {
                        let mut val = self.chars(20).replace(['<', '&'], "_");
                        if self.t.chance(1, 3) {
                            val = format!("  {} ", val);
                        }
                        if val.is_empty() {
                            val.push('v');
                        }
                        let src = self.nl(&val);
                        Node::Text { src, val }
                    }
                },
                4 | 5 => self.charref(),
                6 => self.predef(),
                _ => self.reference(true),
            };
            v.push(x);
        }
        v
    }
    fn att_src(&mut self, parts: &mut Vec<Node>) -> String {
        let q = if self.t.chance(1, 3) { '\'' } else { '"' };
        let mut s = String::new();
        for p in parts.iter_mut() {
            if let Node::Text { src, val } = p {
                if src.contains(q) {
                    *src = src.replace(q, "_");
                    *val = val.replace(q, "_");
                }
            }
            s += &ser(p);
        }
        format!("{}{}{}", q, s, q)
    }
    fn uri(&mut self) -> String {
        let u = self.name_from(URIS);
        if self.t.chance(1, 6) {
            let n = self.t.below(60);
            return format!("{}{}", u, "n".repeat(n));
        }
        u
    }
    pub fn element(&mut self, depth: usize, outer: &[(String, String)]) -> Node {
        self.budget -= 1;
        let mut scope: Vec<(String, String)> = outer.to_vec();
        let base = if self.o.maxcp < 0x100 { 5 } else { ELS.len() };
        let mut name = match self.t.below(8) {
            7 => self.name_from(ELS),
            k => ELS[k.min(3).min(base - 1)].to_string(),
        };
        let nspec = self.t.size(5);
        let mut atts: Vec<Att> = vec![];
        let mut decls: Vec<(String, String)> = vec![];
        if self.o.ns {
            let n = if self.t.chance(1, 3) { self.t.range(1, 3) } else { 0 };
            for _ in 0..n {
                let (p, u) = match self.t.below(5) {
                    0 => ("".to_string(), self.uri()),
                    1 => ("".to_string(), "".to_string()),
                    _ => (PREFIXES[self.t.below(PREFIXES.len())].to_string(), self.uri()),
                };
                if decls.iter().any(|d| d.0 == p) {
                    continue;
                }
                decls.push((p, u));
            }
        }
        // the name: a prefix may be one declared here
        let bound = |decls: &[(String, String)], scope: &[(String, String)]| -> Vec<String> {
            let mut v: Vec<String> = vec![];
            for (p, _) in decls.iter().chain(scope) {
                if !p.is_empty() && !v.contains(p) {
                    v.push(p.clone());
                }
            }
            v
        };
        if self.o.ns {
            let b = bound(&decls, &scope);
            if !b.is_empty() && self.t.chance(1, 3) {
                name = format!("{}:{}", b[self.t.below(b.len())], name);
            }
        }
        // defaulted declarations apply to the element, unless it specifies them
        for (p, u) in self.plan.get(&name).cloned().unwrap_or_default() {
            push_binding(&mut scope, &p, &u);
        }
        for (p, u) in &decls {
            push_binding(&mut scope, p, u);
        }
        let b = bound(&[], &scope);
        let mut used: Vec<(String, String)> = vec![];
        for _ in 0..nspec {
            let mut n = self.name_from(ATTS);
            if self.t.chance(1, 3) {
                // one that is declared, perhaps
                if let Some(l) = self.attlists.get(&name) {
                    if !l.is_empty() {
                        let c = l[self.t.below(l.len())].name.clone();
                        if !c.starts_with("xmlns") && (!c.contains(':') || c.starts_with("xml:") || !self.o.ns || b.contains(&c[..c.find(':').unwrap()].to_string())) {
                            n = c;
                        }
                    }
                }
            } else if self.o.ns && !b.is_empty() && self.t.chance(1, 3) {
                n = format!("{}:{}", b[self.t.below(b.len())], n);
            } else if self.t.chance(1, 12) {
                n = ["xml:lang", "xml:space"][self.t.below(2)].to_string();
            }
            let ex = if !self.o.ns {
                (String::new(), n.clone())
            } else {
                match n.find(':') {
                    Some(i) if &n[..i] == "xml" => (XMLNS.to_string(), n[i + 1..].to_string()),
                    Some(i) => (lookup(&scope, &n[..i]).unwrap_or_default(), n[i + 1..].to_string()),
                    None => ("\0".into(), n.clone()),
                }
            };
            if used.contains(&ex) || atts.iter().any(|a| a.name == n) {
                continue;
            }
            used.push(ex);
            let parts = self.att_parts();
            atts.push(Att { name: n, parts });
        }
        for (p, u) in decls {
            let n = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", p) };
            let parts = if u.is_empty() {
                vec![]
            } else if self.t.chance(1, 5) {
                // partly as a character reference
                let c = u.chars().next().unwrap();
                vec![Node::Ch { src: format!("&#{};", c as u32), c }, Node::Text { src: u[c.len_utf8()..].into(), val: u[c.len_utf8()..].into() }]
            } else {
                vec![Node::Text { src: u.clone(), val: u }]
            };
            let i = self.t.below(atts.len() + 1);
            atts.insert(i, Att { name: n, parts });
        }
        let mut open = format!("<{}", name);
        for a in atts.iter_mut() {
            open += &self.sp();
            open += &a.name;
            open += &self.osp();
            open.push('=');
            open += &self.osp();
            let mut parts = std::mem::take(&mut a.parts);
            open += &self.att_src(&mut parts);
            a.parts = parts;
        }
        open += &self.osp();
        let empty = self.budget <= 0 || self.t.chance(1, 4);
        let mut kids = vec![];
        let mut close = String::new();
        if empty {
            open += "/>";
        } else {
            open.push('>');
            kids = self.nodes(depth, &scope);
            close = format!("</{}{}>", name, self.osp());
        }
        Node::Elem(Box::new(Elem { name, atts, open, close, kids, empty }))
    }

    // ---- declarations ----
    /// An entity literal whose value is `r`: every character may be written as a reference.
    fn entity_literal(&mut self, r: &str) -> String {
        let heavy = self.t.chance(1, 4);
        let q = if r.contains('"') && !r.contains('\'') { '\'' } else { '"' };
        let mut s = String::new();
        let cs: Vec<char> = r.chars().collect();
        // inside a reference that is left as it is
        let mut kept = false;
        for (i, c) in cs.iter().enumerate() {
            if kept {
                kept = *c != ';';
                s.push(*c);
                continue;
            }
            let must = *c == '%' || *c == q || (*c == '&' && cs.get(i + 1) == Some(&'#')) || *c == '\r';
            let may = (heavy && self.t.chance(1, 3)) || (*c == '<' && self.t.chance(1, 8)) || (*c == '&' && self.t.chance(1, 3));
            // & at the start of a reference may stay
            if must || may {
                if self.t.chance(1, 2) {
                    s += &format!("&#{};", *c as u32);
                } else {
                    s += &format!("&#x{:X};", *c as u32);
                }
            } else {
                kept = *c == '&';
                s.push(*c);
            }
        }
        format!("{}{}{}", q, s, q)
    }
    fn pubid(&mut self) -> (String, String) {
        let (s, v) = [("-//X//Y", "-//X//Y"), (" a  b ", "a b"), ("p", "p"), ("", ""), ("\n x\ny ", "x y"), ("A-Z()+,./:=?;!*#@$_%", "A-Z()+,./:=?;!*#@$_%"), ("it's", "it's")][self.t.below(7)];
        (s.into(), v.into())
    }
    /// external identifier: source, system id, public id
    fn extid(&mut self, sys: &str) -> (String, Option<String>) {
        if self.t.chance(1, 3) {
            let (ps, pv) = self.pubid();
            let q = if ps.contains('\'') { format!("\"{}\"", ps) } else { self.literal(&ps) };
            let a = self.sp();
            let b = self.sp();
            let l = self.literal(sys);
            (format!("PUBLIC{}{}{}{}", a, q, b, l), Some(pv))
        } else {
            let a = self.sp();
            let l = self.literal(sys);
            (format!("SYSTEM{}{}", a, l), None)
        }
    }
    fn new_sys(&mut self) -> String {
        self.nsys += 1;
        format!("sys{}", self.nsys)
    }
    fn ev(&mut self, ev: Ev) {
        let level = self.level;
        self.d.evs.push(MRec { ev, level, span: None });
    }
    fn cur_base(&self) -> Option<B> {
        if self.level == 0 {
            self.d.base.as_ref().map(|b| b.clone().into_bytes())
        } else {
            None
        }
    }
    fn textdecl(&mut self) -> (String, Option<(Option<String>, String)>) {
        if !self.t.chance(1, 3) {
            return (String::new(), None);
        }
        let enc = ["UTF-8", "utf-8", "Utf-8"][self.t.below(3)].to_string();
        let ver = if self.t.chance(1, 2) { Some("1.0".to_string()) } else { None };
        let mut s = "<?xml".to_string();
        if ver.is_some() {
            s += &self.sp();
            s += "version";
            s += &self.osp();
            s += "=";
            s += &self.osp();
            s += &self.literal("1.0");
        }
        s += &self.sp();
        s += "encoding";
        s += &self.osp();
        s += "=";
        s += &self.osp();
        s += &self.literal(&enc);
        s += &self.osp();
        s += "?>";
        (s, Some((ver, enc)))
    }
    /// A general entity declaration; the events are those of the declaration.
    fn decl_entity(&mut self) -> Vec<String> {
        let free: Vec<&str> = ENAMES.iter().copied().filter(|n| !self.ents.contains_key(*n) && n.chars().all(|c| c as u32 <= self.o.maxcp)).collect();
        let dup = free.is_empty() || (!self.order.is_empty() && self.t.chance(1, 8));
        let name = if dup { self.order[self.t.below(self.order.len())].clone() } else { free[self.t.below(free.len())].to_string() };
        let mut toks = vec![name.clone()];
        if self.o.ext && self.t.chance(1, 4) {
            let sys = self.new_sys();
            let (src, pubid) = self.extid(&sys);
            toks.push(src);
            if dup {
                return toks;
            }
            let (td, decl) = self.textdecl();
            let save = std::mem::replace(&mut self.inrepl, false);
            let bud = std::mem::replace(&mut self.budget, 10);
            let nodes = self.nodes(2, &[]);
            self.budget = bud;
            self.inrepl = save;
            let size = self.size(&nodes);
            let text = td + &nodes.iter().map(ser).collect::<String>();
            self.d.ents.push((sys.clone(), text.clone()));
            let base = self.cur_base();
            self.ev(Ev::Entity {
                name: name.clone().into_bytes(),
                pe: false,
                value: None,
                base: base.clone(),
                sys: Some(sys.clone().into_bytes()),
                pubid: pubid.clone().map(|p| p.into_bytes()),
                notation: None,
            });
            self.ents.insert(
                name.clone(),
                Entity { body: Body::External { nodes, decl, text }, sys: Some(sys), pubid, base: base.map(|b| String::from_utf8(b).unwrap()), size },
            );
            self.order.push(name);
            return toks;
        }
        let textual = self.t.chance(1, 2);
        let save = std::mem::replace(&mut self.inrepl, true);
        let nodes = if textual {
            let n = self.t.size(5);
            let mut v: Vec<Node> = vec![];
            for _ in 0..n {
                let x = match self.t.below(8) {
                    0..=3 if !matches!(v.last(), Some(Node::Text { .. })) => self.text(),
                    4 => self.charref(),
                    5 => self.predef(),
                    _ => self.reference(true),
                };
                v.push(x);
            }
            v
        } else {
            let bud = std::mem::replace(&mut self.budget, 10);
            let v = self.nodes(2, &[]);
            self.budget = bud;
            v
        };
        self.inrepl = save;
        let size = self.size(&nodes);
        let repl: String = nodes.iter().map(ser).collect();
        let lit = self.entity_literal(&repl);
        toks.push(lit);
        if !dup {
            self.ev(Ev::Entity { name: name.clone().into_bytes(), pe: false, value: Some(repl.clone().into_bytes()), base: self.cur_base(), sys: None, pubid: None, notation: None });
            self.ents.insert(name.clone(), Entity { body: Body::Internal { nodes, repl, textual }, sys: None, pubid: None, base: None, size });
            self.order.push(name);
        }
        toks
    }
    fn model(&mut self, d: usize) -> (String, Model) {
        let quant = self.t.below(4);
        let seq = self.t.chance(1, 2);
        let n = self.t.range(1, 4);
        let mut s = format!("({}", self.osp());
        let mut kids = vec![];
        for i in 0..n {
            if i > 0 {
                s += &self.osp();
                s += if seq { "," } else { "|" };
                s += &self.osp();
            }
            if d > 0 && self.t.chance(1, 3) {
                let (x, m) = self.model(d - 1);
                s += &x;
                kids.push(m);
            } else {
                let nm = self.name_from(ELS);
                let q = self.t.below(4);
                s += &nm;
                s += ["", "?", "*", "+"][q];
                kids.push(Model { typ: 4, quant: q as u32, name: Some(nm.into_bytes()), kids: vec![] });
            }
        }
        s += &self.osp();
        s += ")";
        s += ["", "?", "*", "+"][quant];
        // a group without a separator is a sequence
        (s, Model { typ: if seq || n == 1 { 6 } else { 5 }, quant: quant as u32, name: None, kids })
    }
    fn decl_element(&mut self) -> Vec<String> {
        let name = self.name_from(ELS);
        let leaf = |typ, quant| Model { typ, quant, name: None, kids: vec![] };
        let (s, m) = match self.t.below(6) {
            0 => ("EMPTY".to_string(), leaf(1, 0)),
            1 => ("ANY".to_string(), leaf(2, 0)),
            2 => {
                let star = self.t.below(2);
                let a = self.osp();
                let b = self.osp();
                (format!("({}#PCDATA{}){}", a, b, ["", "*"][star]), leaf(3, 2 * star as u32))
            }
            3 => {
                let n = self.t.range(1, 4);
                let mut s = format!("({}#PCDATA", self.osp());
                let mut kids = vec![];
                for _ in 0..n {
                    let nm = self.name_from(ELS);
                    s += &self.osp();
                    s += "|";
                    s += &self.osp();
                    s += &nm;
                    kids.push(Model { typ: 4, quant: 0, name: Some(nm.into_bytes()), kids: vec![] });
                }
                s += &self.osp();
                s += ")*";
                (s, Model { typ: 3, quant: 2, name: None, kids })
            }
            _ => self.model(3),
        };
        self.ev(Ev::Element { name: name.clone().into_bytes(), model: m });
        vec![name, s]
    }
    fn decl_notation(&mut self) -> Vec<String> {
        let name = self.name_from(&["n1", "n2", "gif"]);
        let base = self.cur_base();
        let (s, sys, pubid) = match self.t.below(3) {
            0 => {
                let (ps, pv) = self.pubid();
                let q = if ps.contains('\'') { format!("\"{}\"", ps) } else { self.literal(&ps) };
                (format!("PUBLIC{}{}", self.sp(), q), None, Some(pv))
            }
            _ => {
                let (s, p) = self.extid("notation-sys");
                (s, Some("notation-sys".to_string()), p)
            }
        };
        if !self.notations.contains(&name) {
            self.notations.push(name.clone());
        }
        self.ev(Ev::Notation { name: name.clone().into_bytes(), base, sys: sys.map(|x| x.into_bytes()), pubid: pubid.map(|x| x.into_bytes()) });
        vec![name, s]
    }
    fn decl_unparsed(&mut self) -> Vec<String> {
        self.nsys += 1;
        let name = format!("unp{}", self.nsys);
        self.d.names.push((name.clone(), 'u'));
        let (s, p) = self.extid("pic.gif");
        let base = self.cur_base();
        self.ev(Ev::Unparsed {
            name: name.clone().into_bytes(),
            base,
            sys: Some(b"pic.gif".to_vec()),
            pubid: p.map(|x| x.into_bytes()),
            notation: Some(b"n1".to_vec()),
        });
        vec![name, format!("{}{}NDATA{}n1", s, self.sp(), self.sp())]
    }
    fn decl_attlist(&mut self) -> Vec<String> {
        // planned declarations of namespaces first
        let planned: Option<String> = self.plan.keys().filter(|k| !self.attlists.contains_key(*k)).min().cloned();
        let el = match planned {
            Some(e) => e,
            None => match self.t.below(5) {
                4 => self.name_from(ELS),
                k => ELS[k.min(3)].to_string(),
            },
        };
        let mut toks = vec![el.clone()];
        let mut todo: Vec<(String, Option<String>)> = vec![];
        if !self.attlists.contains_key(&el) {
            for (p, u) in self.plan.get(&el).cloned().unwrap_or_default() {
                todo.push((if p.is_empty() { "xmlns".into() } else { format!("xmlns:{}", p) }, Some(u)));
            }
        }
        let n = self.t.size(4);
        for _ in 0..n {
            let nm = match self.t.below(8) {
                0..=3 => self.name_from(ATTS),
                4 => ["d1", "d2", "d3"][self.t.below(3)].to_string(),
                5 => ["xml:lang", "xml:space"][self.t.below(2)].to_string(),
                6 => match self.plan.get(&el) {
                    Some(p) if !p.is_empty() && !p[0].0.is_empty() => format!("{}:d4", p[0].0),
                    _ => "d4".to_string(),
                },
                _ => self.name_from(ATTS),
            };
            todo.push((nm, None));
        }
        self.attlists.entry(el.clone()).or_default();
        for (nm, fixed_uri) in todo {
            let known = self.attlists[&el].iter().any(|a| a.name == nm);
            let hasid = self.ids.contains_key(&el);
            let (ty_src, ty) = if fixed_uri.is_some() {
                ("CDATA".to_string(), "CDATA".to_string())
            } else {
                match self.t.below(10) {
                    0..=3 => ("CDATA".into(), "CDATA".into()),
                    4 if !hasid && !known => ("ID".into(), "ID".into()),
                    5 => {
                        let x = ["IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"][self.t.below(6)];
                        (x.into(), x.into())
                    }
                    6 | 7 => {
                        let k = self.t.range(1, 3);
                        let toks: Vec<&str> = ["x", "1y", "zz.-"][..k].to_vec();
                        let mut s = format!("({}", self.osp());
                        for (i, x) in toks.iter().enumerate() {
                            if i > 0 {
                                s += "|";
                                s += &self.osp();
                            }
                            s += x;
                            s += &self.osp();
                        }
                        (s + ")", format!("({})", toks.join("|")))
                    }
                    8 => {
                        let a = self.sp();
                        let b = self.osp();
                        (format!("NOTATION{}(n1{}|n2)", a, b), "NOTATION(n1|n2)".to_string())
                    }
                    _ => ("NMTOKEN".into(), "NMTOKEN".into()),
                }
            };
            let cdata = ty == "CDATA";
            let mut s = format!("{}{}{}{}", nm, self.sp(), ty_src, self.sp());
            let (value, req) = if fixed_uri.is_none() && (ty == "ID" || self.t.chance(1, 2)) {
                let r = self.t.below(2);
                s += ["#IMPLIED", "#REQUIRED"][r];
                (None, r as i32)
            } else {
                let fixed = self.t.chance(1, 4);
                if fixed {
                    s += "#FIXED";
                    s += &self.sp();
                }
                let mut parts = match &fixed_uri {
                    Some(u) => vec![Node::Text { src: u.clone(), val: u.clone() }],
                    None => {
                        // entities must be declared before a default value uses them
                        let sk = std::mem::replace(&mut self.d.has_skips, false);
                        let p = self.att_parts();
                        self.d.has_skips = sk;
                        p
                    }
                };
                if parts.is_empty() && self.t.chance(1, 2) {
                    parts.push(Node::Text { src: "dflt".into(), val: "dflt".into() });
                }
                s += &self.att_src(&mut parts);
                (Some(self.norm(&parts, cdata)), fixed as i32)
            };
            self.ev(Ev::Attlist {
                el: el.clone().into_bytes(),
                att: nm.clone().into_bytes(),
                ty: ty.clone().into_bytes(),
                dflt: value.clone().map(|v| v.into_bytes()),
                req,
            });
            if ty == "ID" {
                self.ids.insert(el.clone(), nm.clone());
            }
            if !known {
                self.attlists.get_mut(&el).unwrap().push(AttDef { name: nm, cdata, value });
            }
            toks.push(s);
        }
        toks
    }
    /// Writes a markup declaration; in an external entity some of it may be moved to a parameter
    /// entity (which must then be declared just before).
    fn markup(&mut self, kw: &str, toks: Vec<String>, external: bool, out: &mut String, evs_at: usize) {
        let mut toks = toks;
        if external && self.o.pes && self.t.chance(1, 4) && !toks.iter().any(|t| t.contains('\r')) {
            let i = if kw == "ELEMENT" || kw == "ATTLIST" { 1 } else { 0 };
            if i < toks.len() {
                let j = self.t.range(i + 1, toks.len());
                let part: Vec<String> = toks.drain(i..j).collect();
                let repl = part.join(" ");
                let pe = self.new_pe_name();
                // declared before this declaration, so its event comes first
                let lit = self.entity_literal(&repl);
                *out += &format!("<!ENTITY % {} {}>", pe, lit);
                let level = self.level;
                let base = self.cur_base();
                self.d.evs.insert(
                    evs_at,
                    MRec {
                        ev: Ev::Entity { name: pe.clone().into_bytes(), pe: true, value: Some(repl.clone().into_bytes()), base, sys: None, pubid: None, notation: None },
                        level,
                        span: None,
                    },
                );
                toks.insert(i, format!("%{};", pe));
                self.d.labels.push("parameter entity inside a declaration");
            }
        }
        *out += "<!";
        *out += kw;
        for t in &toks {
            *out += &self.sp();
            *out += t;
        }
        if toks.len() < 2 {
            *out += &self.osp();
        }
        *out += &self.osp();
        out.push('>');
    }
    fn new_pe_name(&mut self) -> String {
        self.npe += 1;
        format!("pe{}", self.npe)
    }
    fn decls(&mut self, n: usize, depth: usize, external: bool) -> String {
        let mut out = String::new();
        for _ in 0..n {
            let at = self.d.evs.len();
            match self.t.below(20) {
                0..=5 => {
                    let t = self.decl_entity();
                    self.markup("ENTITY", t, external, &mut out, at);
                }
                6..=9 => {
                    let t = self.decl_attlist();
                    self.markup("ATTLIST", t, external, &mut out, at);
                }
                10 | 11 => {
                    let t = self.decl_element();
                    self.markup("ELEMENT", t, external, &mut out, at);
                }
                12 => {
                    let t = self.decl_notation();
                    self.markup("NOTATION", t, external, &mut out, at);
                }
                13 => {
                    let t = self.decl_unparsed();
                    self.markup("ENTITY", t, external, &mut out, at);
                }
                14 => {
                    let x = self.comment();
                    out += &ser(&x);
                    if let Node::Comment { val, .. } = x {
                        self.ev(Ev::Comment(val.into_bytes()));
                    }
                }
                15 => {
                    let x = self.pi();
                    out += &ser(&x);
                    if let Node::Pi { target, data, .. } = x {
                        self.ev(Ev::Pi(target.into_bytes(), data.into_bytes()));
                    }
                }
                16 | 17 if self.o.pes && depth > 0 => {
                    // declare a parameter entity holding declarations and refer to it
                    let pe = self.new_pe_name();
                    let ext = self.o.ext && self.t.chance(1, 3);
                    if self.incl && !ext {
                        continue;
                    }
                    let k = self.t.range(0, 3);
                    if ext {
                        let sys = self.new_sys();
                        let (src, pubid) = self.extid(&sys);
                        let base = self.cur_base();
                        out += &format!("<!ENTITY{}%{}{}{}{}>", self.sp(), self.sp(), pe, self.sp(), src);
                        self.ev(Ev::Entity {
                            name: pe.clone().into_bytes(),
                            pe: true,
                            value: None,
                            base: base.clone(),
                            sys: Some(sys.clone().into_bytes()),
                            pubid: pubid.clone().map(|p| p.into_bytes()),
                            notation: None,
                        });
                        out += &self.osp();
                        out += &format!("%{};", pe);
                        self.ext_pe(base, &sys, pubid, k, depth - 1);
                        self.d.labels.push("external parameter entity");
                    } else {
                        let save = std::mem::replace(&mut self.inrepl, true);
                        let at = self.d.evs.len();
                        let repl = self.decls(k, depth - 1, false);
                        self.inrepl = save;
                        let lit = self.entity_literal(&repl);
                        out += &format!("<!ENTITY{}%{}{}{}{}>", self.sp(), self.sp(), pe, self.sp(), lit);
                        let base = self.cur_base();
                        let level = self.level;
                        self.d.evs.insert(
                            at,
                            MRec {
                                ev: Ev::Entity { name: pe.clone().into_bytes(), pe: true, value: Some(repl.into_bytes()), base, sys: None, pubid: None, notation: None },
                                level,
                                span: None,
                            },
                        );
                        out += &self.osp();
                        out += &format!("%{};", pe);
                        self.d.labels.push("internal parameter entity");
                    }
                }
                18 if external && depth > 0 => {
                    let k = self.t.below(3);
                    if self.t.chance(1, 2) {
                        out += &format!("<![{}INCLUDE{}[", self.osp(), self.osp());
                        let save = std::mem::replace(&mut self.incl, true);
                        out += &self.decls(k, depth - 1, external);
                        self.incl = save;
                        out += "]]>";
                        self.d.labels.push("INCLUDE section");
                    } else {
                        // what is in an IGNORE section has no effect
                        out += &format!("<![{}IGNORE{}[", self.osp(), self.osp());
                        let x = ["<!ENTITY e 'ignored'>", "<!ATTLIST a k CDATA 'ignored'>", "anything & at < all >", "<![ nested ]]> <![[ ]]>", "]] ]> %nope; '"][self.t.below(5)];
                        out += x;
                        out += ["", "", "", "]", "]]"][self.t.below(5)];
                        out += "]]>";
                        self.d.labels.push("IGNORE section");
                    }
                }
                19 if external && self.o.pes => {
                    // a parameter entity in an entity value
                    let save = std::mem::replace(&mut self.inrepl, true);
                    let (a, b) = (self.text(), self.text());
                    self.inrepl = save;
                    let f: Vec<&str> = ENAMES.iter().copied().filter(|n| !self.ents.contains_key(*n) && n.chars().all(|c| c as u32 <= self.o.maxcp)).collect();
                    if f.is_empty() {
                        continue;
                    }
                    let name = f[0].to_string();
                    let pe = self.new_pe_name();
                    let base = self.cur_base();
                    let ra = ser(&a);
                    let l = self.entity_literal(&ra);
                    let q = l.chars().next().unwrap();
                    let body = &l[1..l.len() - 1];
                    let rb;
                    let mut reads: Vec<MRec> = vec![];
                    if self.o.ext && self.t.chance(1, 2) {
                        // external: read as prolog tokens, then as a value
                        let mut src = String::new();
                        let mut val = String::new();
                        for _ in 0..self.t.range(0, 5) {
                            let (x, y) = [("abc", "abc"), (" ", " "), ("n1 n2", "n1 n2"), ("\r\n", "\n"), ("'l x'", "'l x'"), ("(a|b)*,", "(a|b)*,"), ("\"q\"", "\"q\""), ("\t\n\r", "\t\n\n"), ("]>", "]>"), ("#IMPLIED", "#IMPLIED")]
                                [self.t.below(10)];
                            // two words must not run together, nor CR and LF
                            src += " ";
                            val += " ";
                            src += x;
                            val += y;
                        }
                        src += " ";
                        val += " ";
                        rb = val;
                        let sys = self.new_sys();
                        let (x, pubid) = self.extid(&sys);
                        out += &format!("<!ENTITY % {} {}>", pe, x);
                        self.ev(Ev::Entity {
                            name: pe.clone().into_bytes(),
                            pe: true,
                            value: None,
                            base: base.clone(),
                            sys: Some(sys.clone().into_bytes()),
                            pubid: pubid.clone().map(|p| p.into_bytes()),
                            notation: None,
                        });
                        let (td, decl) = self.textdecl();
                        let level = self.level;
                        reads.push(MRec {
                            ev: Ev::ExtRef { ctx: None, base: base.clone(), sys: Some(sys.as_bytes().to_vec()), pubid: pubid.map(|p| p.into_bytes()) },
                            level,
                            span: None,
                        });
                        if let Some((v, e)) = decl {
                            reads.push(MRec {
                                ev: Ev::XmlDecl { version: v.map(|x| x.into_bytes()), enc: Some(e.into_bytes()), sa: -1 },
                                level: level + 1,
                                span: None,
                            });
                        }
                        self.d.ents.push((sys, td + &src));
                        self.d.labels.push("external parameter entity in an entity value");
                    } else {
                        // a % in the parameter entity would be looked at again
                        rb = ser(&b).replace('%', "_");
                        let l = self.entity_literal(&rb);
                        out += &format!("<!ENTITY % {} {}>", pe, l);
                        self.ev(Ev::Entity { name: pe.clone().into_bytes(), pe: true, value: Some(rb.clone().into_bytes()), base: base.clone(), sys: None, pubid: None, notation: None });
                    }
                    out += &format!("<!ENTITY {} {}%{};{}%{};{}>", name, q, pe, body, pe, q);
                    let repl = format!("{}{}{}", rb, ra, rb);
                    for _ in 0..2 {
                        self.d.evs.extend(reads.iter().cloned());
                    }
                    self.ev(Ev::Entity { name: name.clone().into_bytes(), pe: false, value: Some(repl.clone().into_bytes()), base, sys: None, pubid: None, notation: None });
                    let nodes = vec![Node::Text { src: repl.clone(), val: repl.clone() }];
                    if repl.contains("]]>") {
                        // cannot be referenced in content, but need not be
                        self.ents.insert(name, Entity { body: Body::Internal { nodes, repl, textual: false }, sys: None, pubid: None, base: None, size: 9 });
                    } else {
                        self.ents.insert(name.clone(), Entity { body: Body::Internal { nodes, repl, textual: true }, sys: None, pubid: None, base: None, size: 9 });
                        self.order.push(name);
                    }
                    self.d.labels.push("parameter entity in an entity value");
                }
                _ => out += &self.sp(),
            }
            out += &self.osp();
        }
        out
    }
    /// The reading of an external parameter entity (or external subset) at this point.
    fn ext_pe(&mut self, base: Option<B>, sys: &str, pubid: Option<String>, k: usize, depth: usize) {
        self.ev(Ev::ExtRef { ctx: None, base, sys: Some(sys.as_bytes().to_vec()), pubid: pubid.map(|p| p.into_bytes()) });
        self.level += 1;
        let save = std::mem::replace(&mut self.inrepl, false);
        let saveincl = std::mem::replace(&mut self.incl, false);
        let (td, decl) = self.textdecl();
        if let Some((v, e)) = decl {
            self.ev(Ev::XmlDecl { version: v.map(|x| x.into_bytes()), enc: Some(e.into_bytes()), sa: -1 });
        }
        let body = self.decls(k, depth, true);
        self.inrepl = save;
        self.incl = saveincl;
        self.level -= 1;
        let text = td + &body;
        self.d.ents.push((sys.to_string(), text));
    }

    // ---- meaning ----
    /// The value of an attribute, given its parts.
    pub fn norm(&self, parts: &[Node], cdata: bool) -> String {
        let mut s = String::new();
        self.att_text(parts, &mut s);
        if cdata {
            return s;
        }
        let mut o = String::new();
        for c in s.chars() {
            if c == ' ' && (o.is_empty() || o.ends_with(' ')) {
                continue;
            }
            o.push(c);
        }
        if o.ends_with(' ') {
            o.pop();
        }
        o
    }
    fn att_text(&self, parts: &[Node], s: &mut String) {
        for p in parts {
            match p {
                Node::Text { val, .. } => s.extend(val.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c })),
                Node::Ch { c, .. } => s.push(*c),
                Node::Pre { c, .. } => s.push(*c),
                Node::Skip(_) => {}
                Node::Ref(n) => {
                    if let Body::Internal { nodes, .. } = &self.ents[n].body {
                        self.att_text(nodes, s);
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    fn qname(&self, n: &str, sc: &[(String, String)], attr: bool) -> B {
        let sep = match self.d.ns {
            None => return n.as_bytes().to_vec(),
            Some(s) => s,
        };
        let (prefix, local) = match n.find(':') {
            Some(i) => (&n[..i], &n[i + 1..]),
            None => ("", n),
        };
        if attr && prefix.is_empty() {
            return n.as_bytes().to_vec();
        }
        let uri = if prefix == "xml" { XMLNS.to_string() } else { lookup(sc, prefix).unwrap_or_default() };
        if uri.is_empty() {
            return n.as_bytes().to_vec();
        }
        let mut s = uri;
        if sep != '\0' {
            s.push(sep);
        }
        s += local;
        if self.d.triplets && !prefix.is_empty() && sep != '\0' {
            s.push(sep);
            s += prefix;
        }
        s.into_bytes()
    }
    fn put(&mut self, ev: Ev, span: Option<(usize, usize)>) {
        let level = self.level;
        if let Ev::Text(b) = &ev {
            if b.is_empty() {
                return;
            }
            if let Some(MRec { ev: Ev::Text(a), level: l, span: sp }) = self.d.evs.last_mut() {
                if *l == level {
                    if let (Some(x), Some(y)) = (sp, span) {
                        x.1 = x.1.max(y.1);
                    }
                    a.extend_from_slice(b);
                    return;
                }
            }
        }
        self.d.evs.push(MRec { ev, level, span });
    }
    /// Walks nodes whose text starts at `at` in the entity of this level; `fix` is the span of the
    /// outermost reference when inside the replacement text of internal entities.
    fn walk(&mut self, nodes: &[Node], sc: &mut Scope, at: usize, fix: Option<(usize, usize)>) {
        let mut at = at;
        for n in nodes {
            let len = ser_len(n);
            let span = Some(fix.unwrap_or((at, at + len)));
            match n {
                Node::Text { val, .. } => self.put(Ev::Text(val.clone().into_bytes()), span),
                Node::Ch { c, .. } => self.put(Ev::Text(c.to_string().into_bytes()), span),
                Node::Pre { c, .. } => self.put(Ev::Text(c.to_string().into_bytes()), span),
                Node::Cdata { val, .. } => {
                    self.put(Ev::CdStart, Some(fix.unwrap_or((at, at + 9))));
                    self.put(Ev::Text(val.clone().into_bytes()), Some(fix.unwrap_or((at + 9, at + len - 3))));
                    self.put(Ev::CdEnd, Some(fix.unwrap_or((at + len - 3, at + len))));
                }
                Node::Comment { val, .. } => self.put(Ev::Comment(val.clone().into_bytes()), span),
                Node::Pi { target, data, .. } => self.put(Ev::Pi(target.clone().into_bytes(), data.clone().into_bytes()), span),
                Node::Skip(n) => self.put(Ev::Skipped(n.clone().into_bytes(), false), span),
                Node::Ref(name) => {
                    let e = self.ents[name].clone();
                    sc.open.push(name.clone());
                    match &e.body {
                        Body::Internal { nodes, .. } => self.walk(nodes, sc, 0, span),
                        Body::External { nodes, decl, text } => {
                            let mut set: Vec<B> = sc.open.iter().map(|n| n.clone().into_bytes()).collect();
                            if self.d.ns.is_some() {
                                set.push(format!("xml={}", XMLNS).into_bytes());
                                let mut seen: Vec<&str> = vec![];
                                for (p, u) in sc.b.iter().rev() {
                                    if !seen.contains(&p.as_str()) {
                                        seen.push(p);
                                        if !u.is_empty() {
                                            set.push(format!("{}={}", p, u).into_bytes());
                                        }
                                    }
                                }
                            }
                            set.sort();
                            set.dedup();
                            self.put(
                                Ev::ExtRef {
                                    ctx: Some(set),
                                    base: e.base.clone().map(|x| x.into_bytes()),
                                    sys: e.sys.clone().map(|x| x.into_bytes()),
                                    pubid: e.pubid.clone().map(|x| x.into_bytes()),
                                },
                                span,
                            );
                            self.level += 1;
                            let body: usize = nodes.iter().map(ser_len).sum();
                            let off = text.len() - body;
                            if let Some((v, enc)) = decl {
                                self.put(Ev::XmlDecl { version: v.clone().map(|x| x.into_bytes()), enc: Some(enc.clone().into_bytes()), sa: -1 }, Some((0, off)));
                            }
                            self.walk(nodes, sc, off, None);
                            self.level -= 1;
                            // the parent's text does not join across
                        }
                    }
                    sc.open.pop();
                }
                Node::Elem(e) => {
                    let mark = sc.b.len();
                    let defs: Vec<AttDef> = self.attlists.get(&e.name).cloned().unwrap_or_default();
                    let ns = self.d.ns.is_some();
                    let is_decl = |n: &str| ns && (n == "xmlns" || n.starts_with("xmlns:"));
                    let mut decl: Vec<(String, String)> = vec![];
                    let mut atts: Vec<(String, String)> = vec![];
                    let mut id = -1;
                    for a in &e.atts {
                        let cdata = defs.iter().find(|d| d.name == a.name).map_or(true, |d| d.cdata);
                        let v = self.norm(&a.parts, cdata);
                        if is_decl(&a.name) {
                            decl.push((a.name[5..].trim_start_matches(':').to_string(), v));
                        } else {
                            if self.ids.get(&e.name) == Some(&a.name) {
                                id = 2 * atts.len() as i32;
                            }
                            atts.push((a.name.clone(), v));
                        }
                    }
                    let nspec = 2 * atts.len() as i32;
                    for d in &defs {
                        if let Some(v) = &d.value {
                            if e.atts.iter().any(|a| a.name == d.name) {
                                continue;
                            }
                            if is_decl(&d.name) {
                                decl.push((d.name[5..].trim_start_matches(':').to_string(), v.clone()));
                            } else {
                                atts.push((d.name.clone(), v.clone()));
                            }
                        }
                    }
                    for (p, u) in &decl {
                        sc.b.push((p.clone(), u.clone()));
                        self.put(
                            Ev::NsStart(
                                if p.is_empty() { None } else { Some(p.clone().into_bytes()) },
                                if u.is_empty() { None } else { Some(u.clone().into_bytes()) },
                            ),
                            Some(fix.unwrap_or((at, at + e.open.len()))),
                        );
                    }
                    let name = self.qname(&e.name, &sc.b, false);
                    let avs: Vec<(B, B)> = atts.iter().map(|(n, v)| (self.qname(n, &sc.b, true), v.clone().into_bytes())).collect();
                    self.put(Ev::Start { name: name.clone(), atts: avs, nspec, id }, Some(fix.unwrap_or((at, at + e.open.len()))));
                    let end = if e.empty {
                        // the end of an empty-element tag is where the tag ends
                        fix.or(Some((at + e.open.len(), at + e.open.len())))
                    } else {
                        self.walk(&e.kids, sc, at + e.open.len(), fix);
                        let kl: usize = e.kids.iter().map(ser_len).sum();
                        let c = at + e.open.len() + kl;
                        fix.or(Some((c, c + e.close.len())))
                    };
                    self.put(Ev::End(name), end);
                    for (p, _) in decl.iter().rev() {
                        self.put(Ev::NsEnd(if p.is_empty() { None } else { Some(p.clone().into_bytes()) }), end);
                    }
                    sc.b.truncate(mark);
                }
            }
            at += len;
        }
    }

    // ---- the document ----
    fn misc(&mut self, s: &mut String) {
        let n = self.t.below(4).saturating_sub(1);
        for _ in 0..n {
            match self.t.below(4) {
                0 | 1 => *s += &self.sp(),
                2 => {
                    let c = self.comment();
                    let at = s.len();
                    *s += &ser(&c);
                    if let Node::Comment { val, .. } = c {
                        self.put(Ev::Comment(val.into_bytes()), Some((at, s.len())));
                    }
                }
                _ => {
                    let c = self.pi();
                    let at = s.len();
                    *s += &ser(&c);
                    if let Node::Pi { target, data, .. } = c {
                        self.put(Ev::Pi(target.into_bytes(), data.into_bytes()), Some((at, s.len())));
                    }
                }
            }
        }
    }
    pub fn document(mut self) -> MDoc {
        if self.o.ns {
            self.d.ns = Some(['\u{1}', '|', '^', '\n', '\0'][self.t.below(5)]);
            self.d.triplets = self.t.chance(1, 3);
            if self.d.triplets && self.d.ns == Some('\0') {
                self.d.triplets = false;
            }
        }
        let mut s = String::new();
        let dtd = self.o.dtd && self.t.chance(3, 4);
        let subset = dtd && (self.o.skips || (self.o.ext && self.o.pes && self.t.chance(1, 3)));
        self.d.has_skips = self.o.skips && dtd;
        self.d.pe = if self.o.skips {
            0
        } else if dtd && self.o.pes {
            1 + self.t.below(2) as u8
        } else {
            self.t.below(3) as u8
        };
        if self.o.skips {
            // unread parameter entities would stop the processing of declarations
            self.o.pes = false;
        }
        if self.t.chance(1, 4) {
            self.d.base = Some(["http://b/", "b"][self.t.below(2)].to_string());
        }
        if self.o.xmldecl && self.t.chance(1, 3) {
            s += "<?xml";
            s += &self.sp();
            s += "version";
            s += &self.osp();
            s += "=";
            s += &self.osp();
            s += &self.literal("1.0");
            let mut enc = None;
            if self.t.chance(1, 3) && self.o.maxcp == 0x10ffff {
                let e = ["UTF-8", "utf-8"][self.t.below(2)];
                s += &self.sp();
                s += "encoding";
                s += &self.osp();
                s += "=";
                s += &self.osp();
                s += &self.literal(e);
                enc = Some(e.as_bytes().to_vec());
            }
            let mut sa = -1;
            if self.t.chance(1, 3) {
                let yes = !dtd && self.t.chance(1, 2);
                s += &self.sp();
                s += "standalone";
                s += &self.osp();
                s += "=";
                s += &self.osp();
                s += &self.literal(if yes { "yes" } else { "no" });
                sa = yes as i32;
            }
            s += &self.osp();
            s += "?>";
            self.put(Ev::XmlDecl { version: Some(b"1.0".to_vec()), enc, sa }, Some((0, s.len())));
        }
        self.misc(&mut s);
        self.d.before_dtd = (s.len(), self.d.evs.len());
        if dtd {
            self.d.has_dtd = true;
            // namespace declarations that come from defaults
            if self.o.ns {
                for el in ["a", "b"].iter() {
                    if self.t.chance(1, 5) {
                        let p = ["p", "", "q"][self.t.below(3)].to_string();
                        let u = self.uri();
                        self.plan.insert(el.to_string(), vec![(p, u)]);
                    }
                }
            }
            s += "<!DOCTYPE";
            s += &self.sp();
            let name = self.name_from(ELS);
            s += &name;
            let mut sub = None;
            if subset {
                let sys = self.new_sys();
                s += &self.sp();
                let (x, p) = self.extid(&sys);
                s += &x;
                sub = Some((sys, p));
            }
            s += &self.osp();
            let internal = self.t.chance(5, 6) || !self.plan.is_empty();
            self.ev(Ev::DtStart {
                name: name.into_bytes(),
                sys: sub.as_ref().map(|x| x.0.clone().into_bytes()),
                pubid: sub.as_ref().and_then(|x| x.1.clone()).map(|x| x.into_bytes()),
                internal,
            });
            if internal {
                s += "[";
                let at = self.d.evs.len();
                if !self.plan.is_empty() {
                    for _ in 0..self.plan.len() {
                        let t = self.decl_attlist();
                        self.markup("ATTLIST", t, false, &mut s, at);
                    }
                }
                let n = self.t.below(self.o.decls + 1);
                s += &self.decls(n, 2, false);
                self.d.subset_end = Some((s.len(), self.d.evs.len()));
                s += "]";
                s += &self.osp();
            }
            s += ">";
            if let (Some((sys, p)), false) = (sub, self.o.skips) {
                let base = self.cur_base();
                let k = self.t.below(4);
                self.ext_pe(base, &sys, p, k, 2);
                self.d.labels.push("external subset");
            }
            self.ev(Ev::DtEnd);
            self.misc(&mut s);
        }
        self.budget = 60;
        let at = s.len();
        let d = self.o.depth;
        let root = self.element(d, &[]);
        s += &ser(&root);
        self.d.root = (at, s.len());
        let mut sc = Scope { b: vec![], open: vec![] };
        let nodes = [root];
        self.walk(&nodes, &mut sc, at, None);
        self.misc(&mut s);
        self.d.text = s;
        let mut names: Vec<(String, char)> = self.ents.iter().map(|(n, e)| (n.clone(), if let Body::Internal { .. } = e.body { 'i' } else { 'e' })).collect();
        names.sort();
        self.d.names.extend(names);
        self.t.flip();
        self.d
    }
}

fn push_binding(s: &mut Vec<(String, String)>, p: &str, u: &str) {
    s.retain(|x| x.0 != p);
    s.push((p.to_string(), u.to_string()));
}
fn lookup(s: &[(String, String)], p: &str) -> Option<String> {
    s.iter().rev().find(|x| x.0 == p).map(|x| x.1.clone())
}
pub fn src_of(n: &Node) -> &str {
    match n {
        Node::Text { src, .. } | Node::Ch { src, .. } | Node::Cdata { src, .. } | Node::Comment { src, .. } | Node::Pi { src, .. } => src,
        Node::Pre { src, .. } => src,
        Node::Ref(_) | Node::Skip(_) | Node::Elem(_) => unreachable!(),
    }
}
pub fn ser_len(n: &Node) -> usize {
    match n {
        Node::Ref(n) | Node::Skip(n) => n.len() + 2,
        Node::Elem(e) => e.open.len() + e.close.len() + e.kids.iter().map(ser_len).sum::<usize>(),
        x => src_of(x).len(),
    }
}
pub fn ser(n: &Node) -> String {
    let mut s = String::new();
    ser_into(n, &mut s);
    s
}
fn ser_into(n: &Node, s: &mut String) {
    match n {
        Node::Ref(n) | Node::Skip(n) => {
            s.push('&');
            s.push_str(n);
            s.push(';');
        }
        Node::Elem(e) => {
            s.push_str(&e.open);
            for k in &e.kids {
                ser_into(k, s);
            }
            s.push_str(&e.close);
        }
        x => s.push_str(src_of(x)),
    }
}
