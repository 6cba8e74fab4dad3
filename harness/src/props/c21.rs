//! Sizes.
use super::common::*;
use super::*;

/// A document with constructs of chosen sizes, and what must be reported.
pub struct Big {
    pub text: String,
    pub exp: Vec<Rec>,
    /// extent in the text of the event with this number
    pub span: Vec<(usize, usize, usize)>,
    /// 0: accepted
    pub err: u32,
    pub cfg: Cfg,
    pub labels: Vec<&'static str>,
    /// the largest size that occurs
    pub top: usize,
}
struct Mk {
    r: Rng,
    /// limits on lengths and on counts
    max: usize,
    cnt: usize,
    dtd: String,
    dexp: Vec<Rec>,
    doc: String,
    cexp: Vec<Rec>,
    /// event number in cexp, offsets in doc
    cspan: Vec<(usize, usize, usize)>,
    err: u32,
    k: usize,
    cfg: Cfg,
    left: usize,
    top: usize,
    /// every length is the first, every count the second
    fix: Option<(usize, usize)>,
}
fn b(s: &str) -> B {
    s.as_bytes().to_vec()
}
/// Sizes: near powers of two and multiples of the initial sizes, or anything.
pub fn size(r: &mut Rng, max: usize) -> usize {
    let bits = 64 - (max.max(1) as u64).leading_zeros() as usize;
    let v = match r.below(8) {
        0..=2 => (1usize << r.below(bits.max(1))) + r.below(7),
        3 => (1usize << r.below(bits.max(1))) + (1usize << r.below(bits.max(1))) + r.below(7),
        4 => 256 * r.below(max / 256 + 1) + r.below(7),
        5 => 24 + 1024 * r.below(max / 1024 + 1) + r.below(7),
        6 => {
            let k = r.below(bits + 1);
            r.below((1usize << k) + 1)
        }
        _ => r.below(max + 1),
    };
    v.saturating_sub(3).min(max)
}
impl Mk {
    fn len(&mut self) -> usize {
        if let Some(f) = self.fix {
            return f.0;
        }
        let m = self.max.min(self.left);
        let n = size(&mut self.r, m);
        self.left -= n.min(self.left);
        self.top = self.top.max(n);
        n
    }
    fn count(&mut self) -> usize {
        if let Some(f) = self.fix {
            return f.1;
        }
        let m = self.cnt.min(self.left / 8);
        let n = size(&mut self.r, m);
        self.left -= (n * 8).min(self.left);
        self.top = self.top.max(n);
        n
    }
    /// A name of exactly this many characters (at least as many as needed to be unique).
    fn name(&mut self, n: usize) -> String {
        self.k += 1;
        let u = format!("n{}", self.k);
        let kind = self.r.below(4);
        let mut s = String::new();
        let fill = |r: &mut Rng| match kind {
            0 => 'a',
            1 => ['é', 'ß', 'Ω'][r.below(3)],
            2 => ['日', '本', '語', '가'][r.below(4)],
            _ => ['a', 'é', '日', '-', '.', '7', 'z', '_'][r.below(8)],
        };
        let rest = n.saturating_sub(u.len());
        if self.r.below(2) == 0 {
            // the difference is at the end
            s.push('p');
            for _ in 1..rest {
                let c = fill(&mut self.r);
                s.push(c);
            }
            s += &u;
        } else {
            s += &u;
            s.push('-');
            for _ in 1..rest {
                let c = fill(&mut self.r);
                s.push(c);
            }
        }
        s
    }
    /// Plain characters.
    fn chars(&mut self, n: usize, set: &[char]) -> String {
        match self.r.below(3) {
            0 => {
                let c = set[self.r.below(set.len())];
                std::iter::repeat(c).take(n).collect()
            }
            1 => {
                let c = set[self.r.below(set.len())];
                let mut s: String = std::iter::repeat(c).take(n.saturating_sub(1)).collect();
                if n > 0 {
                    let at = self.r.below(4.min(n));
                    let d = set[self.r.below(set.len())];
                    let at = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
                    s.insert(at, d);
                }
                s
            }
            _ => (0..n).map(|_| set[self.r.below(set.len())]).collect(),
        }
    }
    /// Source and meaning of n pieces of text; `att`: as an attribute value in double quotes.
    fn mixed(&mut self, n: usize, att: bool) -> (String, String) {
        let (mut s, mut e) = (String::new(), String::new());
        let one = if self.r.below(2) == 0 { Some(self.r.below(14)) } else { None };
        for _ in 0..n {
            let k = match one {
                Some(k) if self.r.below(20) > 0 => k,
                _ => self.r.below(14),
            };
            let (a, m): (&str, &str) = match k {
                0 | 1 => ("x", "x"),
                2 => ("é", "é"),
                3 => ("日", "日"),
                4 => ("𝒳", "𝒳"),
                5 => ("\n", "\n"),
                6 => ("\r\n", "\n"),
                7 => ("\r", "\n"),
                8 => ("&amp;", "&"),
                9 => ("&#233;", "é"),
                10 => ("&#x1D4B3;", "𝒳"),
                11 => ("&#10;", "\u{1}"),
                12 => ("]", "]"),
                _ => (" ", " "),
            };
            if a == "\n" && s.ends_with('\r') {
                continue;
            }
            s += a;
            if att && m == "\n" {
                e += " ";
            } else {
                e += m;
            }
        }
        (s, e.replace('\u{1}', "\n"))
    }
    fn c(&mut self, ev: Ev) {
        self.cexp.push(rec0(ev));
    }
    /// An event whose markup has just been written from `from` on.
    fn cs(&mut self, from: usize, ev: Ev) {
        self.cspan.push((self.cexp.len(), from, self.doc.len()));
        self.cexp.push(rec0(ev));
    }
    fn empty(&mut self, name: &str, atts: Vec<(B, B)>, nspec: i32, id: i32, src: &str) {
        let from = self.doc.len();
        self.doc += src;
        let n = b(name);
        self.cs(from, Ev::Start { name: n.clone(), atts, nspec, id });
        self.c(Ev::End(n));
    }
    fn part(&mut self, what: usize) -> &'static str {
        const T: &[char] = &['t', 'é', '日', '𝒳', ' ', '>', '\'', '-'];
        match what {
            0 => {
                let n = self.len();
                let nm = self.name(n);
                let from = self.doc.len();
                if self.r.below(2) == 0 {
                    self.empty(&nm.clone(), vec![], 0, -1, &format!("<{}/>", nm));
                } else {
                    self.doc += &format!("<{}>", nm);
                    self.cs(from, Ev::Start { name: b(&nm), atts: vec![], nspec: 0, id: -1 });
                    let from = self.doc.len();
                    self.doc += &format!("</{}>", nm);
                    self.cs(from, Ev::End(b(&nm)));
                }
                "long element name"
            }
            1 => {
                let (n, m) = (self.len(), self.len());
                let nm = self.name(n);
                let (s, e) = self.mixed(m, true);
                self.empty("e", vec![(b(&nm), b(&e))], 2, -1, &format!("<e {}=\"{}\"/>", nm, s));
                "long attribute"
            }
            2 => {
                let n = self.count();
                let mut s = String::from("<e");
                let mut v = vec![];
                for _ in 0..n {
                    let l = self.r.below(12);
                    let nm = self.name(l);
                    s += &format!(" {}='{}'", nm, v.len());
                    v.push((b(&nm), b(&v.len().to_string())));
                }
                if n > 0 && self.err == 0 && self.r.below(8) == 0 {
                    let k = self.r.below(n);
                    s += &format!(" {}=''", String::from_utf8_lossy(&v[k].0));
                    self.doc += &s;
                    self.doc += "/>";
                    self.err = 8;
                    return "many attributes, one twice";
                }
                s += "/>";
                self.empty("e", v, n as i32 * 2, -1, &s);
                "many attributes"
            }
            3 => {
                let n = self.len();
                let (s, e) = self.mixed(n, false);
                self.doc += &s;
                // two brackets before a `>` would not be text
                if !e.is_empty() {
                    self.c(Ev::Text(b(&e)));
                }
                self.empty("e", vec![], 0, -1, "<e/>");
                "long text"
            }
            4 => {
                let n = self.len();
                let s = self.chars(n, &['t', 'é', '日', '𝒳', '\n', '<', '&', ']', '-']);
                self.doc += &format!("<![CDATA[{}]]>", s);
                self.c(Ev::CdStart);
                if !s.is_empty() {
                    self.c(Ev::Text(b(&s)));
                }
                self.c(Ev::CdEnd);
                "long CDATA section"
            }
            5 => {
                let n = self.len();
                let s = self.chars(n, &['t', 'é', '日', '𝒳', '\n', '<', '&', ']', ' ']);
                let from = self.doc.len();
                self.doc += &format!("<!--{}-->", s);
                self.cs(from, Ev::Comment(b(&s)));
                "long comment"
            }
            6 => {
                let (n, m) = (self.len(), self.len());
                let nm = self.name(n);
                let s = self.chars(m, &['t', 'é', '日', '𝒳', '\n', '<', '&', '?']);
                let from = self.doc.len();
                self.doc += &format!("<?{} {}?>", nm, s);
                let s = s.trim_start_matches('\n');
                self.cs(from, Ev::Pi(b(&nm), b(s)));
                "long processing instruction"
            }
            7 => {
                // elements in each other
                let n = self.count();
                let mut open = vec![];
                let l = self.r.below(40);
                let l = if self.r.below(3) == 0 { l } else { 0 };
                for i in 0..n {
                    let nm = if l > 0 && i % 5 == 0 { self.name(l) } else { "e".into() };
                    self.doc += &format!("<{}>", nm);
                    self.c(Ev::Start { name: b(&nm), atts: vec![], nspec: 0, id: -1 });
                    open.push(nm);
                }
                while let Some(nm) = open.pop() {
                    self.doc += &format!("</{}>", nm);
                    self.c(Ev::End(b(&nm)));
                }
                "many elements in each other"
            }
            8 => {
                let n = self.count();
                let mut names = vec![];
                for _ in 0..n {
                    let l = self.r.below(20);
                    let nm = self.name(l);
                    self.empty(&nm.clone(), vec![], 0, -1, &format!("<{}/>", nm));
                    names.push(nm);
                }
                // again, so that the right one must be found
                for _ in 0..n / 2 {
                    let nm = names[self.r.below(n)].clone();
                    self.empty(&nm.clone(), vec![], 0, -1, &format!("<{}/>", nm));
                }
                "many element names"
            }
            9 => {
                // entities
                let n = self.count();
                let mut names = vec![];
                for i in 0..n {
                    let l = self.r.below(16);
                    let nm = self.name(l);
                    let v = format!("v{}.", i);
                    self.dtd += &format!("<!ENTITY {} '{}'>", nm, v);
                    self.dexp.push(rec0(Ev::Entity { name: b(&nm), pe: false, value: Some(b(&v)), base: None, sys: None, pubid: None, notation: None }));
                    names.push((nm, v));
                }
                let mut e = String::new();
                let mut s = String::new();
                if n > 0 {
                    for _ in 0..n {
                        let (a, v) = &names[self.r.below(n)];
                        s += &format!("&{};", a);
                        e += v;
                    }
                }
                if self.r.below(2) == 0 {
                    self.doc += &s;
                    if n > 0 {
                        self.c(Ev::Text(b(&e)));
                    }
                    self.empty("e", vec![], 0, -1, "<e/>");
                } else {
                    self.empty("e", vec![(b("a"), b(&e))], 2, -1, &format!("<e a=\"{}\"/>", s));
                }
                "many entities"
            }
            10 => {
                // a long entity
                let (n, m) = (self.len(), self.len());
                let nm = self.name(n);
                let v = self.chars(m, &['t', 'é', '日', '𝒳', '>', '\'', '-']);
                self.dtd += &format!("<!ENTITY {} \"{}\">", nm, v);
                self.dexp.push(rec0(Ev::Entity { name: b(&nm), pe: false, value: Some(b(&v)), base: None, sys: None, pubid: None, notation: None }));
                if self.r.below(2) == 0 {
                    self.doc += &format!("&{};", nm);
                    if m > 0 {
                        self.c(Ev::Text(b(&v)));
                    }
                    self.empty("e", vec![], 0, -1, "<e/>");
                } else {
                    self.empty("e", vec![(b("a"), b(&v))], 2, -1, &format!("<e a='&{};'/>", nm));
                }
                "long entity"
            }
            11 => {
                // defaults
                let n = self.count().min(1500);
                let el = self.name(4);
                let mut v = vec![];
                for i in 0..n {
                    let l = self.r.below(10);
                    let a = self.name(l);
                    let d = if self.r.below(8) == 0 { None } else { Some(format!("d{}", i)) };
                    self.dtd += &format!("<!ATTLIST {} {} CDATA {}>", el, a, d.as_ref().map_or("#IMPLIED".into(), |d| format!("'{}'", d)));
                    self.dexp.push(rec0(Ev::Attlist { el: b(&el), att: b(&a), ty: b("CDATA"), dflt: d.as_ref().map(|d| b(d)), req: 0 }));
                    v.push((a, d));
                }
                let mut s = format!("<{}", el);
                let mut atts = vec![];
                let some = [0, 3, 50, 100][self.r.below(4)];
                for (i, (a, d)) in v.iter_mut().enumerate() {
                    if self.r.below(100) < some {
                        *d = None;
                        s += &format!(" {}='s{}'", a, i);
                        atts.push((b(a), b(&format!("s{}", i))));
                    }
                }
                s += "/>";
                let nspec = atts.len() as i32 * 2;
                for (a, d) in v {
                    if let Some(d) = d {
                        atts.push((b(&a), b(&d)));
                    }
                }
                self.empty(&el.clone(), atts, nspec, -1, &s);
                "many default attributes"
            }
            12 => {
                // an enumeration
                let n = self.count().max(1);
                let el = self.name(4);
                let toks: Vec<String> = (0..n)
                    .map(|_| {
                        let l = self.r.below(12);
                        self.name(l)
                    })
                    .collect();
                let l = toks.join("|");
                self.dtd += &format!("<!ATTLIST {} a ({}) '{}'>", el, toks.join(["|", " | ", "|\n"][self.r.below(3)]), toks[n - 1]);
                self.dexp.push(rec0(Ev::Attlist { el: b(&el), att: b("a"), ty: b(&format!("({})", l)), dflt: Some(b(&toks[n - 1])), req: 0 }));
                self.empty(&el.clone(), vec![(b("a"), b(&toks[n - 1]))], 0, -1, &format!("<{}/>", el));
                "long enumeration"
            }
            13 => {
                // a content model
                let n = self.count().max(1);
                let l = self.len();
                let el = self.name(l);
                let mut budget = n;
                let (s, m) = self.group(&mut budget, 0);
                self.dtd += &format!("<!ELEMENT {} {}>", el, s);
                self.dexp.push(rec0(Ev::Element { name: b(&el), model: m }));
                "large content model"
            }
            NESTED => {
                // groups in groups
                let n = self.count().clamp(1, 3000);
                let el = self.name(4);
                let one = |x: &str| Model { typ: 4, quant: 0, name: Some(b(x)), kids: vec![] };
                let mut m = one("q");
                let (mut pre, mut post) = (String::new(), String::new());
                for _ in 0..n {
                    let q = self.r.below(12);
                    let quant = if q < 4 { q as u32 } else { 0 };
                    let (mut l, mut r) = (String::from("("), String::from(")") + ["", "?", "*", "+"][quant as usize]);
                    let mut kids = vec![];
                    let seq = self.r.below(2) == 0;
                    let c = if seq { "," } else { "|" };
                    if self.r.below(6) == 0 {
                        l += &format!("a{}", c);
                        kids.push(one("a"));
                    }
                    kids.push(m);
                    if self.r.below(6) == 0 {
                        r = format!("{}z{}", c, r);
                        kids.push(one("z"));
                    }
                    m = Model { typ: if kids.len() == 1 || seq { 6 } else { 5 }, quant, name: None, kids };
                    pre.insert_str(0, &l);
                    post += &r;
                }
                self.dtd += &format!("<!ELEMENT {} {}q{}>", el, pre, post);
                self.dexp.push(rec0(Ev::Element { name: b(&el), model: m }));
                "nested groups"
            }
            14 => {
                let n = self.count();
                let el = self.name(4);
                let mut kids = vec![];
                let mut s = String::from("(#PCDATA");
                for _ in 0..n {
                    let l = self.r.below(10);
                    let nm = self.name(l);
                    s += &format!("|{}", nm);
                    kids.push(Model { typ: 4, quant: 0, name: Some(b(&nm)), kids: vec![] });
                }
                s += ")*";
                self.dtd += &format!("<!ELEMENT {} {}>", el, s);
                self.dexp.push(rec0(Ev::Element { name: b(&el), model: Model { typ: 3, quant: 2, name: None, kids } }));
                "large mixed content"
            }
            15 => {
                // notations and unparsed entities, long identifiers
                let (n, m, k) = (self.len(), self.len(), self.len());
                let nm = self.name(n);
                let p = self.chars(m, &['p', '-', '/', ' ', 'A', ' ', '\n']);
                let sy = self.chars(k, &['s', 'é', '日', '𝒳', '"', '#']);
                self.dtd += &format!("<!NOTATION {} PUBLIC \"{}\" '{}'>", nm, p, sy);
                let p: String = p.split(|c: char| c == ' ' || c == '\n').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ");
                self.dexp.push(rec0(Ev::Notation { name: b(&nm), base: None, sys: Some(b(&sy)), pubid: Some(b(&p)) }));
                if self.r.below(2) == 0 {
                    let u = self.name(n / 2);
                    self.dtd += &format!("<!ENTITY {} SYSTEM '{}' NDATA {}>", u, sy, nm);
                    self.dexp.push(rec0(Ev::Unparsed { name: b(&u), base: None, sys: Some(b(&sy)), pubid: None, notation: Some(b(&nm)) }));
                }
                "long identifiers"
            }
            16 => {
                let n = self.len();
                let s = self.chars(n, &['t', 'é', '日', '𝒳', '\n', '<', '&', ']', ' ', '"']);
                if self.r.below(2) == 0 {
                    self.dtd += &format!("<!--{}-->", s);
                    self.dexp.push(rec0(Ev::Comment(b(&s))));
                } else {
                    self.dtd += &format!("<?p {}?>", s);
                    self.dexp.push(rec0(Ev::Pi(b("p"), b(s.trim_start_matches(|c| c == ' ' || c == '\n')))));
                }
                "long comment or instruction in the DTD"
            }
            17 => {
                // declarations in a parameter entity
                let n = self.count();
                let p = self.name(5);
                let mut v = String::new();
                let mut evs = vec![];
                for i in 0..n {
                    let l = self.r.below(10);
                    let e = self.name(l);
                    v += &format!("<!ENTITY {} \"{}\">", e, i);
                    evs.push(rec0(Ev::Entity { name: b(&e), pe: false, value: Some(b(&i.to_string())), base: None, sys: None, pubid: None, notation: None }));
                }
                self.dtd += &format!("<!ENTITY % {} '{}'>%{};", p, v, p);
                self.dexp.push(rec0(Ev::Entity { name: b(&p), pe: true, value: Some(b(&v)), base: None, sys: None, pubid: None, notation: None }));
                self.dexp.extend(evs);
                self.cfg.pe = 2;
                "large parameter entity"
            }
            18 => {
                // an external entity
                let n = self.len();
                let nm = self.name(3);
                let (s, e) = self.mixed(n, false);
                let sys = format!("sys{}", self.k);
                self.dtd += &format!("<!ENTITY {} SYSTEM '{}'>", nm, sys);
                self.dexp.push(rec0(Ev::Entity { name: b(&nm), pe: false, value: None, base: None, sys: Some(b(&sys)), pubid: None, notation: None }));
                self.doc += &format!("&{};", nm);
                let mut ctx = vec![b(&nm)];
                if self.cfg.ns.is_some() {
                    ctx.push(b("xml=http://www.w3.org/XML/1998/namespace"));
                }
                self.c(Ev::ExtRef { ctx: Some(ctx), base: None, sys: Some(b(&sys)), pubid: None });
                let x = self.r.below(3);
                self.cexp.push(Rec { ev: Ev::Start { name: b("x"), atts: vec![], nspec: 0, id: -1 }, pos: None, level: 1 });
                if !e.is_empty() {
                    self.cexp.push(Rec { ev: Ev::Text(b(&e)), pos: None, level: 1 });
                }
                self.cexp.push(Rec { ev: Ev::End(b("x")), pos: None, level: 1 });
                let data = format!("<x>{}</x>", s).into_bytes();
                let feeds = if x == 0 { one_feed() } else { feeds_from(&(1..data.len() / 1000 + 1).map(|i| i * (900 + x)).collect::<Vec<_>>(), data.len(), move |_| (x as u8, 3), false) };
                self.cfg.ents.push(ExtEnt { sys, data, enc: None, feeds, mode: 1 });
                "large external entity"
            }
            19 => {
                // entity values built from references
                let n = self.count();
                let nm = self.name(3);
                let (mut s, mut e) = (String::new(), String::new());
                for i in 0..n {
                    match self.r.below(3) {
                        0 => {
                            s += "&#x65E5;";
                            e += "日";
                        }
                        1 => {
                            s += "&#119987;";
                            e += "𝒳";
                        }
                        _ => {
                            s += &format!("{}\r\n", i);
                            e += &format!("{}\n", i);
                        }
                    }
                }
                self.dtd += &format!("<!ENTITY {} '{}'>", nm, s);
                self.dexp.push(rec0(Ev::Entity { name: b(&nm), pe: false, value: Some(b(&e)), base: None, sys: None, pubid: None, notation: None }));
                "entity value of many references"
            }
            20 => {
                // names in namespaces
                let k = 1 + self.r.below(3);
                let mut ns = vec![];
                for _ in 0..k {
                    let (n, m) = (self.len(), self.len());
                    let p = if self.r.below(4) == 0 && ns.iter().all(|x: &(String, String)| !x.0.is_empty()) { String::new() } else { self.name(n) };
                    let u = self.chars(m, &['u', 'é', '日', '𝒳', '/', ':']) + &self.name(1);
                    ns.push((p, u));
                }
                let inner = self.r.below(6);
                let close = self.open(&ns, &[]);
                for _ in 0..inner {
                    if self.r.below(4) == 0 {
                        let m = self.len();
                        let u = self.chars(m, &['u', 'é']) + &self.name(1);
                        let i = self.r.below(k);
                        let one = (ns[i].0.clone(), u);
                        let c = self.open(&[one.clone()], &ns);
                        self.shut(c);
                    } else {
                        let c = self.open(&[], &ns);
                        self.shut(c);
                    }
                }
                self.shut(close);
                "long namespace names"
            }
            21 => {
                // many namespaces
                let n = self.count();
                let mut ns = vec![];
                for i in 0..n {
                    let l = self.r.below(6);
                    ns.push((self.name(l), format!("u{}", i)));
                }
                let c = self.open(&ns, &[]);
                for _ in 0..self.r.below(4) {
                    let c = self.open(&[], &ns);
                    self.shut(c);
                }
                self.shut(c);
                "many namespaces"
            }
            22 => {
                // declarations one within the other
                let n = self.count();
                let mut all: Vec<(String, String)> = vec![];
                let mut open = vec![];
                for i in 0..n {
                    let l = self.r.below(30);
                    let p = if self.r.below(3) == 0 && !all.is_empty() { all[self.r.below(all.len())].0.clone() } else { self.name(1) };
                    let one = (p, format!("{}{}", "w".repeat(l), i));
                    open.push(self.open(&[one.clone()], &[]));
                    all.push(one);
                }
                while let Some(c) = open.pop() {
                    self.shut(c);
                    all.pop();
                }
                "namespaces in namespaces"
            }
            _ => {
                let n = self.len();
                self.doc += "<e>";
                self.c(Ev::Start { name: b("e"), atts: vec![], nspec: 0, id: -1 });
                let s = self.chars(n, T);
                self.doc += &s;
                if n > 0 {
                    self.c(Ev::Text(b(&s)));
                }
                self.doc += "</e>";
                self.c(Ev::End(b("e")));
                "long plain text"
            }
        }
    }
    fn qname(&self, p: &str, u: Option<&str>, l: &str) -> B {
        match (self.cfg.ns, u) {
            (Some(_), Some(u)) if self.cfg.triplets && !p.is_empty() => b(&format!("{}|{}|{}", u, l, p)),
            (Some(_), Some(u)) => b(&format!("{}|{}", u, l)),
            _ if p.is_empty() => b(l),
            _ => b(&format!("{}:{}", p, l)),
        }
    }
    /// Start tag of an element that declares `ns`, within elements that declare `outer`; attributes with some of the prefixes.
    fn open(&mut self, ns: &[(String, String)], outer: &[(String, String)]) -> (String, Vec<String>, B) {
        let all: Vec<(String, String)> = outer.iter().filter(|o| ns.iter().all(|n| n.0 != o.0)).chain(ns).cloned().collect();
        let l = if self.fix.is_none() && self.r.below(2) == 0 { self.len().min(3000) } else { self.r.below(40) };
        let local = self.name(l);
        let dflt = all.iter().find(|x| x.0.is_empty()).map(|x| x.1.clone());
        let (p, u) = match self.r.below(4) {
            0 => (String::new(), dflt),
            _ if all.is_empty() => (String::new(), dflt),
            _ => {
                let x = all[self.r.below(all.len())].clone();
                (x.0, Some(x.1))
            }
        };
        let q = if p.is_empty() { local.clone() } else { format!("{}:{}", p, local) };
        let from = self.doc.len();
        self.doc += &format!("<{}", q);
        let on = self.cfg.ns.is_some();
        let mut atts = vec![];
        let every = [0, 2, 100][self.r.below(3)];
        let first = self.r.below(2) == 0;
        let mut s = String::new();
        for (i, x) in all.iter().enumerate() {
            if x.0.is_empty() || self.r.below(100) >= every && i > 3 {
                continue;
            }
            let al = self.r.below(60);
            let a = self.name(al);
            s += &format!(" {}:{}='{}'", x.0, a, i);
            atts.push((self.qname(&x.0, Some(&x.1), &a), b(&i.to_string())));
        }
        if first {
            self.doc += &s;
        }
        let mut decls = vec![];
        for (p, u) in ns {
            let n = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", p) };
            self.doc += &format!(" {}='{}'", n, u);
            if on {
                self.c(Ev::NsStart(if p.is_empty() { None } else { Some(b(p)) }, Some(b(u))));
            } else {
                decls.push((b(&n), b(u)));
            }
        }
        if first {
            atts.extend(decls);
        } else {
            self.doc += &s;
            decls.extend(atts);
            atts = decls;
        }
        self.doc += ">";
        let name = self.qname(&p, u.as_deref(), &local);
        let n = atts.len() as i32 * 2;
        self.cs(from, Ev::Start { name: name.clone(), atts, nspec: n, id: -1 });
        (q, ns.iter().map(|x| x.0.clone()).collect(), name)
    }
    fn shut(&mut self, c: (String, Vec<String>, B)) {
        let from = self.doc.len();
        self.doc += &format!("</{}>", c.0);
        self.cs(from, Ev::End(c.2));
        if self.cfg.ns.is_some() {
            for p in c.1.iter().rev() {
                self.c(Ev::NsEnd(if p.is_empty() { None } else { Some(b(p)) }));
            }
        }
    }
    fn group(&mut self, budget: &mut usize, depth: usize) -> (String, Model) {
        const Q: [&str; 4] = ["", "?", "*", "+"];
        let seq = self.r.below(2) == 0;
        let mut k = if depth == 0 { *budget } else { 1 + self.r.below(1 + (*budget).min(40)) };
        let mut kids = vec![];
        let mut s = String::from("(");
        let sub = [0, 3, 10][self.r.below(3)];
        while k > 0 && *budget > 0 {
            k -= 1;
            if !kids.is_empty() {
                s.push(if seq { ',' } else { '|' });
            }
            if depth < 30 && self.r.below(20) < sub {
                let (x, m) = self.group(budget, depth + 1);
                s += &x;
                kids.push(m);
            } else {
                *budget -= 1;
                let l = self.r.below(12);
                let nm = self.name(l);
                let q = self.r.below(4);
                s += &nm;
                s += Q[q];
                kids.push(Model { typ: 4, quant: q as u32, name: Some(b(&nm)), kids: vec![] });
            }
        }
        if kids.is_empty() {
            s += "q";
            kids.push(Model { typ: 4, quant: 0, name: Some(b("q")), kids: vec![] });
        }
        let q = self.r.below(4);
        s += ")";
        s += Q[q];
        // a single member makes a sequence
        let typ = if kids.len() == 1 || seq { 6 } else { 5 };
        (s, Model { typ, quant: q as u32, name: None, kids })
    }
}
const PARTS: usize = 24;
/// (what C27 has more of)
const NESTED: usize = PARTS;
/// One to four constructs; lengths up to `max`, counts up to `cnt`, `total` characters or so.
pub fn gen_big(t: &mut Tape, max: usize, cnt: usize, total: usize) -> Big {
    let parts = t.range(1, 4);
    let which: Vec<usize> = (0..parts).map(|_| t.below(PARTS + 1)).collect();
    make(t, which, max, cnt, total, None)
}
fn make(t: &mut Tape, which: Vec<usize>, max: usize, cnt: usize, total: usize, fix: Option<(usize, usize)>) -> Big {
    let longroot = t.chance(1, 4);
    let cfg = Cfg { h: H_ALL & !H_NOTSA & !H_UNKENC, ns: if t.chance(1, 2) { Some('|') } else { None }, triplets: t.chance(1, 2), salt: t.u32() as u64, max_depth: 4, max_events: 6_000_000, ..Cfg::default() };
    let mut m = Mk { r: rng_of(t), max, cnt, dtd: String::new(), dexp: vec![], doc: String::new(), cexp: vec![], cspan: vec![], err: 0, k: 0, cfg, left: total, top: 0, fix };
    let n = if longroot { m.len() } else { 1 };
    let root = if longroot { m.name(n) } else { "r".into() };
    let mut labels = vec![];
    for w in which {
        labels.push(m.part(w));
        if m.err != 0 {
            break;
        }
    }
    let mut exp = vec![];
    let mut text = String::new();
    if !m.dtd.is_empty() || m.r.below(4) == 0 {
        text += &format!("<!DOCTYPE {} [{}]>", root, m.dtd);
        exp.push(rec0(Ev::DtStart { name: b(&root), sys: None, pubid: None, internal: true }));
        exp.extend(m.dexp);
        exp.push(rec0(Ev::DtEnd));
    }
    let mut span = vec![];
    span.push((exp.len(), text.len(), text.len() + root.len() + 2));
    exp.push(rec0(Ev::Start { name: b(&root), atts: vec![], nspec: 0, id: -1 }));
    text += &format!("<{}>", root);
    let (e0, t0) = (exp.len(), text.len());
    span.extend(m.cspan.iter().map(|s| (s.0 + e0, s.1 + t0, s.2 + t0)));
    exp.extend(m.cexp);
    text += &m.doc;
    if m.err == 0 {
        span.push((exp.len(), text.len(), text.len() + root.len() + 3));
        exp.push(rec0(Ev::End(b(&root))));
        text += &format!("</{}>", root);
    }
    // text of neighbours is one text
    if exp.windows(2).any(|w| matches!((&w[0].ev, &w[1].ev), (Ev::Text(_), Ev::Text(_))) && w[0].level == w[1].level) {
        exp = merge_recs(exp);
        span.clear();
    }
    Big { text, exp, span, err: m.err, cfg: m.cfg, labels, top: m.top }
}
/// Offsets in the encoded text.
fn place(b: &Big, e: Enc, bom: usize) -> Vec<(usize, usize, usize)> {
    let mut need: Vec<usize> = b.span.iter().flat_map(|s| [s.1, s.2]).collect();
    need.sort();
    need.dedup();
    let mut at = std::collections::HashMap::new();
    let (mut last, mut off) = (0, bom);
    for n in need {
        off += match e {
            Enc::Utf8 => n - last,
            Enc::Utf16le | Enc::Utf16be => b.text[last..n].encode_utf16().count() * 2,
            _ => b.text[last..n].chars().count(),
        };
        last = n;
        at.insert(n, off);
    }
    b.span.iter().map(|s| (s.0, at[&s.1], at[&s.2])).collect()
}
pub fn check_big(env: &Env, t: &mut Tape, big: &mut Big) -> Out {
    let mut out = Out::new();
    let mut cfg = big.cfg.clone();
    cfg.pos = t.chance(1, 2);
    let (e, data) = some_enc(t, &big.text, &mut cfg);
    let bom = if matches!(e, Enc::Utf16le | Enc::Utf16be) { 2 } else { 0 };
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data) ^ fnv(format!("{:?}", feeds).as_bytes());
    out.nontrivial = big.top > 16;
    out.labels = big.labels.clone();
    if env.describe {
        let mut k = 2000.min(big.text.len());
        while !big.text.is_char_boundary(k) {
            k -= 1;
        }
        out.desc = format!("{} characters\n{}", big.text.chars().count(), desc_case(&cfg, if big.text.len() < 100_000 { &big.text } else { &big.text[..k] }, &feeds));
        predesc(env, &out.desc);
    }
    if cfg.pos && big.err == 0 && !big.span.is_empty() {
        let a = run(env.rx(), &cfg, &data, &feeds);
        let pl = place(big, e, bom);
        let recs = merge_recs(a.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_))).cloned().collect());
        if let Some(d) = check_exp(&a, &big.exp) {
            return out.fail(d);
        }
        for (i, s, f) in pl {
            let p = recs[i].pos.unwrap();
            if (p.idx, p.count) != (s as i64, (f - s) as i32) {
                return out.fail(format!("{} is at byte {}+{}, not {}+{}", fmt_rec(&recs[i]), p.idx, p.count, s, f - s));
            }
        }
        return out;
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &big.exp, err: big.err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn sizes(env: &Env, t: &mut Tape) -> Out {
    let max = match t.below(8) {
        0 => 70_000,
        1 | 2 => 9_000,
        _ => 2_500,
    };
    let cnt = if max > 10_000 { 3_000 } else { 500 };
    let mut big = gen_big(t, max, cnt, max * 2);
    check_big(env, t, &mut big)
}
fn huge(env: &Env, t: &mut Tape) -> Out {
    let max = if env.thorough { 3_000_000 } else { 600_000 };
    let mut big = gen_big(t, max, 20_000, max);
    check_big(env, t, &mut big)
}

pub fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    extern "C" {
        fn clock_gettime(c: i32, t: *mut i64) -> i32;
    }
    unsafe { clock_gettime(2, ts.as_mut_ptr()) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}
/// Each construct at a size and at eight times that size, delivered at once or (what is not a single token) in pieces.
fn time(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    let (part, round) = (i % PARTS, i / PARTS);
    let n = if env.thorough { 3 } else { 1 };
    let one = |k: usize| -> (f64, Option<String>, String, usize) {
        let tape: Vec<u16> = vec![0, 0, 0, round as u16, (i * 77 + round) as u16];
        let big = make(&mut Tape::new(&tape), vec![part], 0, 0, 0, Some((k * 60_000 * n, k * 2_000 * n)));
        let data = big.text.as_bytes().to_vec();
        let feeds = match part {
            3 | 4 | 7 | 8 | 23 if round % 2 == 1 => feeds_from(&(1..data.len() / 4096 + 1).map(|i| i * 4096 - 5).collect::<Vec<_>>(), data.len(), |_| (1, 0), false),
            _ => one_feed(),
        };
        let mut best = f64::MAX;
        let mut fail = None;
        for _ in 0..2 {
            let t0 = cpu();
            let a = run(env.rx(), &big.cfg, &data, &feeds);
            best = best.min(cpu() - t0);
            let want = if big.err == 0 { (1, 0) } else { (0, big.err) };
            if (a.status, a.err) != want {
                fail = Some(format!("status {} error {}", a.status, a.err));
            }
        }
        (best, fail, big.labels.join(", "), data.len())
    };
    let (a, fa, label, la) = one(1);
    let (b, fb, _, lb) = one(8);
    out.hash = i as u64;
    out.nontrivial = true;
    out.desc = format!("{}: {} bytes in {:.4} s, {} bytes in {:.4} s", label, la, a, lb, b);
    if let Some(f) = fa.or(fb) {
        return out.fail(f);
    }
    let rel = lb as f64 / la as f64;
    if b > 0.5 && b > a.max(0.002) * rel * 3.5 {
        let d = format!("time is not proportional: {}", out.desc);
        return out.fail(d);
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "a case counts when one of its constructs has more than 16 characters or members",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "sizes", kind: Kind::Random { words: 40, quick: 20000, thorough: 600000 }, f: sizes },
            Sub { name: "huge", kind: Kind::Random { words: 40, quick: 160, thorough: 6000 }, f: huge },
            Sub { name: "time", kind: Kind::All { quick: PARTS * 2, thorough: PARTS * 8 }, f: time },
        ],
    }
}
