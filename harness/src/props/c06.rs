//! Attribute values: normalization and defaults.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 4);
    let long = t.chance(1, 12);
    model_check(env, t, MOpts { ns, long, decls: 14, items: 10, depth: 3, ext: false, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn modelx(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 2);
    model_check(env, t, MOpts { ns, decls: 8, items: 8, depth: 3, ..MOPTS }, Vary { feeds: true, encs: false, mask: true })
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 12);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], feeds: true, depth: 4, big, ..PROF })
}

/// One element, several attributes, declared in any number of lists, with values of any composition.
fn lists(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    // pieces of a value: source, effect
    struct Val {
        src: String,
        /// after expansion, before white space at the ends is removed
        val: String,
    }
    const TYPES: &[&str] = &["CDATA", "CDATA", "CDATA", "NMTOKENS", "NMTOKEN", "IDREFS", "ENTITIES", "(x|y)", "ID", "IDREF", "NOTATION (n|m)"];
    const NAMES: &[&str] = &["a", "b", "c", "p:a", "xml:lang", "abc", "xmlnsx"];
    // entities usable in values
    let ents: &[(&str, &str, &str)] =
        &[("e1", "  x  ", "  x  "), ("e2", "", ""), ("e3", "a&e1;\nb", "a  x   b"), ("e4", "&#38;#38;&#x26;lt;", "&<"), ("e5", "\t&#9;&e2; ", "   "), ("e6", "&e5;&e3;v", "   a  x   bv")];
    fn value(t: &mut Tape, ents: &[(&str, &str, &str)]) -> Val {
        let mut v = Val { src: String::new(), val: String::new() };
        for _ in 0..t.size(9) {
            let (s, x): (String, String) = match t.below(12) {
                0 => (" ".into(), " ".into()),
                1 => ("  ".into(), "  ".into()),
                2 => (["\n", "\t", "\r\n"][t.below(3)].into(), " ".into()),
                3 => ("&#32;".into(), " ".into()),
                4 => {
                    let k = t.below(3);
                    (["&#10;", "&#9;", "&#xD;"][k].into(), ["\n", "\t", "\r"][k].into())
                }
                5 => (["&lt;", "&amp;", "&apos;"][t.below(3)].into(), String::new()),
                6 | 7 => {
                    let e = ents[t.below(ents.len())];
                    (format!("&{};", e.0), e.2.to_string())
                }
                8 => ("&#233;".into(), "é".into()),
                _ => {
                    let w = ["x", "y1", "é", "日本", "𝒳", ">", "a b"][t.below(7)];
                    (w.into(), w.into())
                }
            };
            let x = match &s[..] {
                "&lt;" => "<".into(),
                "&amp;" => "&".into(),
                "&apos;" => "'".into(),
                _ => x,
            };
            // two line ends next to each other stay two only if they cannot be one
            if v.src.ends_with('\r') && s.starts_with('\n') {
                continue;
            }
            v.src += &s;
            v.val += &x;
        }
        v
    }
    let norm = |v: &str, cdata: bool| -> String {
        if cdata {
            return v.to_string();
        }
        // spaces only; other white space came from references
        v.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
    };
    let ns = t.chance(1, 3);
    let mut dtd = String::new();
    for e in ents {
        dtd += &format!("<!ENTITY {} \"{}\">", e.0, e.1);
    }
    // definitions in order, for elements el and other
    struct Def {
        name: &'static str,
        cdata: bool,
        dflt: Option<String>,
    }
    let mut defs: Vec<Def> = vec![];
    let mut id: Option<&'static str> = None;
    for _ in 0..t.size(8) {
        let other = t.chance(1, 5);
        dtd += &format!("<!ATTLIST {}", if other { "other" } else { "el" });
        for _ in 0..t.size(4) {
            let name = NAMES[t.below(NAMES.len())];
            let ty = TYPES[t.below(TYPES.len())];
            let cdata = ty == "CDATA";
            let (txt, dflt) = match t.below(5) {
                0 => ("#IMPLIED".to_string(), None),
                1 => ("#REQUIRED".to_string(), None),
                2 => {
                    let v = value(t, ents);
                    (format!("#FIXED '{}'", v.src), Some(norm(&v.val, cdata)))
                }
                _ => {
                    let v = value(t, ents);
                    (format!("\"{}\"", v.src), Some(norm(&v.val, cdata)))
                }
            };
            dtd += &format!(" {} {} {}", name, ty, txt);
            if !other && !defs.iter().any(|d| d.name == name) {
                // the first declaration counts
                // (an ID cannot have a default value)
                if ty == "ID" && id.is_none() && dflt.is_none() {
                    id = Some(name);
                }
                defs.push(Def { name, cdata, dflt });
            }
        }
        dtd += ">";
    }
    let mut text = format!("<!DOCTYPE el [{}]><el xmlns:p='u:p'>", dtd);
    let spelled = |n: &str| -> B {
        if !ns {
            return n.into();
        }
        match n {
            "p:a" => b"u:p|a".to_vec(),
            "xml:lang" => b"http://www.w3.org/XML/1998/namespace|lang".to_vec(),
            _ => n.into(),
        }
    };
    let mut exp: Vec<Rec> = vec![];
    let add = |name: &str, atts: &[(&str, String)], exp: &mut Vec<Rec>, root: bool| {
        let mut a: Vec<(B, B)> = vec![];
        if root && !ns {
            a.push((b"xmlns:p".to_vec(), b"u:p".to_vec()));
        }
        for (n, v) in atts {
            a.push((spelled(n), v.clone().into_bytes()));
        }
        let nspec = a.len() as i32 * 2;
        let mut idx = -1;
        if name == "el" {
            if let Some(i) = id {
                if let Some(k) = atts.iter().position(|x| x.0 == i) {
                    idx = (k + (root && !ns) as usize) as i32 * 2;
                }
            }
            for d in &defs {
                if let (Some(v), false) = (&d.dflt, atts.iter().any(|x| x.0 == d.name)) {
                    a.push((spelled(d.name), v.clone().into_bytes()));
                }
            }
        }
        exp.push(rec0(Ev::Start { name: name.into(), atts: a, nspec, id: idx }));
    };
    add("el", &[], &mut exp, true);
    for _ in 0..t.range(1, 4) {
        let el = if t.chance(1, 4) { "other" } else { "el" };
        let mut atts: Vec<(&str, String)> = vec![];
        text += &format!("<{}", el);
        for _ in 0..t.size(5) {
            let n = NAMES[t.below(NAMES.len())];
            if atts.iter().any(|a| a.0 == n) {
                continue;
            }
            let v = value(t, ents);
            let q = if t.chance(1, 2) && !v.src.contains('\'') { '\'' } else { '"' };
            text += &format!(" {}={}{}{}", n, q, v.src, q);
            let cdata = el == "other" && false || !defs.iter().any(|d| el == "el" && d.name == n && !d.cdata);
            atts.push((n, norm(&v.val, cdata)));
        }
        if el == "other" && dtd.contains("<!ATTLIST other") {
            // its declarations are not followed up here
            text.truncate(text.rfind('<').unwrap());
            continue;
        }
        text += "/>";
        add(el, &atts, &mut exp, false);
        exp.push(rec0(Ev::End(el.into())));
    }
    text += "</el>";
    exp.push(rec0(Ev::End(b"el".to_vec())));
    let mut cfg = Cfg { h: H_ELEM | H_TEXT, ns: if ns { Some('|') } else { None }, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = gen_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = exp.len() > 3;
    out.labels.push(if defs.iter().any(|d| d.dflt.is_some()) { "with defaults" } else { "without defaults" });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err: 0 }) {
        Some(d) => {
            let b = run(env.rf(), &cfg, &data, &feeds);
            out.fail(format!("{}{}", d, if check_exp(&b, &exp).is_some() { " [libexpat differs, too]" } else { "" }))
        }
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a case counts when several elements with attributes or attribute declarations are involved",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "lists", kind: Kind::Random { words: 200, quick: 60000, thorough: 2000000 }, f: lists },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "modelx", kind: Kind::Random { words: 550, quick: 40000, thorough: 1500000 }, f: modelx },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: diff },
        ],
    }
}
