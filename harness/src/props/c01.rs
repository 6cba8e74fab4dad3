//! Verdict: well-formed documents are accepted, everything else is rejected with the right code.
use super::common::*;
use super::*;

fn valid(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 2);
    let skips = t.chance(1, 8);
    let maxcp = [0x10ffff, 0xff, 0x7f][t.below(3)];
    model_check(env, t, MOpts { ns, skips, maxcp, ..MOPTS }, Vary { mask: true, feeds: true, encs: true })
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { encs: true, ..PROF })
}
fn diffcontent(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[15, 30, 80], dtd: false, ext: false, feeds: true, ..PROF })
}
fn diffdtd(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[15, 30, 80], depth: 1, feeds: true, hopt: H_NOTSA, ret0: true, ext_modes: true, ..PROF })
}

// where a fault goes
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// between pieces of the root element's content
    Content,
    /// before everything but a declaration
    Prolog,
    /// at the end of the internal subset
    Subset,
    /// after the root element
    After,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Need {
    No,
    Ns,
    NoNs,
    /// no reference to parameter entities
    NoPe,
    Dtd,
    NoDtd,
    /// the parser reads parameter entities
    Pe,
}
/// text put in, error code, requirement
pub const FAULTS: &[(At, &str, u32, Need)] = &[
    (At::Content, "< a/>", 4, Need::No),
    (At::Content, "<1/>", 4, Need::No),
    (At::Content, "<a b=1/>", 4, Need::No),
    (At::Content, "<a b/>", 4, Need::No),
    (At::Content, "<a b>", 4, Need::No),
    (At::Content, "<a b = '<'/>", 4, Need::No),
    (At::Content, "<a b='1'c='2'/>", 4, Need::No),
    (At::Content, "<a / >", 4, Need::No),
    (At::Content, "<a b='&'/>", 4, Need::No),
    (At::Content, "<a b='&#;'/>", 4, Need::No),
    (At::Content, "<a b='\u{1}'/>", 4, Need::No),
    (At::Content, "</a b>", 4, Need::No),
    (At::Content, "</>", 4, Need::No),
    (At::Content, "</ a>", 4, Need::No),
    (At::Content, "& ", 4, Need::No),
    (At::Content, "&;", 4, Need::No),
    (At::Content, "&a b;", 4, Need::No),
    (At::Content, "&#;", 4, Need::No),
    (At::Content, "&#x;", 4, Need::No),
    (At::Content, "&#xg;", 4, Need::No),
    (At::Content, "&#12a;", 4, Need::No),
    (At::Content, "&#X41;", 4, Need::No),
    (At::Content, "]]>", 4, Need::No),
    (At::Content, "\u{0}", 4, Need::No),
    (At::Content, "\u{1}", 4, Need::No),
    (At::Content, "\u{b}", 4, Need::No),
    (At::Content, "\u{1f}", 4, Need::No),
    (At::Content, "\u{fffe}", 4, Need::No),
    (At::Content, "\u{ffff}", 4, Need::No),
    (At::Content, "<!-- -- -->", 4, Need::No),
    (At::Content, "<!-- --->", 4, Need::No),
    (At::Content, "<!- x -->", 4, Need::No),
    (At::Content, "<!-- \u{1} -->", 4, Need::No),
    (At::Content, "<!ELEMENT a ANY>", 4, Need::No),
    (At::Content, "<!DOCTYPE a>", 4, Need::No),
    (At::Content, "<![cdata[x]]>", 4, Need::No),
    (At::Content, "<![INCLUDE[x]]>", 4, Need::No),
    (At::Content, "<? x?>", 4, Need::No),
    (At::Content, "<?XML a?>", 4, Need::No),
    (At::Content, "<?xMl a?>", 4, Need::No),
    (At::Content, "<?a\u{1}?>", 4, Need::No),
    (At::Content, "<?a'?>", 4, Need::No),
    (At::Content, "<![CDATA[\u{1}]]>", 4, Need::No),
    (At::Content, "<?xml version='1.0'?>", 17, Need::No),
    (At::Content, "&#0;", 14, Need::No),
    (At::Content, "&#8;", 14, Need::No),
    (At::Content, "&#x1F;", 14, Need::No),
    (At::Content, "&#xD800;", 14, Need::No),
    (At::Content, "&#xDFFF;", 14, Need::No),
    (At::Content, "&#xFFFE;", 14, Need::No),
    (At::Content, "&#xFFFF;", 14, Need::No),
    (At::Content, "&#x110000;", 14, Need::No),
    (At::Content, "&#1114112;", 14, Need::No),
    (At::Content, "&#x100000041;", 14, Need::No),
    (At::Content, "&#4294967361;", 14, Need::No),
    (At::Content, "&#99999999999999999999;", 14, Need::No),
    (At::Content, "<a b='&#0;'/>", 14, Need::No),
    (At::Content, "<a b='&#xD800;'/>", 14, Need::No),
    (At::Content, "</zzz>", 7, Need::No),
    (At::Content, "<a b='1' c='3' b='2'/>", 8, Need::No),
    (At::Content, "<a b='1' b='1'></a>", 8, Need::No),
    (At::Content, "&undefd;", 11, Need::NoPe),
    (At::Content, "<a b='x&undefd;'/>", 11, Need::NoPe),
    (At::Content, "<zz:x/>", 27, Need::Ns),
    (At::Content, "<a zz:b='1'/>", 27, Need::Ns),
    (At::Content, "<a xmlns:zz=''/>", 28, Need::Ns),
    (At::Content, "<a xmlns:xml='u:x'/>", 38, Need::Ns),
    (At::Content, "<a xmlns:xmlns='u:x'/>", 39, Need::Ns),
    (At::Content, "<a xmlns:zz='http://www.w3.org/XML/1998/namespace'/>", 40, Need::Ns),
    (At::Content, "<a xmlns='http://www.w3.org/XML/1998/namespace'/>", 40, Need::Ns),
    (At::Content, "<a xmlns:zz='http://www.w3.org/2000/xmlns/'/>", 40, Need::Ns),
    (At::Content, "<a xmlns='http://www.w3.org/2000/xmlns/'/>", 40, Need::Ns),
    (At::Content, "<a:/>", 4, Need::Ns),
    (At::Content, "<:a/>", 4, Need::Ns),
    (At::Content, "<a:b:c/>", 4, Need::Ns),
    (At::Content, "<a x:y:z=''/>", 4, Need::Ns),
    (At::Content, "</x:y:z>", 7, Need::Ns),
    (At::Prolog, "x ", 2, Need::NoDtd),
    (At::Prolog, "&#32;", 4, Need::NoDtd),
    (At::Prolog, "<![CDATA[ ]]>", 2, Need::NoDtd),
    (At::Prolog, "]", 2, Need::No),
    (At::Prolog, "'x' ", 2, Need::No),
    (At::Prolog, "</a>", 4, Need::No),
    (At::Prolog, "\u{1}", 4, Need::No),
    (At::Prolog, "<!ELEMENT a ANY>", 2, Need::No),
    (At::Prolog, "<!FOO >", 2, Need::No),
    (At::Prolog, "<!-- -- -->", 4, Need::No),
    (At::Prolog, "<!DOCTYPE >", 2, Need::No),
    (At::Prolog, "<!DOCTYPE a b>", 2, Need::No),
    (At::Prolog, "<!DOCTYPE a SYSTEM>", 2, Need::No),
    (At::Prolog, "<!DOCTYPE a PUBLIC 'x'>", 2, Need::No),
    (At::Prolog, "<!DOCTYPE a [] 'x'>", 2, Need::No),
    (At::After, "x ", 9, Need::No),
    (At::After, "<a/>", 9, Need::No),
    (At::After, "&#32;", 4, Need::No),
    (At::After, "<!DOCTYPE a>", 9, Need::No),
    (At::After, "</a>", 4, Need::No),
    (At::After, "<?xml version='1.0'?>", 9, Need::No),
    (At::After, "\u{1}", 4, Need::No),
    (At::Subset, "x ", 2, Need::No),
    (At::Subset, "<a/>", 2, Need::No),
    (At::Subset, "&e;", 4, Need::No),
    (At::Subset, "%;", 4, Need::No),
    (At::Subset, "<!FOO >", 2, Need::No),
    (At::Subset, "<!ELEMENT >", 2, Need::No),
    (At::Subset, "<!ELEMENT zz>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz FOO>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz ()>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz (a,b|c)>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz (a|b,c)>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz (#PCDATA|a)>", 2, Need::No),
    (At::Subset, "<!ELEMENT zz (#PCDATA,a)*>", 4, Need::No),
    (At::Subset, "<!ELEMENT zz (a)) >", 2, Need::No),
    (At::Subset, "<!ELEMENT zz (a >", 2, Need::No),
    (At::Subset, "<!ELEMENT zz EMPTY ANY>", 2, Need::No),
    (At::Subset, "<!ATTLIST >", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b FOO #IMPLIED>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA #FOO>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA #FIXED>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b () #IMPLIED>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b (x,y) #IMPLIED>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b NOTATION #IMPLIED>", 2, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA '<'>", 4, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA '&#0;'>", 14, Need::No),
    (At::Subset, "<!ATTLIST zz b CDATA '&undefd;'>", 11, Need::NoPe),
    (At::Subset, "<!ENTITY >", 2, Need::No),
    (At::Subset, "<!ENTITY zz>", 2, Need::No),
    (At::Subset, "<!ENTITY zz x>", 2, Need::No),
    (At::Subset, "<!ENTITY zz SYSTEM>", 2, Need::No),
    (At::Subset, "<!ENTITY zz PUBLIC 'x'>", 2, Need::No),
    (At::Subset, "<!ENTITY zz SYSTEM 'x' FOO n>", 2, Need::No),
    (At::Subset, "<!ENTITY zz SYSTEM 'x' NDATA>", 2, Need::No),
    (At::Subset, "<!ENTITY % zz SYSTEM 'x' NDATA n>", 2, Need::No),
    (At::Subset, "<!ENTITY zz '&'>", 4, Need::No),
    (At::Subset, "<!ENTITY zz '%'>", 4, Need::No),
    (At::Subset, "<!ENTITY zz '&#xD800;'>", 14, Need::No),
    (At::Subset, "<!ENTITY zz PUBLIC '\u{e9}' 'x'>", 32, Need::No),
    (At::Subset, "<!ENTITY zz PUBLIC '{' 'x'>", 32, Need::No),
    (At::Subset, "<!NOTATION zz>", 2, Need::No),
    (At::Subset, "<!NOTATION zz 'x'>", 2, Need::No),
    (At::Subset, "<!NOTATION zz SYSTEM>", 2, Need::No),
    (At::Subset, "<!NOTATION zz PUBLIC '\t'>", 32, Need::No),
    (At::Subset, "<![INCLUDE[]]>", 2, Need::No),
    (At::Subset, "<![IGNORE[]]>", 2, Need::No),
    (At::Subset, "<?xml version='1.0'?>", 17, Need::No),
    (At::Subset, "<?xMl version='1.0'?>", 4, Need::No),
    (At::Subset, "<!ENTITY % zp 'x'><!ENTITY zq '%zp;'>", 10, Need::No),
    (At::Subset, "<!ENTITY % zp 'EMPTY'><!ELEMENT zz %zp;>", 10, Need::No),
    (At::Subset, "<!ENTITY % zp '&#37;zp;'>%zp;", 12, Need::Pe),
    (At::Subset, "<!ENTITY % zp '&#37;zq;'><!ENTITY % zq '%#37;zp;'>", 4, Need::No),
    (At::Subset, "<!ENTITY % zp '<!ELEMENT zz'>%zp;", 29, Need::Pe),
    (At::Subset, "<!ENTITY % zp '<![INCLUDE[x]]>'>%zp;", 2, Need::Pe),
];

/// A model document with one thing wrong.
fn fault(env: &Env, t: &mut Tape) -> Out {
    let k = t.below(FAULTS.len() + 9);
    fault_k(env, t, k)
}
/// One of the faults of the table that the property is about, or one of the others (by number).
pub fn fault_of(env: &Env, t: &mut Tape, which: fn(&(At, &str, u32, Need)) -> bool, more: &[usize]) -> Out {
    let mut c: Vec<usize> = (0..FAULTS.len()).filter(|i| which(&FAULTS[*i])).collect();
    c.extend(more.iter().map(|i| FAULTS.len() + i));
    let k = c[t.below(c.len())];
    fault_k(env, t, k)
}
fn fault_k(env: &Env, t: &mut Tape, k: usize) -> Out {
    let mut out = Out::new();
    let ns = match FAULTS.get(k).map(|f| f.3) {
        Some(Need::Ns) => true,
        Some(Need::NoNs) => false,
        _ => t.chance(1, 2),
    };
    let dtd = match FAULTS.get(k) {
        Some(f) if f.3 == Need::NoDtd => false,
        Some(f) if f.0 == At::Prolog => false,
        _ => true,
    };
    let pes = !matches!(FAULTS.get(k), Some(f) if f.3 == Need::NoPe);
    let d = Gen::new(t, MOpts { ns, dtd, pes, ..MOPTS }).document();
    let mut cfg = model_cfg(&d);
    // places between pieces of content where a new token starts: (offset, events before)
    let mut places: Vec<(usize, usize)> = vec![];
    for (i, e) in d.evs.iter().enumerate() {
        if let (0, Some((a, _))) = (e.level, e.span) {
            if a > d.root.0 && a < d.root.1 && i > 0 {
                let p = d.evs[..i].iter().rev().find(|p| p.level == 0 && p.span.is_some());
                // the first event of its construct; the end of an empty element is none of its own
                let fresh = match p.and_then(|p| p.span) {
                    Some((x, y)) => x < a && y <= a,
                    _ => true,
                };
                let ok = match &e.ev {
                    Ev::Start { .. } | Ev::NsStart(..) | Ev::Comment(_) | Ev::Pi(..) | Ev::CdStart | Ev::ExtRef { .. } => true,
                    Ev::End(_) => e.span.map_or(false, |s| s.1 > s.0) && d.text[a..].starts_with("</"),
                    _ => false,
                };
                let insert_ok = d.text.is_char_boundary(a) && (d.text[a..].starts_with('<') || d.text[a..].starts_with('&'));
                if fresh && ok && insert_ok {
                    places.push((a, i));
                }
            }
        }
    }
    let mut text = d.text.clone();
    let mut exp: Vec<Rec> = expected(&d);
    let want;
    let name;
    let ent_rec = |n: &str, v: &str| Rec {
        ev: Ev::Entity {
            name: n.into(),
            pe: false,
            value: Some(v.into()),
            base: d.base.clone().map(|b| b.into_bytes()),
            sys: None,
            pubid: None,
            notation: None,
        },
        pos: None,
        level: 0,
    };
    let place = |t: &mut Tape| -> Option<(usize, usize)> {
        if places.is_empty() {
            None
        } else {
            Some(places[t.below(places.len())])
        }
    };
    let discard = |mut out: Out| -> Out {
        out.discard = true;
        out
    };
    if k < FAULTS.len() {
        let f = FAULTS[k];
        let (at, n) = match f.0 {
            At::Content => match place(t) {
                Some(p) => p,
                None => return discard(out),
            },
            At::Prolog => d.before_dtd,
            At::Subset => match d.subset_end {
                Some(p) => p,
                None => return discard(out),
            },
            At::After => {
                let n = d.evs.iter().position(|e| e.level == 0 && e.span.map_or(false, |s| s.0 >= d.root.1) && !matches!(e.ev, Ev::End(_) | Ev::NsEnd(_)));
                (d.root.1, n.unwrap_or(d.evs.len()))
            }
        };
        // the reference comes before the declarations are known not to be complete
        if f.3 == Need::NoPe && d.pe_refs() {
            return discard(out);
        }
        if f.3 == Need::Pe && d.pe == 0 {
            return discard(out);
        }
        // a fault in the internal subset comes before the external subset is read
        exp.truncate(n);
        text.insert_str(at, f.1);
        want = f.2;
        name = f.1.to_string();
        out.labels.push(match f.0 {
            At::Content => "fault in content",
            At::Prolog => "fault in the prolog",
            At::Subset => "fault in the internal subset",
            At::After => "fault after the root element",
        });
    } else {
        match k - FAULTS.len() {
            0 | 1 => {
                // cut short between two pieces of content
                let (at, n) = match place(t) {
                    Some(p) => p,
                    None => return discard(out),
                };
                exp.truncate(n);
                text.truncate(at);
                name = "cut".into();
                want = if k - FAULTS.len() == 1 { 5 } else { 3 };
                if k - FAULTS.len() == 1 {
                    // ... or inside a token
                    text += ["<", "<a", "<a b", "<a b=", "<a b='", "<a b='x' ", "<a /", "</", "</a", "</a ", "<!", "<!-", "<!--", "<!-- x", "<!-- x --", "<?", "<?a", "<?a x", "<?a x?", "&", "&a", "&#", "&#1", "&#x", "&#x1", "<![", "<![CDAT"]
                        [t.below(27)];
                }
                out.labels.push("document cut short");
            }
            2 => {
                let (at, n) = match place(t) {
                    Some(p) => p,
                    None => return discard(out),
                };
                exp.truncate(n);
                text.truncate(at);
                text += ["<![CDATA[", "<![CDATA[x", "<![CDATA[]", "<![CDATA[x]]"][t.below(4)];
                exp.push(Rec { ev: Ev::CdStart, pos: None, level: 0 });
                want = 20;
                name = "open CDATA section".into();
                out.labels.push("document cut short");
            }
            3 => {
                // entities that refer to each other
                let (s, (at, n)) = match (d.subset_end, place(t)) {
                    (Some(s), Some(p)) => (s, p),
                    _ => return discard(out),
                };
                exp.truncate(n);
                let len = t.range(1, 4);
                let mut decl = String::new();
                for i in 0..len {
                    let (a, b) = (format!("rec{}", i), format!("&rec{};", (i + 1) % len));
                    decl += &format!("<!ENTITY {} '{}'>", a, b);
                    exp.insert(s.1 + i, ent_rec(&a, &b));
                }
                text.insert_str(at, ["&rec0;", "<a b='&rec0;'/>"][t.below(2)]);
                text.insert_str(s.0, &decl);
                want = 12;
                name = "recursion".into();
                out.labels.push("recursive entities");
            }
            4 => {
                let (s, (at, n)) = match (d.subset_end, place(t)) {
                    (Some(s), Some(p)) => (s, p),
                    _ => return discard(out),
                };
                exp.truncate(n);
                let v = ["</a>", "</doc>", "<!-- -->"][t.below(2)];
                exp.insert(s.1, ent_rec("asy", v));
                text.insert_str(at, "&asy;");
                text.insert_str(s.0, &format!("<!ENTITY asy '{}'>", v));
                want = 13;
                name = "asynchronous entity".into();
                out.labels.push("asynchronous entity");
            }
            5 => {
                let (at, n) = match place(t) {
                    Some(p) => p,
                    None => return discard(out),
                };
                let c: Vec<&(String, char)> = d.names.iter().filter(|x| x.1 != 'i').collect();
                if c.is_empty() {
                    return discard(out);
                }
                let (nm, kind) = c[t.below(c.len())].clone();
                exp.truncate(n);
                if t.chance(1, 2) {
                    text.insert_str(at, &format!("<a b='&{};'/>", nm));
                    want = if kind == 'u' { 15 } else { 16 };
                } else if kind == 'u' {
                    text.insert_str(at, &format!("&{};", nm));
                    want = 15;
                } else {
                    return discard(out);
                }
                name = "reference to an external or unparsed entity".into();
                out.labels.push("bad reference to external or unparsed entity");
            }
            6 => {
                // the external entity handler fails
                let c: Vec<usize> = (0..d.evs.len()).filter(|i| matches!(d.evs[*i].ev, Ev::ExtRef { .. }) && d.evs[*i].level == 0).collect();
                if c.is_empty() {
                    return discard(out);
                }
                let i = c[t.below(c.len())];
                let sys = match &d.evs[i].ev {
                    Ev::ExtRef { sys: Some(s), .. } => s.clone(),
                    _ => vec![],
                };
                // the first reference to it counts
                let i = d.evs.iter().position(|e| matches!(&e.ev, Ev::ExtRef { sys: Some(s), .. } if *s == sys)).unwrap();
                if d.evs[i].level != 0 {
                    return discard(out);
                }
                for e in cfg.ents.iter_mut() {
                    if e.sys.as_bytes() == &sys[..] {
                        e.mode = 0;
                    }
                }
                exp.truncate(i + 1);
                want = 21;
                name = "handler refuses".into();
                out.labels.push("external entity handler fails");
            }
            7 => {
                // a public identifier with what may not be in one
                let (b, n) = d.before_dtd;
                let at = text[b..].find("PUBLIC").map(|i| b + i + 6);
                let open = text[b..].find(|c| c == '[' || c == '>').map(|i| b + i);
                let at = match (at, open) {
                    (Some(a), Some(o)) if a < o => a,
                    _ => return discard(out),
                };
                let at = at + text[at..].find(|c| c == '\'' || c == '"').unwrap() + 1;
                exp.truncate(n);
                text.insert_str(at, ["{", "\u{e9}", "\t", "<", "&amp;", "~", "["][t.below(7)]);
                want = 32;
                name = "public identifier".into();
                out.labels.push("bad public identifier of the document type");
            }
            _ => {
                // declarations
                if !d.evs.first().map_or(true, |e| !matches!(e.ev, Ev::XmlDecl { .. })) {
                    return discard(out);
                }
                let (decl, code) = [
                    ("<?xml?>", 30),
                    ("<?xml ?>", 30),
                    ("<?xml version=1.0?>", 30),
                    ("<?xml encoding='utf-8'?>", 30),
                    ("<?xml version='1.0' standalone='maybe'?>", 30),
                    ("<?xml version='1.0' standalone='yes' encoding='utf-8'?>", 30),
                    ("<?xml version='1.0' encoding=''?>", 30),
                    ("<?xml version='1.0' encoding='1x'?>", 30),
                    ("<?xml version='1.0'encoding='utf-8'?>", 30),
                    ("<?xml version='1.0' foo='x'?>", 30),
                    ("<?xml version=\"1.0' ?>", 30),
                    ("<?xml version='1.0' encoding='x-unheard-of'?>", 18),
                    ("<?xml version='1.0' encoding='utf-16'?>", 19),
                    ("<?xml version='1.0' encoding='utf-16le'?>", 19),
                    (" <?xml version='1.0'?>", 17),
                    ("<!--x--><?xml version='1.0'?>", 17),
                    ("\u{feff}\u{feff}", 4),
                    ("<?Xml version='1.0'?>", 4),
                    ("<?xmL?>", 4),
                ][t.below(19)];
                exp.clear();
                if decl.starts_with("<!--x") {
                    exp.push(Rec { ev: Ev::Comment(b"x".to_vec()), pos: None, level: 0 });
                }
                text.insert_str(0, decl);
                // a declaration with a wrong encoding name is reported before the encoding is refused
                if code == 18 || code == 19 {
                    let enc = decl.split("encoding='").nth(1).unwrap().split('\'').next().unwrap();
                    exp.push(Rec { ev: Ev::XmlDecl { version: Some(b"1.0".to_vec()), enc: Some(enc.into()), sa: -1 }, pos: None, level: 0 });
                }
                if decl.starts_with('\u{feff}') {
                    cfg.enc = None;
                }
                want = code;
                name = decl.to_string();
                out.labels.push("fault in the XML declaration");
            }
        }
    }
    exp = merge_recs(exp);
    let mut data = text.clone().into_bytes();
    let mut feeds = one_feed();
    if !declares(&text) && t.chance(1, 3) {
        let e = [Enc::Utf16le, Enc::Utf16be][t.below(2)];
        data = encode_bom(&text, e, 2);
    }
    if t.chance(1, 3) {
        feeds = gen_feeds(t, data.len());
    }
    out.hash = fnv(&data);
    out.nontrivial = true;
    if env.describe {
        out.desc = format!("fault {:?}, error {} expected\n{}", name, want, desc_case(&cfg, &text, &feeds));
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, &data, &feeds);
    let check = |a: &Trace| -> Option<String> {
        if (a.status, a.err) != (0, want) {
            return Some(format!("{}: status {} error {} where error {} was expected (at {:?})", name, a.status, a.err, want, a.end));
        }
        let mut p = plain(a);
        // the faulty construct itself may have been reported in part
        let extra = p.len().saturating_sub(exp.len());
        p.truncate(exp.len());
        let mut exp = exp.clone();
        // text is looked at as a whole up to this fault in it
        if name == "]]>" && matches!(exp.last(), Some(Rec { ev: Ev::Text(_), .. })) {
            exp.pop();
            p.truncate(exp.len());
        }
        if extra > 6 {
            return Some(format!("{}: {} more events before the error than expected", name, extra));
        }
        diff_recs(&p, "rexpat", &exp, "expected before the error").map(|x| format!("{}: {}", name, x))
    };
    if let Some(m) = check(&a) {
        let b = run(env.rf(), &cfg, &data, &feeds);
        return out.fail(format!("{}{}", m, if let Some(x) = check(&b) { format!(" [libexpat: {}]", x) } else { "".into() }));
    }
    if let Some(d) = bad(&a) {
        return out.fail(d);
    }
    // which other handlers there are does not matter to the verdict
    let r = t.u32();
    if r % 2 == 0 {
        cfg.h &= !(r >> 1) | H_EXT | H_UNKENC | H_NOTSA | H_DEFAULT | H_DEFEXPAND;
        let b = run(env.rx(), &cfg, &data, &feeds);
        out.labels.push("also with other handlers");
        if (b.status, b.err, &b.end) != (a.status, a.err, &a.end) {
            return out.fail(format!("{}: status {} error {} at {:?}, and with handlers {:#x} status {} error {} at {:?}", name, a.status, a.err, a.end, cfg.h, b.status, b.err, b.end));
        }
    }
    out
}

/// The same with few handlers set.
fn fewhandlers(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[0, 15, 40], feeds: true, h: H_EXT, hopt: H_ALL & !H_UNKENC, ret0: true, ext_modes: true, ..PROF })
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "a case counts when its document produces at least three events or carries a fault whose error is known",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "valid", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: valid },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 100000, thorough: 2000000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 2000000 }, f: diff },
            Sub { name: "fewhandlers", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: fewhandlers },
            Sub { name: "diffcontent", kind: Kind::Random { words: 450, quick: 60000, thorough: 2000000 }, f: diffcontent },
            Sub { name: "diffdtd", kind: Kind::Random { words: 550, quick: 60000, thorough: 2000000 }, f: diffdtd },
        ],
    }
}
