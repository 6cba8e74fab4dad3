//! Deep nesting.
use super::common::*;
use super::*;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::null;

fn b(s: &str) -> B {
    s.as_bytes().to_vec()
}
fn st(n: &str) -> Rec {
    rec0(Ev::Start { name: b(n), atts: vec![], nspec: 0, id: -1 })
}
fn depth(t: &mut Tape, max: usize) -> usize {
    let mut bits = 1;
    while 1usize << (bits + 1) <= max {
        bits += 1;
    }
    let k = t.below(bits + 1);
    let n = (1usize << k) + t.below(1 << k);
    match t.below(4) {
        0 => max - t.below(max / 8 + 1),
        _ => n.min(max),
    }
}
/// Elements in elements.
fn elements(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let d = depth(t, if env.thorough { 1_000_000 } else { 130_000 });
    let mut r = rng_of(t);
    let k = 1 + r.below(5);
    let mut maxl = if t.chance(1, 4) { 80 } else { 4 };
    let ns = t.chance(1, 2);
    let decl = if ns { t.below(4) } else { 0 };
    if decl > 0 && d > 10_000 {
        // (known finding name-walk: each binding that must make room for a
        // longer name looks at all open tags)
        maxl = maxl.min(6);
    }
    let names: Vec<String> = (0..k)
        .map(|_| {
            let l = 1 + r.below(maxl);
            rname(&mut r, l)
        })
        .collect();
    let texts = t.chance(1, 3);
    // 0 closed, 1 not closed, 2 wrong end tag
    let (end, at) = match t.below(5) {
        0 => (1, t.below(d) + 1),
        1 => (2, t.below(d)),
        _ => (0, 0),
    };
    let wrap = t.below(6);
    let mut s = String::new();
    let mut exp: Vec<Rec> = vec![];
    let mut open: Vec<(String, Vec<Option<B>>, B)> = vec![];
    for i in 0..d {
        let l = &names[r.below(k)];
        let (mut q, mut nm, mut dd, mut src) = (l.clone(), l.clone(), vec![], String::new());
        match decl {
            1 if i == 0 || r.below(3) == 0 => {
                src = format!(" xmlns='u{}'", i);
                exp.push(rec0(Ev::NsStart(None, Some(b(&format!("u{}", i))))));
                dd.push(None);
                nm = format!("u{}|{}", i, l);
            }
            1 => {
                // the innermost default namespace
                if let Some(o) = open.last() {
                    let u = o.2.split(|c| *c == b'|').next().unwrap().to_vec();
                    nm = format!("{}|{}", String::from_utf8(u).unwrap(), l);
                }
            }
            2 | 3 => {
                let p = if decl == 2 { "p".to_string() } else { format!("p{}", i) };
                src = format!(" xmlns:{}='u{}'", p, i % 7);
                exp.push(rec0(Ev::NsStart(Some(b(&p)), Some(b(&format!("u{}", i % 7))))));
                dd.push(Some(b(&p)));
                q = format!("{}:{}", p, l);
                nm = format!("u{}|{}", i % 7, l);
            }
            _ => {}
        }
        s += &format!("<{}{}>", q, src);
        exp.push(st(&nm));
        open.push((q, dd, b(&nm)));
        if texts && r.below(4) == 0 {
            s += "&lt;t";
            exp.push(rec0(Ev::Text(b("<t"))));
        }
    }
    let mut err = 0;
    for i in 0..d {
        if end == 1 && i == at {
            break;
        }
        let (q, dd, nm) = open.pop().unwrap();
        if end == 2 && i == at {
            s += &format!("</{}x>", q);
            err = 7;
            break;
        }
        s += &format!("</{}>", q);
        exp.push(rec0(Ev::End(nm)));
        for p in dd {
            exp.push(rec0(Ev::NsEnd(p)));
        }
        if texts && i + 1 < d && r.below(4) == 0 {
            s += "t";
            exp.push(rec0(Ev::Text(b("t"))));
        }
    }
    if !open.is_empty() && err == 0 {
        err = 3;
    }
    let mut cfg = Cfg { h: H_CONTENT, ns: if ns { Some('|') } else { None }, max_events: 8_000_000, ..Cfg::default() };
    let mut text = s.clone();
    let mut enc = true;
    if err == 0 && wrap < 2 && !s.contains('"') {
        // in an internal or external entity
        enc = wrap == 0;
        text = if wrap == 0 { format!("<!DOCTYPE r [<!ENTITY e \"{}\">]><r>&e;</r>", s.replace("&lt;", "&#38;lt;")) } else { "<!DOCTYPE r [<!ENTITY e SYSTEM 'x'>]><r>&e;</r>".into() };
        if wrap == 1 {
            cfg.h |= H_EXT;
            let f = big_feeds(t, s.len());
            cfg.ents.push(ExtEnt { sys: "x".into(), data: s.clone().into_bytes(), enc: None, feeds: f, mode: 1 });
            for e in exp.iter_mut() {
                e.level = 1;
            }
            let mut ctx = vec![b("e")];
            if ns {
                ctx.push(b("xml=http://www.w3.org/XML/1998/namespace"));
            }
            exp.insert(0, rec0(Ev::ExtRef { ctx: Some(ctx), base: None, sys: Some(b("x")), pubid: None }));
        }
        exp.insert(0, st("r"));
        exp.push(rec0(Ev::End(b("r"))));
    }
    let exp = merge_recs(exp);
    let data = if enc { some_enc(t, &text, &mut cfg).1 } else { b(&text) };
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data) ^ fnv(format!("{:?}", feeds).as_bytes());
    out.nontrivial = d > 30;
    out.labels.push(["closed", "not closed", "a wrong end tag"][end]);
    if env.describe {
        out.desc = format!("{} elements, {}; {}", d, out.labels[0], desc_case(&cfg, &text.chars().take(600).collect::<String>(), &feeds));
        predesc(env, &out.desc);
    }
    let l = env.rx();
    // once more after a reset
    if t.chance(1, 4) {
        let p = create(l, &cfg);
        let a = run_on(l, &cfg, p, &data, &feeds, true, false);
        {
            let z = cfg.enc.as_ref().map(|e| l.zstr(e));
            let _g = Ph::enter(l);
            unsafe { (l.ParserReset)(p, z.as_ref().map_or(null(), |z| z.as_ptr() as S)) };
        }
        let c = run_on(l, &cfg, p, &data, &feeds, true, true);
        if let Some(x) = diff_recs(&merged(&a), "first", &merged(&c), "after a reset") {
            return out.fail(x);
        }
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(x) => out.fail(x),
        None => out,
    }
}

// ---- content models; the tree is walked without recursion ----
struct Got {
    l: *const Lib,
    p: super::super::ffi::P,
    out: Vec<String>,
    ext: Vec<u8>,
    ents: usize,
    status: u32,
    err: u32,
    text: B,
    feeds: Vec<Feed>,
}
unsafe fn flat(l: &Lib, m: *const Content) -> String {
    const Q: [&str; 4] = ["", "?", "*", "+"];
    let mut s = String::new();
    // (node, next child)
    let mut stack: Vec<(*const Content, usize)> = vec![(m, 0)];
    while let Some((m, i)) = stack.pop() {
        let c = &*m;
        match c.typ {
            1 => s += "EMPTY",
            2 => s += "ANY",
            4 => {
                s += &String::from_utf8_lossy(&l.z(c.name));
                s += Q[c.quant as usize % 4];
                if c.numchildren != 0 || !c.children.is_null() {
                    s += "!children!";
                }
            }
            _ => {
                if i == 0 {
                    s.push('(');
                    if c.typ == 3 {
                        s += "#PCDATA";
                    }
                    if !c.name.is_null() {
                        s += "!name!";
                    }
                }
                if i < c.numchildren as usize {
                    if i > 0 || c.typ == 3 {
                        s.push(if c.typ == 6 { ',' } else { '|' });
                    }
                    stack.push((m, i + 1));
                    stack.push((c.children.add(i), 0));
                } else {
                    s.push(')');
                    s += Q[c.quant as usize % 4];
                }
            }
        }
    }
    s
}
unsafe extern "C" fn g_element(a: *mut c_void, n: S, m: *mut Content) {
    let g = &mut *(a as *mut Got);
    let l = &*g.l;
    g.out.push(format!("{} {}", String::from_utf8_lossy(&l.z(n)), flat(l, m)));
    (l.FreeContentModel)(g.p, m);
}
unsafe extern "C" fn g_entity(a: *mut c_void, n: S, _: c_int, v: S, vl: c_int, _: S, _: S, _: S, _: S) {
    let g = &mut *(a as *mut Got);
    g.ents += 1;
    let l = &*g.l;
    if &l.z(n)[..] == b"f" && !v.is_null() {
        g.out.push(String::from_utf8_lossy(&l.chars(v, vl as usize)).into_owned());
    }
}
unsafe extern "C" fn g_comment(a: *mut c_void, n: S) {
    let g = &mut *(a as *mut Got);
    let l = &*g.l;
    g.out.push(format!("--{}", String::from_utf8_lossy(&l.z(n))));
}
unsafe extern "C" fn g_text(a: *mut c_void, s: S, n: c_int) {
    let g = &mut *(a as *mut Got);
    let l = &*g.l;
    g.text.extend(l.chars(s, n as usize));
}
unsafe extern "C" fn g_start(a: *mut c_void, _: S, at: *mut S) {
    let g = &mut *(a as *mut Got);
    let l = &*g.l;
    if !(*at).is_null() {
        g.text.extend(l.z(*at.add(1)));
    }
}
unsafe extern "C" fn g_ext(p: super::super::ffi::P, c: S, _: S, _: S, _: S) -> c_int {
    let g = &mut *(p as *mut Got);
    let l = &*g.l;
    let k = (l.ExternalEntityParserCreate)(g.p, c, null());
    let f = g.feeds.clone();
    let d = g.ext.clone();
    let s = g_feed(l, k, &d, &f);
    if s != 1 {
        g.err = (l.GetErrorCode)(k);
    }
    (l.ParserFree)(k);
    s as c_int
}
unsafe fn g_feed(l: &Lib, p: super::super::ffi::P, d: &[u8], feeds: &[Feed]) -> u32 {
    let mut at = 0;
    let mut s = 1;
    for f in feeds {
        let n = f.n.min(d.len() - at);
        s = (l.Parse)(p, d[at..].as_ptr() as *const c_char, n as c_int, f.fin as c_int);
        at += n;
        if s != 1 {
            break;
        }
    }
    s
}
/// Parses; `ext` is the external subset.
fn g_run(l: &Lib, doc: &[u8], ext: &[u8], feeds: &[Feed], efeeds: &[Feed]) -> Got {
    unsafe {
        let _g = Ph::enter(l);
        let p = (l.ParserCreate)(null());
        let mut g = Box::new(Got { l, p, out: vec![], ext: ext.to_vec(), ents: 0, status: 0, err: 0, text: vec![], feeds: efeeds.to_vec() });
        let a = &mut *g as *mut Got as *mut c_void;
        (l.SetUserData)(p, a);
        (l.SetExternalEntityRefHandlerArg)(p, a);
        (l.SetParamEntityParsing)(p, 2);
        (l.SetElementDeclHandler)(p, g_element as *mut c_void);
        (l.SetEntityDeclHandler)(p, g_entity as *mut c_void);
        (l.SetCommentHandler)(p, g_comment as *mut c_void);
        (l.SetCharacterDataHandler)(p, g_text as *mut c_void);
        (l.SetStartElementHandler)(p, g_start as *mut c_void);
        (l.SetExternalEntityRefHandler)(p, g_ext as *mut c_void);
        g.status = g_feed(l, p, doc, feeds);
        let e = (l.GetErrorCode)(p);
        if g.err == 0 {
            g.err = e;
        }
        (l.ParserFree)(p);
        *g
    }
}
fn diff_str(a: &str, e: &str) -> Option<String> {
    if a == e {
        return None;
    }
    let k = a.bytes().zip(e.bytes()).take_while(|x| x.0 == x.1).count();
    let cut = |s: &str| show(&s.as_bytes()[k.saturating_sub(30).min(s.len())..(k + 40).min(s.len())]);
    Some(format!("differs at {} of {}: rexpat {:?}, expected {:?} ({} long)", k, a.len(), cut(a), cut(e), e.len()))
}
fn models(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let d = depth(t, if env.thorough { 1_000_000 } else { 130_000 });
    let mut r = rng_of(t);
    let q = if t.chance(1, 2) { 4 } else { 1 };
    let style = t.below(4);
    let inpe = t.chance(1, 4);
    const Q: [&str; 4] = ["", "?", "*", "+"];
    let mut s = String::new();
    let mut tails: Vec<String> = vec![];
    for i in 0..d {
        s.push('(');
        let seq = r.below(2) == 0;
        let sep = if seq { "," } else { "|" };
        let (before, after) = match style {
            0 => (0, 0),
            1 => (r.below(2), 0),
            2 => (0, r.below(2)),
            _ => (r.below(3), r.below(3)),
        };
        for j in 0..before {
            s += &format!("b{}{}{}", i % 50, Q[r.below(q)], if j < 3 { sep } else { "" });
        }
        let mut z = String::new();
        for _ in 0..after {
            z += &format!("{}c{}{}", sep, i % 90, Q[r.below(q)]);
        }
        // a wide group beside
        if r.below(2000) == 0 {
            z += &format!("{}({})", sep, vec!["w"; 40].join("|"));
        }
        z += ")";
        z += Q[r.below(q)];
        tails.push(z);
    }
    s += "x";
    while let Some(z) = tails.pop() {
        s += &z;
    }
    let spaced = t.chance(1, 4);
    let src = if spaced { s.replace(',', " , ").replace('(', "( ") } else { s.clone() };
    let decls = format!("<!ELEMENT a {}><!ELEMENT b (c,(d|e)*)><!ELEMENT c EMPTY>", src);
    let (doc, ext) = if inpe { ("<!DOCTYPE a SYSTEM 'x'><a/>".to_string(), decls) } else { (format!("<!DOCTYPE a [{}]><a/>", decls), String::new()) };
    let feeds = big_feeds(t, doc.len());
    let ef = big_feeds(t, ext.len());
    out.hash = fnv(doc.as_bytes()) ^ fnv(ext.as_bytes()).rotate_left(3) ^ feeds.len() as u64;
    out.nontrivial = d > 30;
    if env.describe {
        out.desc = format!("{} nested groups, {} characters: {}...", d, doc.len() + ext.len(), doc.chars().chain(ext.chars()).take(600).collect::<String>());
        predesc(env, &out.desc);
    }
    let g = g_run(env.rx(), doc.as_bytes(), ext.as_bytes(), &feeds, &ef);
    if (g.status, g.err) != (1, 0) {
        return out.fail(format!("rejected: status {} error {}", g.status, g.err));
    }
    if g.out.len() != 3 || g.out[1] != "b (c,(d|e)*)" || g.out[2] != "c EMPTY" {
        return out.fail(format!("{} declarations, not 3; the last: {:?}", g.out.len(), g.out.last().map(|s| s.chars().take(60).collect::<String>())));
    }
    match diff_str(&g.out[0], &format!("a {}", s)) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn sections(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let max = if env.thorough { 1_000_000 } else { 130_000 };
    let d = depth(t, max);
    let mut r = rng_of(t);
    let ignore = t.chance(1, 3);
    let mut ext = String::new();
    let mut want = vec![];
    let n = |r: &mut Rng| r.below(d.min(40) * 2) == 0;
    if ignore {
        ext += "<!--0--><![IGNORE[";
        want.push("--0".to_string());
        for i in 0..d {
            ext += "<![";
            ext += ["", "IGNORE[", "INCLUDE[", "CDATA[", "x"][r.below(5)];
            if n(&mut r) {
                ext += &format!("<!--i{}-->]] ]> <! [", i);
            }
        }
        for i in 0..d {
            if n(&mut r) {
                ext += &format!("<!ELEMENT e{} ANY>\"{}", i, &"]]]"[r.below(4)..]);
            }
            ext += "]]>";
        }
        ext += "]]><!--1-->";
        want.push("--1".to_string());
    } else {
        for i in 0..d {
            ext += ["<![INCLUDE[", "<![ INCLUDE [ "][r.below(2)];
            if n(&mut r) {
                ext += &format!("<!--i{}-->", i);
                want.push(format!("--i{}", i));
            }
            if n(&mut r) {
                ext += "<![IGNORE[<!ELEMENT q>]]>";
            }
        }
        for i in 0..d {
            ext += "]]>";
            if n(&mut r) {
                ext += &format!("<!ELEMENT e{} ANY>", i);
                want.push(format!("e{} ANY", i));
            }
        }
    }
    let doc = "<!DOCTYPE a SYSTEM 'x'><a/>";
    let bytes = if t.chance(1, 3) { encode_bom(&ext, Enc::Utf16le, 2) } else { ext.clone().into_bytes() };
    // (the whole of an IGNORE section is one token)
    let ef = big_feeds(t, bytes.len());
    out.hash = fnv(&bytes) ^ ef.len() as u64;
    out.nontrivial = d > 30;
    out.labels.push(if ignore { "IGNORE" } else { "INCLUDE" });
    if env.describe {
        out.desc = format!("{} nested sections, {} characters: {}...", d, ext.len(), ext.chars().take(600).collect::<String>());
        predesc(env, &out.desc);
    }
    let g = g_run(env.rx(), doc.as_bytes(), &bytes, &one_feed(), &ef);
    if (g.status, g.err) != (1, 0) {
        return out.fail(format!("rejected: status {} error {}", g.status, g.err));
    }
    match diff_str(&g.out.join(";"), &want.join(";")) {
        Some(d) => out.fail(d),
        None => out,
    }
}
/// A chain of entities: document, external subset, what the text must be, what is reported in the DTD.
fn chain(kind: usize, d: usize, wide: usize) -> (String, String, String, Vec<String>) {
    let mut s = String::new();
    let doc;
    let (mut text, mut want, mut ext) = (String::new(), vec![], String::new());
    match kind {
        0 | 1 => {
            s += "<!ENTITY e0 'x'>";
            for i in 0..d {
                s += &format!("<!ENTITY e{} '{}&e{};{}'>", i + 1, "a".repeat(wide), i, "b".repeat(wide));
            }
            text = "a".repeat(wide * d) + "x" + &"b".repeat(wide * d);
            doc = if kind == 0 { format!("<!DOCTYPE a [{}]><a>&e{};</a>", s, d) } else { format!("<!DOCTYPE a [{}]><a b='&e{};'/>", s, d) };
        }
        2 => {
            s += "<!ENTITY % e0 '<!--x-->'>";
            for i in 0..d {
                s += &format!("<!ENTITY % e{} '{}&#37;e{};{}'>", i + 1, "<!--a-->".repeat(wide), i, "<!--b-->".repeat(wide));
            }
            want.extend(vec!["--a".to_string(); wide * d]);
            want.push("--x".into());
            want.extend(vec!["--b".to_string(); wide * d]);
            doc = format!("<!DOCTYPE a [{}%e{};]><a/>", s, d);
        }
        _ => {
            ext += "<!ENTITY % e0 'x'>";
            for i in 0..d {
                ext += &format!("<!ENTITY % e{} '{}&#37;e{};{}'>", i + 1, "a".repeat(wide), i, "b".repeat(wide));
            }
            ext += &format!("<!ENTITY f '%e{};'>", d);
            want.push("a".repeat(wide * d) + "x" + &"b".repeat(wide * d));
            doc = "<!DOCTYPE a SYSTEM 'x'><a/>".into();
        }
    }
    (doc, ext, text, want)
}
fn check_chain(l: &Lib, c: &(String, String, String, Vec<String>), feeds: &[Feed], ef: &[Feed]) -> Option<String> {
    let g = g_run(l, c.0.as_bytes(), c.1.as_bytes(), feeds, ef);
    if (g.status, g.err) != (1, 0) {
        return Some(format!("rejected: status {} error {}", g.status, g.err));
    }
    diff_str(&String::from_utf8_lossy(&g.text), &c.2).or_else(|| diff_str(&g.out.join(";"), &c.3.join(";")))
}
const KINDS: [&str; 4] = ["in content", "in an attribute value", "parameter entities in the DTD", "parameter entities in an entity value"];
fn entities(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let kind = t.below(4);
    let d = depth(t, 300);
    let wide = t.below(3);
    let c = chain(kind, d, wide);
    let feeds = big_feeds(t, c.0.len());
    let ef = big_feeds(t, c.1.len());
    out.hash = fnv(c.0.as_bytes()) ^ fnv(c.1.as_bytes()).rotate_left(7) ^ (feeds.len() + ef.len() * 64) as u64;
    out.nontrivial = d > 10;
    out.labels.push(KINDS[kind]);
    if env.describe {
        out.desc = format!("{} nested entities {}: {}...", d, KINDS[kind], c.0.chars().chain(c.1.chars()).take(600).collect::<String>());
        predesc(env, &out.desc);
    }
    match check_chain(env.rx(), &c, &feeds, &ef) {
        Some(d) => out.fail(d),
        None => out,
    }
}
/// Elements that each declare the prefix of their long name.
fn walk(env: &Env) -> Out {
    let mut out = Out::new();
    out.nontrivial = true;
    out.hash = 99;
    let time = |n: usize| {
        let mut s = String::new();
        for i in 0..n {
            s += &format!("<p{}:{} xmlns:p{}='u'>", i, "n".repeat(60), i);
        }
        for i in (0..n).rev() {
            s += &format!("</p{}:{}>", i, "n".repeat(60));
        }
        let cfg = Cfg { h: 0, ns: Some('|'), ..Cfg::default() };
        let t0 = super::c21::cpu();
        let r = run(env.rx(), &cfg, s.as_bytes(), &one_feed());
        (super::c21::cpu() - t0, r.status)
    };
    let (a, b) = (time(1_500), time(30_000));
    out.desc = format!("1500 nested elements, each with its own prefix, in {:.2} s, 30000 in {:.2} s", a.0, b.0);
    if (a.1, b.1) != (1, 1) {
        return out.fail(format!("status {} and {}", a.1, b.1));
    }
    if b.0 > 1. && b.0 > a.0 * 20. * 2. {
        let m = format!("time is not proportional: {}", out.desc);
        return out.finding(env, "C27", "name-walk", m);
    }
    out
}
/// Deep nesting handed over in small pieces: the time for n and for 8n.
fn pieces(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    let (kind, how) = (i % 9, i / 9);
    let n = if env.thorough { 12_000 } else { 5_000 };
    let feeds = |v: &[String]| -> Vec<Feed> {
        let k = v.len();
        v.iter().enumerate().map(|(j, x)| Feed { n: x.len(), fin: j + 1 == k, how: if how % 3 == 2 { (j % 3) as u8 } else { (how % 3) as u8 }, slack: 7 }).collect()
    };
    let time = |n: usize| -> (f64, i32, u32) {
        let rep = |s: &str, n: usize| -> Vec<String> { vec![s.to_string(); n] };
        let mut cfg = Cfg { h: H_CONTENT, max_events: 8_000_000, ..Cfg::default() };
        let mut ext: Option<Vec<String>> = None;
        let one = |s: &str| vec![s.to_string()];
        let v: Vec<String> = match kind {
            0 => [rep("<a>", n), rep("</a>", n)].concat(),
            1 => {
                cfg.ns = Some('|');
                [rep("<p:a xmlns:p='u' b='c'>", n), rep("</p:a>", n)].concat()
            }
            2 => [rep("<a>", n), rep("x", n), rep("</a>", n)].concat(),
            3 => {
                cfg.h |= H_EXT;
                ext = Some([rep("<a>", n), rep("</a>", n)].concat());
                one("<!DOCTYPE r [<!ENTITY e SYSTEM 'x'>]><r>&e;</r>")
            }
            4 => {
                cfg.h |= H_ELDECL;
                [one("<!DOCTYPE a [<!ELEMENT a "), rep("(", n), one("b"), rep(")", n), one("> ]><a/>")].concat()
            }
            5 => {
                cfg.h |= H_EXT;
                cfg.pe = 2;
                ext = Some([rep("<![INCLUDE[", n), rep("]]> ", n)].concat());
                one("<!DOCTYPE r SYSTEM 'x'><r/>")
            }
            6 => [rep("<a>", n), one("<![CDATA["), rep("x\n", n), one("]]>"), rep("</a>", n)].concat(),
            7 => [rep("<a>", n), rep("<!--x-->", n), rep("<?p?>", n), rep("</a>", n)].concat(),
            _ => [rep("<a>", n), rep("<b c='d'/>", n), rep("&amp;", n), rep("</a>", n)].concat(),
        };
        if let Some(x) = &ext {
            cfg.ents.push(ExtEnt { sys: "x".into(), data: x.concat().into_bytes(), enc: None, feeds: feeds(x), mode: 1 });
        }
        let data = v.concat().into_bytes();
        let f = feeds(&v);
        let mut best = f64::MAX;
        let mut st = (0, 0);
        for _ in 0..2 {
            let t0 = super::c21::cpu();
            let r = run(env.rx(), &cfg, &data, &f);
            best = best.min(super::c21::cpu() - t0);
            st = (r.status as i32, r.err as u32);
            if best > 4. {
                break;
            }
        }
        (best, st.0, st.1)
    };
    let (a, b) = (time(n), time(8 * n));
    let what = ["elements", "elements with prefixes", "elements around many texts", "elements in an external entity", "groups of a content model", "conditional sections", "elements around a CDATA section", "elements around comments", "elements around others"][kind];
    out.desc = format!("{} {}, a call each, in {:.3} s, {} in {:.3} s", n, what, a.0, 8 * n, b.0);
    out.hash = i as u64;
    out.nontrivial = true;
    out.labels.push(what);
    if (a.1, a.2, b.1, b.2) != (1, 0, 1, 0) {
        return out.fail(format!("{} {}: status {} error {}, {}: status {} error {}", n, what, a.1, a.2, 8 * n, b.1, b.2));
    }
    if b.0 > 0.5 && b.0 > a.0.max(0.002) * 8. * 3.5 {
        let m = format!("time is not proportional: {}", out.desc);
        return out.fail(m);
    }
    out
}
/// 100000 entities in each other, in a process of its own.
fn known(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let kind = t.u32() as usize;
    if kind == 4 {
        return walk(env);
    }
    out.nontrivial = true;
    out.hash = kind as u64;
    out.desc = format!("100000 nested entities {}", KINDS[kind]);
    let c = chain(kind, 100_000, 0);
    let st = unsafe {
        let pid = fork();
        if pid == 0 {
            let lim = [0u64, 0];
            setrlimit(4, &lim);
            let ok = check_chain(env.rx(), &c, &one_feed(), &one_feed()).is_none();
            _exit(!ok as c_int);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        st
    };
    if st == 0 {
        return out;
    }
    let m = format!("100000 entities in each other, {}: {}", KINDS[kind], if st & 0x7f != 0 { format!("the program ends with signal {}", st & 0x7f) } else { "wrong result".into() });
    if st & 0x7f == 0 {
        return out.fail(m);
    }
    out.finding(env, "C27", "entity-recursion", m)
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a case counts when something is nested more than 30 deep (entities: 10)",
        libs: Libs::Std,
        assumptions: &["the stack has the usual eight megabytes"],
        subs: vec![
            Sub { name: "elements", kind: Kind::Random { words: 60, quick: 96, thorough: 20000 }, f: elements },
            Sub { name: "models", kind: Kind::Random { words: 60, quick: 240, thorough: 20000 }, f: models },
            Sub { name: "sections", kind: Kind::Random { words: 60, quick: 320, thorough: 20000 }, f: sections },
            Sub { name: "entities", kind: Kind::Random { words: 60, quick: 4000, thorough: 100000 }, f: entities },
            Sub { name: "pieces", kind: Kind::All { quick: 18, thorough: 27 }, f: pieces },
            Sub { name: "known", kind: Kind::All { quick: 5, thorough: 5 }, f: known },
        ],
    }
}
