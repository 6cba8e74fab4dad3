//! The programming interface.
use super::common::*;
use super::hist::*;
use super::*;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::{null, null_mut};

const STRINGS: &[&str] = &[
    "",
    "out of memory",
    "syntax error",
    "no element found",
    "not well-formed (invalid token)",
    "unclosed token",
    "partial character",
    "mismatched tag",
    "duplicate attribute",
    "junk after document element",
    "illegal parameter entity reference",
    "undefined entity",
    "recursive entity reference",
    "asynchronous entity",
    "reference to invalid character number",
    "reference to binary entity",
    "reference to external entity in attribute",
    "XML or text declaration not at start of entity",
    "unknown encoding",
    "encoding specified in XML declaration is incorrect",
    "unclosed CDATA section",
    "error in processing external entity reference",
    "document is not standalone",
    "unexpected parser state - please send a bug report",
    "entity declared in parameter entity",
    "requested feature requires XML_DTD support in Expat",
    "cannot change setting once parsing has begun",
    "unbound prefix",
    "must not undeclare prefix",
    "incomplete markup in parameter entity",
    "XML declaration not well-formed",
    "text declaration not well-formed",
    "illegal character(s) in public id",
    "parser suspended",
    "parser not suspended",
    "parsing aborted",
    "parsing finished",
    "cannot suspend in external parameter entity",
    "reserved prefix (xml) must not be undeclared or bound to another namespace name",
    "reserved prefix (xmlns) must not be declared or undeclared",
    "prefix must not be bound to one of the reserved namespace names",
    "invalid argument",
];
fn cstr(p: *const c_char) -> Option<String> {
    if p.is_null() {
        None
    } else {
        Some(unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned())
    }
}
/// Descriptions of errors, version, features.
pub fn constants_of(l: &Lib, i: usize) -> Option<String> {
    let _g = Ph::enter(l);
    unsafe {
        if i < 300 {
            let code = if i < 260 { i as u32 } else { [u32::MAX, 1 << 31, 1000, 1 << 16, 1 << 8, 0x100 + 4][i % 6] };
            let s = cstr((l.ErrorString)(code));
            let want = if code == 0 { None } else { STRINGS.get(code as usize).map(|s| s.to_string()) };
            if s != want {
                return Some(format!("XML_ErrorString({}) is {:?} where {:?} is documented", code, s, want));
            }
            return None;
        }
        let v = (l.ExpatVersionInfo)();
        let s = cstr((l.ExpatVersion)()).unwrap_or_default();
        if s != format!("expat_{}.{}.{}", v.major, v.minor, v.micro) || (v.major, v.minor, v.micro) != (2, 2, 9) {
            return Some(format!("version {:?} and {:?}", s, v));
        }
        let mut f = (l.GetFeatureList)();
        let mut got = vec![];
        while (*f).feature != 0 && got.len() < 30 {
            got.push(((*f).feature, cstr((*f).name).unwrap_or_default(), (*f).value as i64));
            f = f.add(1);
        }
        let end = cstr((*f).name);
        got.sort();
        let mut want: Vec<(u32, String, i64)> = vec![
            (3, "XML_DTD".into(), 0),
            (4, "XML_CONTEXT_BYTES".into(), 1024),
            (6, "sizeof(XML_Char)".into(), l.cz() as i64),
            (7, "sizeof(XML_LChar)".into(), 1),
            (8, "XML_NS".into(), 0),
        ];
        if l.wide {
            want.insert(0, (1, "XML_UNICODE".into(), 0));
        }
        if got != want || end.is_some() {
            return Some(format!("features {:?} end {:?}, where {:?} is expected", got, end, want));
        }
        None
    }
}
/// No parser: documented to do nothing and return an error.
pub fn null_parser(l: &Lib) -> Option<String> {
    let z = l.zstr("x");
    let zp = z.as_ptr() as S;
    let p: P = null_mut();
    let _g = Ph::enter(l);
    unsafe {
        set_handlers(l, p, H_ALL | H_DEFAULT | H_DEFEXPAND, true, &Cfg::default());
        for i in 0..8 {
            set_half(l, p, i, true);
        }
        (l.SetExternalEntityRefHandlerArg)(p, null_mut());
        (l.SetUserData)(p, null_mut());
        (l.UseParserAsHandlerArg)(p);
        (l.SetReturnNSTriplet)(p, 1);
        (l.DefaultCurrent)(p);
        (l.FreeContentModel)(p, null_mut());
        (l.MemFree)(p, null_mut());
        (l.ParserFree)(p);
        let mut st = ParsingStatus { parsing: 77, final_buffer: 7 };
        (l.GetParsingStatus)(p, &mut st);
        let (mut a, mut b) = (5, 5);
        let r: Vec<(&str, i64, i64)> = vec![
            ("XML_ParserReset", (l.ParserReset)(p, zp) as i64, 0),
            ("XML_SetEncoding", (l.SetEncoding)(p, zp) as i64, 0),
            ("XML_UseForeignDTD", (l.UseForeignDTD)(p, 1) as i64, 41),
            ("XML_SetBase", (l.SetBase)(p, zp) as i64, 0),
            ("XML_GetBase", (l.GetBase)(p) as i64, 0),
            ("XML_GetSpecifiedAttributeCount", (l.GetSpecifiedAttributeCount)(p) as i64, -1),
            ("XML_GetIdAttributeIndex", (l.GetIdAttributeIndex)(p) as i64, -1),
            ("XML_SetParamEntityParsing", (l.SetParamEntityParsing)(p, 1) as i64, 0),
            ("XML_SetHashSalt", (l.SetHashSalt)(p, 1) as i64, 0),
            ("XML_Parse", (l.Parse)(p, b"<a/>".as_ptr() as *const c_char, 4, 1) as i64, 0),
            ("XML_GetBuffer", (l.GetBuffer)(p, 1) as i64, 0),
            ("XML_ParseBuffer", (l.ParseBuffer)(p, 0, 1) as i64, 0),
            ("XML_StopParser", (l.StopParser)(p, 1) as i64, 0),
            ("XML_ResumeParser", (l.ResumeParser)(p) as i64, 0),
            ("XML_GetErrorCode", (l.GetErrorCode)(p) as i64, 41),
            ("XML_GetCurrentLineNumber", (l.GetCurrentLineNumber)(p) as i64, 0),
            ("XML_GetCurrentColumnNumber", (l.GetCurrentColumnNumber)(p) as i64, 0),
            ("XML_GetCurrentByteIndex", (l.GetCurrentByteIndex)(p) as i64, -1),
            ("XML_GetCurrentByteCount", (l.GetCurrentByteCount)(p) as i64, 0),
            ("XML_GetInputContext", (l.GetInputContext)(p, &mut a, &mut b) as i64, 0),
            ("XML_ExternalEntityParserCreate", (l.ExternalEntityParserCreate)(p, zp, null()) as i64, 0),
            ("XML_MemMalloc", (l.MemMalloc)(p, 4) as i64, 0),
            ("XML_MemRealloc", (l.MemRealloc)(p, null_mut(), 4) as i64, 0),
        ];
        for (n, got, want) in r {
            if got != want {
                return Some(format!("{} without a parser returns {} where {} is documented", n, got, want));
            }
        }
        if (st.parsing, st.final_buffer, a, b) != (77, 7, 5, 5) {
            return Some("a query without a parser wrote a result".into());
        }
    }
    None
}
fn constants(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    out.hash = i as u64 + 1;
    out.nontrivial = true;
    if env.describe {
        out.desc = if i < 300 { format!("description of error {}", i) } else { format!("version, features, calls without a parser {}", i) };
        predesc(env, &out.desc);
    }
    let f = match i {
        0..=301 => constants_of(env.rx(), i),
        _ => null_parser(env.rx()),
    };
    match f {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// A document whose events show every setting; configuration calls at every stage.
#[derive(Clone, PartialEq, Debug)]
struct Set {
    enc: Option<String>,
    base: Option<String>,
    foreign: bool,
    pe: u32,
    trip: bool,
    user: usize,
    parser_arg: bool,
}
struct Seen {
    p: P,
    l: *const Lib,
    user: usize,
    parser_arg: bool,
    args: usize,
    bad: Option<String>,
    names: Vec<B>,
    exts: Vec<(Option<B>, Option<B>)>,
    texts: B,
    calls: Vec<(usize, u8, u32)>,
    n: usize,
    set: Option<Set>,
}
static mut SEEN: *mut Seen = null_mut();
fn seen<'a>() -> &'a mut Seen {
    unsafe { &mut *SEEN }
}
fn arg_ok(a: *mut c_void) {
    let s = seen();
    let want = if s.parser_arg { s.p as usize } else { s.user };
    s.args += 1;
    if a as usize != want && s.bad.is_none() {
        s.bad = Some(format!("handler argument {:#x} where {:#x} is set", a as usize, want));
    }
}
unsafe extern "C" fn s_start(a: *mut c_void, n: S, _: *mut S) {
    let _g = Ph::harness();
    arg_ok(a);
    let s = seen();
    s.names.push((*s.l).z(n));
    inside();
}
unsafe extern "C" fn s_text(a: *mut c_void, p: S, n: c_int) {
    let _g = Ph::harness();
    arg_ok(a);
    let s = seen();
    s.texts.extend((*s.l).chars(p, n as usize));
    inside();
}
unsafe extern "C" fn s_ext(_: P, _: S, base: S, sys: S, _: S) -> c_int {
    let _g = Ph::harness();
    let s = seen();
    s.exts.push(((*s.l).oz(base), (*s.l).oz(sys)));
    inside();
    1
}
/// Calls made from within handlers.
unsafe fn inside() {
    let s = seen();
    s.n += 1;
    let todo: Vec<_> = s.calls.iter().filter(|c| c.0 == s.n).cloned().collect();
    for (_, k, v) in todo {
        let mut set = s.set.clone().unwrap();
        let r = setting(&*s.l, s.p, &mut set, k, v, 1);
        s.user = set.user;
        s.parser_arg = set.parser_arg;
        s.set = Some(set);
        if s.bad.is_none() {
            s.bad = r.map(|r| format!("in a handler: {}", r));
        }
    }
}
const NAMES: &[Option<&str>] = &[None, Some("ISO-8859-1"), Some("UTF-8"), Some("us-ascii"), Some("bogus")];
/// One configuration call in parsing state st, checked against what is documented.
fn setting(l: &Lib, p: P, s: &mut Set, k: u8, v: u32, st: u32) -> Option<String> {
    let busy = st == 1 || st == 3;
    let ck = |what: &str, got: i64, want: i64| if got != want { Some(format!("{} in parsing status {} returned {} where {} is documented", what, st, got, want)) } else { None };
    let _g;
    unsafe {
        match k % 9 {
            0 => {
                let e = NAMES[v as usize % NAMES.len()];
                let z = e.map(|e| l.zstr(e));
                _g = Ph::enter(l);
                let r = (l.SetEncoding)(p, z.as_ref().map_or(null(), |z| z.as_ptr() as S));
                if !busy {
                    s.enc = e.map(|x| x.to_string());
                }
                ck("XML_SetEncoding", r as i64, !busy as i64)
            }
            1 => {
                let b = [None, Some("base"), Some(""), Some("http://example.org/é/")][v as usize % 4];
                let z = b.map(|b| l.zstr(b));
                _g = Ph::enter(l);
                let r = (l.SetBase)(p, z.as_ref().map_or(null(), |z| z.as_ptr() as S));
                drop(z);
                s.base = b.map(|b| b.to_string());
                ck("XML_SetBase", r as i64, 1)
            }
            2 => {
                let on = v % 2;
                _g = Ph::enter(l);
                let r = (l.UseForeignDTD)(p, on as u8);
                if !busy {
                    s.foreign = on == 1;
                }
                ck("XML_UseForeignDTD", r as i64, if busy { 26 } else { 0 })
            }
            3 => {
                _g = Ph::enter(l);
                let r = (l.SetParamEntityParsing)(p, v % 3);
                if !busy {
                    s.pe = v % 3;
                }
                ck("XML_SetParamEntityParsing", r as i64, !busy as i64)
            }
            4 => {
                let x = [0, 1, 2, 256, -1, i32::MIN, 0][v as usize % 7];
                _g = Ph::enter(l);
                (l.SetReturnNSTriplet)(p, x);
                if !busy {
                    s.trip = x != 0;
                }
                None
            }
            5 => {
                s.user = 0x2000 + (v as usize % 8) * 16;
                _g = Ph::enter(l);
                (l.SetUserData)(p, s.user as *mut c_void);
                ck("XML_GetUserData", *(p as *const usize) as i64, s.user as i64)
            }
            6 => {
                // (once in a while: it cannot be undone)
                if v % 3 == 0 {
                    s.parser_arg = true;
                    _g = Ph::enter(l);
                    (l.UseParserAsHandlerArg)(p);
                    return ck("XML_GetUserData", *(p as *const usize) as i64, s.user as i64);
                }
                None
            }
            7 => {
                _g = Ph::enter(l);
                let r = (l.SetHashSalt)(p, v as _);
                ck("XML_SetHashSalt", r as i64, !busy as i64)
            }
            _ => {
                _g = Ph::enter(l);
                let b = (l.GetBase)(p);
                let b = l.oz(b);
                if b.as_deref() != s.base.as_ref().map(|b| b.as_bytes()) {
                    return Some(format!("XML_GetBase gives {} where {:?} was set", show_opt(&b), s.base));
                }
                let mut x = ParsingStatus::default();
                (l.GetParsingStatus)(p, &mut x);
                ck("XML_GetParsingStatus", x.parsing as i64, st as i64)
            }
        }
    }
}
fn settings(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let l = env.rx();
    let ns = t.chance(1, 2);
    let doctype = t.chance(1, 2);
    let rounds = t.range(1, 3);
    let mut plan = vec![];
    for _ in 0..rounds {
        let mut stages: Vec<Vec<(u8, u32)>> = vec![];
        for _ in 0..4 {
            let n = t.below(5);
            stages.push((0..n).map(|_| (t.below(9) as u8, t.word() as u32)).collect());
        }
        let n = t.below(4);
        let calls: Vec<(usize, u8, u32)> = (0..n).map(|_| (t.range(1, 5), t.below(9) as u8, t.word() as u32)).collect();
        plan.push((stages, calls, t.chance(1, 3), t.chance(1, 4), if t.chance(1, 3) { NAMES[t.below(NAMES.len())] } else { None }));
    }
    out.hash = fnv(format!("{:?}{}{}", plan, ns, doctype).as_bytes());
    // é in Latin-1: only well-formed there
    let latin: &[u8] = if doctype { b"<!DOCTYPE x:a SYSTEM 'sub' [<!ENTITY % p SYSTEM 'pe'> %p;]><x:a xmlns:x='u'>\xe9</x:a>" } else { b"<x:a xmlns:x='u'>\xe9</x:a>" };
    let utf8: &[u8] = if doctype { "<!DOCTYPE x:a SYSTEM 'sub' [<!ENTITY % p SYSTEM 'pe'> %p;]><x:a xmlns:x='u'>é</x:a>".as_bytes() } else { "<x:a xmlns:x='u'>é</x:a>".as_bytes() };
    let ascii: &[u8] = if doctype { b"<!DOCTYPE x:a SYSTEM 'sub' [<!ENTITY % p SYSTEM 'pe'> %p;]><x:a xmlns:x='u'>&#233;</x:a>" } else { b"<x:a xmlns:x='u'>&#233;</x:a>" };
    if env.describe {
        out.desc = format!("namespaces {} doctype {} (stages of calls before, between and after two pieces, calls in handlers, reparse, cut, reset encoding): {:?}", ns, doctype, plan);
        predesc(env, &out.desc);
    }
    let mut s = Set { enc: None, base: None, foreign: false, pe: 0, trip: false, user: 0, parser_arg: false };
    let p = unsafe {
        let _g = Ph::enter(l);
        if ns {
            (l.ParserCreateNS)(null(), b'|' as _)
        } else {
            (l.ParserCreate)(null())
        }
    };
    let mut fail: Option<String> = None;
    let mut total = 0;
    for (i, (stages, calls, two, unfinished, reenc)) in plan.iter().enumerate() {
        let mut se = Seen { p, l, user: s.user, parser_arg: s.parser_arg, args: 0, bad: None, names: vec![], exts: vec![], texts: vec![], calls: calls.clone(), n: 0, set: None };
        unsafe {
            SEEN = &mut se;
            let _g = Ph::enter(l);
            (l.SetStartElementHandler)(p, s_start as *mut c_void);
            (l.SetCharacterDataHandler)(p, s_text as *mut c_void);
            (l.SetExternalEntityRefHandler)(p, s_ext as *mut c_void);
        }
        for (k, v) in &stages[0] {
            fail = fail.or(setting(l, p, &mut s, *k, *v, 0));
        }
        // what is to be seen
        let at0 = s.clone();
        let doc = match s.enc.as_deref() {
            Some("ISO-8859-1") => latin,
            Some("us-ascii") => ascii,
            _ => utf8,
        };
        let bogus = s.enc.as_deref() == Some("bogus");
        let cut = if *two { doc.len() / 2 } else { doc.len() };
        se.user = s.user;
        se.parser_arg = s.parser_arg;
        se.set = Some(s.clone());
        let parse = |d: &[u8], fin: bool| {
            let _g = Ph::enter(l);
            unsafe { (l.Parse)(p, d.as_ptr() as *const c_char, d.len() as c_int, fin as c_int) }
        };
        let mut st = parse(&doc[..cut], cut == doc.len() && !unfinished);
        let take = |s: &mut Set| {
            let x = seen().set.clone().unwrap();
            *s = x;
        };
        take(&mut s);
        let mut state = if cut == doc.len() && !unfinished && st == 1 { 2 } else { 1 };
        for (k, v) in &stages[1] {
            if state == 2 {
                // (settings made then are for the next document; nothing is parsed with them)
                break;
            }
            fail = fail.or(setting(l, p, &mut s, *k, *v, state));
        }
        se.user = s.user;
        se.parser_arg = s.parser_arg;
        se.set = Some(s.clone());
        if st == 1 && cut < doc.len() && !unfinished {
            st = parse(&doc[cut..], true);
            take(&mut s);
            state = if st == 1 { 2 } else { 1 };
        }
        for (k, v) in &stages[2] {
            if state == 2 && [2, 3, 4].contains(&(k % 9)) {
                continue;
            }
            fail = fail.or(setting(l, p, &mut s, *k, *v, state));
        }
        total += se.args;
        if fail.is_none() {
            fail = se.bad.clone();
        }
        if fail.is_none() && !unfinished {
            let want = if bogus { 0 } else { 1 };
            let err = {
                let _g = Ph::enter(l);
                unsafe { (l.GetErrorCode)(p) }
            };
            if st != want || err != if bogus { 18 } else { 0 } {
                fail = Some(format!("document {}: status {} error {}", i, st, err));
            } else if !bogus {
                let name = if !ns {
                    "x:a"
                } else if at0.trip {
                    "u|a|x"
                } else {
                    "u|a"
                };
                if se.names != vec![name.as_bytes().to_vec()] {
                    fail = Some(format!("document {}: element {:?} where {} is expected", i, se.names.iter().map(|n| show(n)).collect::<Vec<_>>(), name));
                } else if se.texts != "é".as_bytes() {
                    fail = Some(format!("document {}: text {}", i, show(&se.texts)));
                } else {
                    // standalone is not declared: modes 1 and 2 are the same
                    let mut want: Vec<Option<B>> = vec![];
                    if at0.pe != 0 && doctype {
                        want.push(Some(b"pe".to_vec()));
                        want.push(Some(b"sub".to_vec()));
                    } else if at0.pe != 0 && at0.foreign {
                        want.push(None);
                    }
                    let got: Vec<Option<B>> = se.exts.iter().map(|e| e.1.clone()).collect();
                    if got != want {
                        fail = Some(format!("document {}: external entities {:?} where {:?} is expected", i, got, want));
                    } else if let Some(e) = se.exts.first() {
                        if e.0.as_deref() != at0.base.as_ref().map(|b| b.as_bytes()) && calls.is_empty() && !*two {
                            fail = Some(format!("document {}: base {} where {:?} was set", i, show_opt(&e.0), at0.base));
                        }
                    }
                }
            }
        }
        if fail.is_some() {
            break;
        }
        // the next document
        let z = reenc.map(|e| l.zstr(e));
        let r = {
            let _g = Ph::enter(l);
            unsafe { (l.ParserReset)(p, z.as_ref().map_or(null(), |z| z.as_ptr() as S)) }
        };
        if r != 1 {
            fail = Some(format!("XML_ParserReset returned {}", r));
            break;
        }
        s = Set { enc: reenc.map(|e| e.to_string()), base: None, foreign: false, pe: 0, trip: s.trip, user: 0, parser_arg: false };
        for (k, v) in &stages[3] {
            fail = fail.or(setting(l, p, &mut s, *k, *v, 0));
        }
    }
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
    }
    out.nontrivial = total > 1;
    match fail {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// The same history on both libraries.
fn histories(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let plan = gen_plan(t, &Prof { glitch: &[0, 0, 30], depth: 3, encs: true, defaults: 4, ext_modes: true, stops: true, aborts: false, misc_acts: true, base: true, ret0: true, hopt: H_NOTSA | H_UNKENC, ..PROF });
    out.hash = fnv(format!("{:?}", plan.ops).as_bytes());
    for c in &plan.cases {
        out.hash ^= fnv(&c.data).rotate_left(9);
    }
    if env.describe {
        out.desc = desc_plan(&plan);
        predesc(env, &out.desc);
    }
    for c in &plan.cases {
        if pe_in_value(&c.data) || ignored_brackets(&c.data) || c.cfg.ents.iter().any(|e| pe_in_value(&e.data) || ignored_brackets(&e.data)) {
            out.discard = true;
            return out;
        }
    }
    let a = run_hist(env.rx(), &plan, false);
    if a.overflow {
        out.discard = true;
        return out;
    }
    if let Some(b) = a.bad.first() {
        return out.fail(b.clone());
    }
    let b = run_hist(env.rf(), &plan, false);
    out.nontrivial = a.calls > 3 && a.recs.iter().map(|r| r.1.len()).sum::<usize>() > 5;
    if a.lines.iter().any(|l| l.ends_with("child")) {
        out.labels.push("a parser for an external entity, later");
    }
    if std::env::var("HARNESS_DUMP").is_ok() {
        for (n, x) in [("rexpat", &a), ("libexpat", &b)] {
            eprintln!("== {} {:?}", n, x.lines);
            for (s, r) in &x.recs {
                eprintln!("slot {}", s);
                for r in r {
                    eprintln!("{}", fmt_rec(r));
                }
            }
        }
    }
    if a.lines != b.lines {
        return out.fail(format!("rexpat {:?}, libexpat {:?}", a.lines, b.lines));
    }
    if a.recs.len() != b.recs.len() {
        return out.fail("different parsers".into());
    }
    for ((s, x), (_, y)) in a.recs.iter().zip(&b.recs) {
        let (x, y) = (merge_recs(x.clone()), merge_recs(y.clone()));
        // nested entities are opened later by libexpat 2.6.1
        if x.iter().any(|r| matches!(&r.ev, Ev::Api(m) if m.contains("error 13") || m.contains("err=13"))) {
            out.labels.push("entity not complete in itself");
            continue;
        }
        if let Some(d) = diff_recs(&x, "rexpat", &y, "libexpat") {
            return out.fail(format!("parser in slot {}: {}", s, d));
        }
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a settings case counts when handlers were called; a history when more than three calls parse and more than five events follow; each constant counts",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "constants", kind: Kind::All { quick: 304, thorough: 304 }, f: constants },
            Sub { name: "settings", kind: Kind::Random { words: 90, quick: 80000, thorough: 2000000 }, f: settings },
            Sub { name: "histories", kind: Kind::Random { words: 600, quick: 80000, thorough: 4000000 }, f: histories },
        ],
    }
}
