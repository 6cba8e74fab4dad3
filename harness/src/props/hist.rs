//! Histories: several parsers, used in any order and in any documented way.
use super::common::*;
use super::*;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::{null, null_mut};

#[derive(Clone, Debug)]
pub enum Op {
    New(usize),
    /// of the parser in the slot, with one of the contexts seen so far
    Child { slot: usize, of: usize, which: usize, enc: Option<String> },
    Free(usize),
    Reset(usize, Option<String>),
    Feed { slot: usize, n: usize, fin: bool, how: u8, slack: u32 },
    /// a buffer asked for and not used
    Buffer(usize, usize),
    Resume(usize),
    Abort(usize),
    Query(usize),
    Call(usize, u8, u32),
}
pub struct Plan {
    pub cases: Vec<Case>,
    /// document and configuration of each slot; the last ones are for children
    pub ops: Vec<Op>,
    pub slots: usize,
}
pub const ENCS: &[&str] = &["UTF-8", "UTF-16", "ISO-8859-1", "US-ASCII", "UTF-16BE", "utf-16le", "x-none", ""];

/// Every call but those that parse.
fn call(l: &Lib, c: &mut Ctx, p: P, k: u8, v: u32) -> String {
    let on = v & 1 != 0;
    let m = v >> 1;
    unsafe {
        match k {
            0 => {
                let z = l.zstr(ENCS[m as usize % ENCS.len()]);
                let q = if v % 9 == 0 { null() } else { z.as_ptr() as S };
                let _g = Ph::enter(l);
                format!("SetEncoding {}", (l.SetEncoding)(p, q))
            }
            1 => {
                let z = l.zstr(["b/", "", "http://h/x?y", "é"][m as usize % 4]);
                let q = if v % 5 == 0 { null() } else { z.as_ptr() as S };
                let r = {
                    let _g = Ph::enter(l);
                    (l.SetBase)(p, q)
                };
                drop(z);
                let b = {
                    let _g = Ph::enter(l);
                    (l.GetBase)(p)
                };
                format!("SetBase {} {}", r, show_opt(&l.oz(b)))
            }
            2 => {
                let _g = Ph::enter(l);
                format!("UseForeignDTD {}", (l.UseForeignDTD)(p, on as u8))
            }
            3 => {
                let _g = Ph::enter(l);
                format!("SetParamEntityParsing {}", (l.SetParamEntityParsing)(p, m % 3))
            }
            4 => {
                let _g = Ph::enter(l);
                (l.SetReturnNSTriplet)(p, [0, 1, 2, 256, -1, 0x10000][v as usize % 6]);
                "SetReturnNSTriplet".into()
            }
            5 => {
                // libexpat forgets what it knows when the document is finished, and for a child looks at its parent
                if c.anyarg || c.status().0 == 2 {
                    return "SetHashSalt".into();
                }
                let _g = Ph::enter(l);
                format!("SetHashSalt {}", (l.SetHashSalt)(p, v as _))
            }
            6 => {
                c.user = (0x1000 + (v as usize % 16) * 8) as *mut c_void;
                let _g = Ph::enter(l);
                (l.SetUserData)(p, c.user);
                format!("SetUserData {}", *(p as *const *mut c_void) == c.user)
            }
            7 => {
                let _g = Ph::enter(l);
                set_handlers(l, p, m & (H_ALL | H_DEFAULT | H_DEFEXPAND) & !H_EXT, on, c.cfg);
                "handlers".into()
            }
            8 => {
                let _g = Ph::enter(l);
                set_half(l, p, m % 8, on);
                "half a pair".into()
            }
            9 => {
                let _g = Ph::enter(l);
                (l.SetExternalEntityRefHandlerArg)(p, if c.cfg.ext_arg { 0x99 as *mut c_void } else { null_mut() });
                "arg".into()
            }
            10 => {
                let n = m as usize % 3000;
                let _g = Ph::enter(l);
                let a = (l.MemMalloc)(p, n + 1) as *mut u8;
                drop(_g);
                if a.is_null() {
                    return "no memory".into();
                }
                for i in 0..n {
                    *a.add(i) = (i * 7) as u8;
                }
                let k = (v as usize % 7) * 400 + 1;
                let _g = Ph::enter(l);
                let b = (l.MemRealloc)(p, a as *mut c_void, k) as *mut u8;
                drop(_g);
                let ok = (0..n.min(k)).all(|i| *b.add(i) == (i * 7) as u8);
                *b.add(k - 1) = 1;
                let _g = Ph::enter(l);
                (l.MemFree)(p, b as *mut c_void);
                (l.MemFree)(p, null_mut());
                format!("memory {}", ok)
            }
            11 if l.role == 0 => {
                let (mut o, mut s) = (-7, -7);
                let _g = Ph::enter(l);
                let r = (l.GetInputContext)(p, &mut o, &mut s);
                if !r.is_null() && (o < 0 || s < 0 || o > s) {
                    return format!("context {} {}", o, s);
                }
                if !r.is_null() {
                    let mut x = 0u8;
                    for i in 0..s as usize {
                        x ^= *(r as *const u8).add(i);
                    }
                    std::hint::black_box(x);
                }
                "context".into()
            }
            11 | 12 => "context".into(),
            _ => {
                let _g = Ph::enter(l);
                format!("GetBuffer {}", (l.GetBuffer)(p, -1 - (v as c_int & 0xffff)).is_null())
            }
        }
    }
}
pub struct Log {
    pub lines: Vec<String>,
    pub recs: Vec<(usize, Vec<Rec>)>,
    pub bad: Vec<String>,
    pub calls: usize,
    pub overflow: bool,
}
struct Slot<'a> {
    ctx: Option<Box<Ctx<'a>>>,
    p: P,
    at: usize,
    parent: usize,
    susp: bool,
    fin: bool,
    err: bool,
}
/// Runs the history on one library. `pos`: log positions too.
pub fn run_hist(l: &Lib, plan: &Plan, free_any: bool) -> Log {
    let mut log = Log { lines: vec![], recs: vec![], bad: vec![], calls: 0, overflow: false };
    let old = unsafe { CUR };
    let mut sl: Vec<Slot> = (0..plan.slots).map(|_| Slot { ctx: None, p: null_mut(), at: 0, parent: usize::MAX, susp: false, fin: false, err: false }).collect();
    // contexts of general entities seen by each slot
    let mut seen: Vec<Vec<Vec<u16>>> = vec![vec![]; plan.slots];
    fn free<'a>(l: &Lib, sl: &mut Vec<Slot<'a>>, i: usize, log: &mut Log, any: bool) {
        if sl[i].ctx.is_none() {
            return;
        }
        if !any {
            for k in 0..sl.len() {
                if sl[k].parent == i {
                    free(l, sl, k, log, any);
                }
            }
        }
        for k in 0..sl.len() {
            if sl[k].parent == i {
                sl[k].parent = usize::MAX;
            }
        }
        let mut c = sl[i].ctx.take().unwrap();
        unsafe {
            CUR = &mut *c as *mut Ctx as *mut c_void;
            let _g = Ph::enter(l);
            (l.ParserFree)(sl[i].p);
        }
        sl[i].parent = usize::MAX;
        log.overflow |= c.t.overflow;
        log.bad.extend(c.t.bad.drain(..));
        log.recs.push((i, std::mem::take(&mut c.t.recs)));
    }
    for (n, op) in plan.ops.iter().enumerate() {
        let slot = match op {
            Op::New(s) | Op::Free(s) | Op::Reset(s, _) | Op::Buffer(s, _) | Op::Resume(s) | Op::Abort(s) | Op::Query(s) | Op::Call(s, ..) => *s,
            Op::Child { slot, .. } | Op::Feed { slot, .. } => *slot,
        };
        let case = &plan.cases[slot];
        match op {
            Op::New(_) | Op::Child { .. } if sl[slot].ctx.is_some() => continue,
            Op::New(_) => {
                let p = create(l, &case.cfg);
                let mut ctx = Ctx::new(l, &case.cfg);
                ctx.stack.push(p);
                ctx.fed.push(vec![]);
                let b = configure(l, p, &case.cfg, ctx.user);
                log.bad.extend(b);
                sl[slot] = Slot { ctx: Some(ctx), p, at: 0, parent: usize::MAX, susp: false, fin: false, err: false };
                seen[slot].clear();
                continue;
            }
            Op::Child { of, which, enc, .. } => {
                if sl[*of].ctx.is_none() || *of == slot || seen[*of].is_empty() {
                    continue;
                }
                let c = seen[*of][which % seen[*of].len()].clone();
                let z = enc.as_ref().map(|e| l.zstr(e));
                let p = {
                    let _g = Ph::enter(l);
                    unsafe { (l.ExternalEntityParserCreate)(sl[*of].p, c.as_ptr() as S, z.as_ref().map_or(null(), |z| z.as_ptr() as S)) }
                };
                drop(c);
                if p.is_null() {
                    log.lines.push(format!("{} child: NULL", n));
                    continue;
                }
                let mut ctx = Ctx::new(l, &case.cfg);
                ctx.stack.push(p);
                ctx.fed.push(vec![]);
                {
                    let _g = Ph::enter(l);
                    unsafe {
                        (l.SetUserData)(p, ctx.user);
                        // what the argument was is the parent's business
                        if case.cfg.parser_arg {
                            (l.UseParserAsHandlerArg)(p);
                        }
                        set_handlers(l, p, case.cfg.h, true, &case.cfg);
                        (l.SetExternalEntityRefHandlerArg)(p, if case.cfg.ext_arg { 0x99 as *mut c_void } else { null_mut() });
                    }
                }
                // the parent may have the parser as its argument: then so does the child
                ctx.anyarg = true;
                log.lines.push(format!("{} child", n));
                sl[slot] = Slot { ctx: Some(ctx), p, at: 0, parent: *of, susp: false, fin: false, err: false };
                seen[slot].clear();
                continue;
            }
            _ => {}
        }
        if sl[slot].ctx.is_none() {
            continue;
        }
        if let Op::Free(_) = op {
            free(l, &mut sl, slot, &mut log, free_any);
            continue;
        }
        if let Op::Reset(_, e) = op {
            for k in 0..sl.len() {
                if sl[k].parent == slot {
                    free(l, &mut sl, k, &mut log, free_any);
                }
            }
            let s = &mut sl[slot];
            let z = e.as_ref().map(|e| l.zstr(e));
            let c = s.ctx.as_mut().unwrap();
            unsafe { CUR = &mut **c as *mut Ctx as *mut c_void };
            let r = {
                let _g = Ph::enter(l);
                unsafe { (l.ParserReset)(s.p, z.as_ref().map_or(null(), |z| z.as_ptr() as S)) }
            };
            c.api(format!("reset {}", r));
            if r == 1 {
                s.at = 0;
                s.susp = false;
                s.fin = false;
                s.err = false;
                c.fed = vec![vec![]];
                c.keep.clear();
                seen[slot].clear();
                if s.parent == usize::MAX {
                    c.user = 0x1000 as *mut c_void;
                    let b = configure(l, s.p, &case.cfg, c.user);
                    log.bad.extend(b.into_iter().filter(|x| !x.contains("SetBase")));
                }
            }
            continue;
        }
        let s = &mut sl[slot];
        let p = s.p;
        let c = s.ctx.as_mut().unwrap();
        let cp: *mut Ctx = &mut **c;
        unsafe { CUR = cp as *mut c_void };
        let before = c.status();
        let mut parsed = true;
        let mut fresh = false;
        let r = match op {
            // (libexpat does more with an empty piece than nothing)
            Op::Feed { n, fin: false, .. } if !free_any && (*n).min(case.data.len() - s.at) == 0 => continue,
            Op::Feed { n, fin, how, slack, .. } => {
                let n = (*n).min(case.data.len() - s.at);
                let ch: B = case.data[s.at..s.at + n].to_vec();
                let was = c.fed[0].len();
                let f = Feed { n, fin: *fin, how: *how, slack: *slack };
                // a buffer is only asked for when it can be had
                let r = if *how > 0 && before.0 >= 2 { 7 } else { feed_one(&ch, &f) };
                let c = unsafe { &mut *cp };
                if before.0 < 2 {
                    s.at += n;
                    fresh = n > 0;
                    s.fin = *fin;
                } else {
                    c.fed[0].truncate(was);
                }
                r
            }
            // after an error it must not be called
            Op::Resume(_) => {
                let _g = Ph::enter(l);
                unsafe { (l.ResumeParser)(p) }
            }
            Op::Buffer(_, n) => {
                parsed = false;
                let q = {
                    let _g = Ph::enter(l);
                    unsafe { (l.GetBuffer)(p, *n as c_int) as *mut u8 }
                };
                if !q.is_null() && *n > 0 {
                    unsafe {
                        *q = b'<';
                        *q.add(*n - 1) = b'>';
                    }
                }
                (before.0 >= 2) as u32
            }
            Op::Abort(_) => {
                if before.0 != 3 {
                    continue;
                }
                let _g = Ph::enter(l);
                unsafe { (l.StopParser)(p, 0) }
            }
            Op::Query(_) => {
                parsed = false;
                let _g = Ph::enter(l);
                unsafe {
                    (l.GetSpecifiedAttributeCount)(p);
                    (l.GetIdAttributeIndex)(p);
                    0
                }
            }
            Op::Call(_, k, v) => {
                parsed = false;
                let s = call(l, c, p, *k, *v);
                c.api(s);
                0
            }
            _ => unreachable!(),
        };
        log.calls += 1;
        let c = unsafe { &mut *cp };
        let st = c.status();
        let err = {
            let _g = Ph::enter(l);
            unsafe { (l.GetErrorCode)(p) }
        };
        let mut pos = c.getpos();
        if c.anyarg {
            // (libexpat: none for a bracket that ends an entity)
            pos.count = 0;
        }
        for x in c.contexts.drain(..) {
            seen[slot].push(x);
        }
        let s = &mut sl[slot];
        s.susp |= st.0 == 3;
        // there is no position yet, or it was shown with the error
        let shown = if s.susp || !fresh || s.err || pos.idx <= 0 { "".to_string() } else { format!("{:?}", pos) };
        s.err |= parsed && r == 0 && ![33, 34, 36].contains(&err);
        let c = s.ctx.as_mut().unwrap();
        c.api(format!("{} {} {:?} error {} {}", r, st.0, if st.0 == 0 { 0 } else { st.1 }, if r == 0 && parsed { err } else { 0 }, shown));
    }
    // in the order of the slots, so that parents may go first
    for i in 0..plan.slots {
        free(l, &mut sl, i, &mut log, free_any);
    }
    unsafe { CUR = old };
    let _ = null::<c_char>();
    log
}

pub fn gen_plan(t: &mut Tape, p: &Prof) -> Plan {
    let roots = t.range(1, 2);
    let slots = roots + 1;
    let n = t.range(2, 24);
    let mut ops: Vec<Op> = (0..roots).map(Op::New).collect();
    for _ in 0..n {
        let slot = t.below(slots);
        let o = match t.below(20) {
            0 => Op::New(slot),
            1 | 2 => Op::Child { slot: roots, of: t.below(slots), which: t.below(4), enc: if t.chance(1, 4) { Some(ENCS[t.below(ENCS.len())].into()) } else { None } },
            3 if t.chance(1, 3) => Op::Free(slot),
            4 if t.chance(1, 2) => Op::Reset(slot, if t.chance(1, 4) { Some(ENCS[t.below(ENCS.len())].into()) } else { None }),
            5 => Op::Buffer(slot, [0, 1, 10, 1000, 5000][t.below(5)]),
            6 | 7 => Op::Resume(slot),
            8 if t.chance(1, 2) => Op::Abort(slot),
            9 => Op::Query(slot),
            10 | 11 => Op::Call(slot, t.below(14) as u8, t.u32()),
            // a part of the document in 64ths, with what was left over before
            _ => Op::Feed { slot, n: if t.chance(1, 3) { 64 } else { t.below(65) }, fin: t.chance(1, 12), how: t.below(3) as u8, slack: [0, 1, 100, 2000][t.below(4)] },
        };
        ops.push(o);
    }
    let mut cases: Vec<Case> = vec![];
    let late = t.chance(1, 2);
    for i in 0..slots {
        if late && (i == 0 || i == roots) {
            let mut c = Cfg::default();
            c.h = H_ALL & !H_NOTSA & !H_UNKENC & !(t.u32() & t.u32() & t.u32()) | H_EXT;
            if t.chance(2, 3) {
                c.ns = Some('\u{1}');
                c.triplets = t.chance(1, 2);
            }
            c.pe = t.below(3) as u8;
            c.parser_arg = t.chance(1, 4);
            c.ext_arg = t.chance(1, 4);
            c.base = if t.chance(1, 3) { Some("bb".into()) } else { None };
            c.leave = t.chance(1, 2);
            let ns = t.below(8);
            for k in 0..ns {
                c.acts.push((t.below(30) + k, Act::Stop(true)));
            }
            let text = if i == 0 { late_doc(t) } else { late_part(t) };
            for e in ["s1", "s2"] {
                c.ents.push(ExtEnt { sys: e.into(), data: late_part(t).into_bytes(), enc: None, feeds: one_feed(), mode: [5, 5, 1, 4][t.below(4)] });
            }
            let data = text.as_bytes().to_vec();
            cases.push(Case { doc: Doc { text, ents: vec![], ..Doc::default() }, cfg: c, data, feeds: vec![], glitch: 0, enc: Enc::Utf8 });
            continue;
        }
        // the last is for something in an external entity
        let mut c = if i < roots { gen_case(t, p) } else { gen_case(t, &Prof { dtd: false, ..*p }) };
        for e in c.cfg.ents.iter_mut() {
            if t.chance(1, 2) {
                e.mode = [5, 5, 3, 4][t.below(4)];
            }
        }
        c.cfg.leave = t.chance(1, 2);
        cases.push(c);
    }
    let mut sofar = vec![0usize; slots];
    for o in ops.iter_mut() {
        if let Op::Feed { slot, n, fin, .. } = o {
            let len = cases[*slot].data.len();
            *n = *n * len / 64;
            if cases[*slot].enc != Enc::Utf8 && p.reference {
                *n &= !1;
            }
            sofar[*slot] += *n;
            *fin |= sofar[*slot] >= len && slack_even(*n);
        }
    }
    Plan { cases, ops, slots }
}
/// Most of the last pieces are final.
fn slack_even(n: usize) -> bool {
    n % 5 != 3
}
pub fn desc_plan(p: &Plan) -> String {
    let mut s = String::new();
    for (i, c) in p.cases.iter().enumerate() {
        s += &format!("-- slot {} {}\n", i, desc_case(&c.cfg, &c.doc.text, &[]));
    }
    for o in &p.ops {
        s += &format!("{:?}\n", o);
    }
    s
}

/// A document with references to external entities in many places.
fn late_doc(t: &mut Tape) -> String {
    const D: &[&str] = &[
        "<!ENTITY i 'in<c/>side'>",
        "<!ENTITY j '&i;&i;'>",
        "<!ATTLIST c a CDATA 'default' id ID #IMPLIED>",
        "<!ATTLIST p:x p:a NMTOKENS ' d  e ' xmlns:q CDATA 'u:q'>",
        "<!ELEMENT c (#PCDATA|b)*>",
        "<!ATTLIST b t ID #IMPLIED>",
        "<!ENTITY k 'x&g;y'>",
        "<!NOTATION n SYSTEM 'nn'>",
    ];
    const B: &[&str] = &["&g;", "&h;", "&k;", "text", "<b>", "</b>", "<b xmlns='u:2' xmlns:p='u:p2'>", "<p:x>&g;</p:x>", "<c/>", "<b xmlns=''>", "<?a b?>"];
    let mut s = String::from("<!DOCTYPE r [<!ENTITY g SYSTEM 's1'><!ENTITY h PUBLIC 'pub' 's2'>");
    let n = t.below(8);
    for _ in 0..n {
        s += D[t.below(D.len())];
    }
    s += "]><r";
    s += ["", " xmlns='u:1'", " xmlns='u:1' xmlns:p='u:p'", " xmlns:p='u:p'"][t.below(4)];
    s += ">";
    let mut open = 0;
    let n = t.below(14);
    for _ in 0..n {
        let x = B[t.below(B.len())];
        match x {
            "</b>" if open == 0 => continue,
            "</b>" => open -= 1,
            _ if x.starts_with("<b") => open += 1,
            _ => {}
        }
        s += x;
    }
    for _ in 0..open {
        s += "</b>";
    }
    s + "&g;</r>"
}
/// What such an entity may hold.
fn late_part(t: &mut Tape) -> String {
    const P: &[&str] = &[
        "text &i; more", "<c/>", "<c a='&i;' id='z'>&j;</c>", "<p:x/>", "<p:x p:a='1' q:b='2'/>", "<b xmlns:q='u:3'><q:y/></b>", "&g;", "&h;", "&k;", "<!-- c -->", "<![CDATA[x]]>", "<b t='v' u='w'/>", "&undef;",
        "</b>", "<b>", "]", "\r\n", "é𝒳",
    ];
    let mut s = String::from(["", "<?xml encoding='UTF-8'?>", "<?xml version='1.0' encoding='us-ascii'?>"][t.weighted(&[6, 1, 1])]);
    let n = t.range(1, 7);
    for _ in 0..n {
        s += P[t.below(P.len())];
    }
    s
}
