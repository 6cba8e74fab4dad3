//! Several parsers at once.
use super::common::*;
use super::hist::*;
use super::*;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::null;

const P: Prof = Prof { glitch: &[0, 0, 30], depth: 3, feeds: true, encs: true, defaults: 4, dc: true, ext_modes: true, stops: true, aborts: true, misc_acts: true, base: true, ret0: true, hopt: H_NOTSA | H_UNKENC, reference: false, pos: true, ..PROF };

/// The operations on one parser and its children only.
fn only(plan: &Plan, keep: &dyn Fn(usize) -> bool) -> Plan {
    let ops = plan
        .ops
        .iter()
        .filter(|o| match o {
            Op::New(s) | Op::Free(s) | Op::Reset(s, _) | Op::Buffer(s, _) | Op::Resume(s) | Op::Abort(s) | Op::Query(s) | Op::Call(s, ..) => keep(*s),
            Op::Child { slot, .. } | Op::Feed { slot, .. } => keep(*slot),
        })
        .cloned()
        .collect();
    let cases = plan.cases.iter().map(|c| Case { doc: Doc { text: c.doc.text.clone(), ..Doc::default() }, cfg: c.cfg.clone(), data: c.data.clone(), feeds: vec![], glitch: 0, enc: Enc::Utf8 }).collect();
    Plan { cases, ops, slots: plan.slots }
}
fn alternating(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut plan = gen_plan(t, &Prof { feeds: false, ..P });
    let kid = plan.slots - 1;
    // all children belong to the first
    for o in plan.ops.iter_mut() {
        if let Op::Child { of, .. } = o {
            *of = 0;
        }
    }
    // the same document twice, so that there is something to confuse
    if kid == 2 && t.chance(1, 3) {
        let (a, b) = plan.cases.split_at_mut(1);
        b[0].data = a[0].data.clone();
        if t.chance(1, 2) {
            b[0].cfg = a[0].cfg.clone();
        }
    }
    out.hash = fnv(format!("{:?}", plan.ops).as_bytes());
    for c in &plan.cases {
        out.hash ^= fnv(&c.data).rotate_left(9);
    }
    if env.describe {
        out.desc = desc_plan(&plan);
        predesc(env, &out.desc);
    }
    if kid != 2 {
        out.discard = true;
        return out;
    }
    let l = env.rx();
    let all = run_hist(l, &plan, true);
    let one = run_hist(l, &only(&plan, &|s| s != 1), true);
    let two = run_hist(l, &only(&plan, &|s| s == 1), true);
    if all.overflow || one.overflow || two.overflow {
        out.discard = true;
        return out;
    }
    if let Some(b) = all.bad.first() {
        return out.fail(b.clone());
    }
    let mut parts = 0;
    for slot in 0..3 {
        let get = |l: &Log| -> Vec<Vec<Rec>> { l.recs.iter().filter(|r| r.0 == slot).map(|r| r.1.clone()).collect() };
        let (x, y) = (get(&all), get(if slot == 1 { &two } else { &one }));
        parts += (x.iter().map(|x| x.len()).sum::<usize>() > 3) as usize;
        if x.len() != y.len() {
            return out.fail(format!("slot {}: {} parsers together, {} alone", slot, x.len(), y.len()));
        }
        for (x, y) in x.iter().zip(&y) {
            if let Some(d) = diff_recs(x, "together", y, "alone") {
                return out.fail(format!("parser in slot {}: {}", slot, d));
            }
        }
    }
    out.nontrivial = parts > 1;
    out
}
/// something of everything
const RICH: &str = "<?xml version='1.0' standalone='yes'?><!DOCTYPE r PUBLIC 'p q' 'sys' [<!ENTITY e 'E&#70;x'><!ENTITY i '<i>&e;</i>'><!ATTLIST r q CDATA 'd&#33;' w ID #IMPLIED><!NOTATION n SYSTEM 's'><!ENTITY u SYSTEM 'us' NDATA n><!ELEMENT r (a|b)*><!-- in --><?pd d?>]><r b='&#65;&e;' c='  '>t&#66;&e;&#x1F600;&i;&lt;&#xE9;&#x20AC;<![CDATA[c\r]]><!--m--><?p d?>\r\n<x:y xmlns:x='u' x:z='&amp;'/></r>\n<!--end-->";
fn nested(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let l = env.rx();
    let mut outer = gen_case(t, &P);
    let n = t.range(1, 3);
    let mut cases: Vec<(Cfg, B, Vec<Feed>)> = vec![];
    let mut texts = vec![];
    for i in 0..n {
        let mut c = if t.chance(1, 4) { Case { doc: Doc { text: outer.doc.text.clone(), ..Doc::default() }, cfg: outer.cfg.clone(), data: outer.data.clone(), feeds: outer.feeds.clone(), glitch: 0, enc: Enc::Utf8 } } else { gen_case(t, &P) };
        c.cfg.acts.retain(|a| !matches!(a.1, Act::Inner(_) | Act::Early(_)));
        if t.chance(1, 3) {
            c.doc.text = RICH.into();
            c.data = RICH.into();
            c.cfg.enc = None;
            c.cfg.acts.clear();
            c.feeds = vec![Feed { n: RICH.len(), fin: true, how: 0, slack: 0 }];
        }
        // deeper ones have higher numbers
        if i + 1 < n && t.chance(1, 2) {
            c.cfg.acts.push((t.size(20), if t.chance(1, 2) { Act::Early(i + 1) } else { Act::Inner(i + 1) }));
        }
        texts.push(desc_case(&c.cfg, &c.doc.text, &c.feeds));
        cases.push((c.cfg, c.data, c.feeds));
    }
    let plain = outer.cfg.clone();
    for i in 0..n {
        for _ in 0..t.range(1, 2) {
            outer.cfg.acts.push((t.size(40), if t.chance(1, 2) { Act::Early(i) } else { Act::Inner(i) }));
        }
    }
    // at every event
    if t.chance(1, 3) {
        let i = t.size(n - 1);
        for k in 0..48 {
            outer.cfg.acts.push((k, Act::Early(i)));
        }
    }
    // (some of them before the others)
    if t.chance(1, 2) {
        let k = plain.acts.len();
        outer.cfg.acts.rotate_left(k);
    }
    out.hash = fnv(&outer.data) ^ fnv(format!("{:?}", texts).as_bytes());
    if env.describe {
        out.desc = desc_case(&outer.cfg, &outer.doc.text, &outer.feeds);
        for x in &texts {
            out.desc += &format!("\n-- inner: {}", x);
        }
        predesc(env, &out.desc);
    }
    unsafe {
        INNER = vec![];
        INNER_RES = vec![];
    }
    let mut plain = plain;
    plain.acts.retain(|a| !matches!(a.1, Act::Inner(_) | Act::Early(_)));
    let alone = run(l, &plain, &outer.data, &outer.feeds);
    let solo: Vec<Trace> = cases
        .iter()
        .map(|c| {
            let mut cfg = c.0.clone();
            cfg.acts.retain(|a| !matches!(a.1, Act::Inner(_) | Act::Early(_)));
            run(l, &cfg, &c.1, &c.2)
        })
        .collect();
    unsafe { INNER = cases };
    let with = run(l, &outer.cfg, &outer.data, &outer.feeds);
    let res = unsafe {
        INNER = vec![];
        std::mem::take(&mut *(&raw mut INNER_RES))
    };
    if alone.overflow || with.overflow || solo.iter().any(|s| s.overflow) {
        out.discard = true;
        return out;
    }
    out.nontrivial = !res.is_empty() && with.recs.len() > 3;
    if res.len() > 2 {
        out.labels.push("more than two inner parses");
    }
    if let Some(d) = bad(&with) {
        return out.fail(d);
    }
    let cmp = |a: &Trace, b: &Trace| diff_recs(&a.recs, "nested", &b.recs, "alone").or_else(|| if (a.status, a.err, a.end) != (b.status, b.err, b.end) { Some(format!("nested: status {} error {} {:?}, alone: status {} error {} {:?}", a.status, a.err, a.end, b.status, b.err, b.end)) } else { None });
    if let Some(d) = cmp(&with, &alone) {
        return out.fail(format!("the outer parser: {}", d));
    }
    for (i, r) in &res {
        if let Some(d) = bad(r) {
            return out.fail(d);
        }
        if let Some(d) = cmp(r, &solo[*i]) {
            return out.fail(format!("inner parser {}: {}", i, d));
        }
    }
    out
}

// ---- threads: nothing of the other driver is used, it is for one thread ----
pub struct TR {
    pub l: *const Lib,
    pub out: Vec<u8>,
    pub stack: Vec<super::super::ffi::P>,
    pub ents: Vec<(String, B)>,
}
impl TR {
    pub fn put(&mut self, k: u8, p: &[&[u8]]) {
        self.out.push(k);
        for x in p {
            self.out.extend_from_slice(x);
            self.out.push(b'|');
        }
        self.out.push(b'\n');
    }
}
pub unsafe fn tr<'a>(a: *mut c_void) -> (&'a mut TR, &'a Lib) {
    let r = &mut *(a as *mut TR);
    (r, &*(*(a as *mut TR)).l)
}
pub unsafe extern "C" fn t_start(a: *mut c_void, n: S, at: *mut S) {
    let (r, l) = tr(a);
    let mut v = vec![l.z(n)];
    let mut i = 0;
    while !(*at.add(i)).is_null() {
        v.push(l.z(*at.add(i)));
        i += 1;
    }
    let p = *r.stack.last().unwrap();
    v.push(format!("{} {}", (l.GetCurrentLineNumber)(p), (l.GetCurrentColumnNumber)(p)).into_bytes());
    let s: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    r.put(b'S', &s);
}
pub unsafe extern "C" fn t_end(a: *mut c_void, n: S) {
    let (r, l) = tr(a);
    r.put(b'E', &[&l.z(n)]);
}
pub unsafe extern "C" fn t_text(a: *mut c_void, p: S, n: c_int) {
    let (r, l) = tr(a);
    r.put(b'T', &[&l.chars(p, n as usize)]);
}
pub unsafe extern "C" fn t_two(a: *mut c_void, n: S, m: S) {
    let (r, l) = tr(a);
    r.put(b'2', &[&l.oz(n).unwrap_or_default(), &l.oz(m).unwrap_or_default()]);
}
pub unsafe extern "C" fn t_one(a: *mut c_void, n: S) {
    let (r, l) = tr(a);
    r.put(b'1', &[&l.oz(n).unwrap_or_default()]);
}
pub unsafe extern "C" fn t_att(a: *mut c_void, e: S, n: S, ty: S, d: S, req: c_int) {
    let (r, l) = tr(a);
    r.put(b'A', &[&l.z(e), &l.z(n), &l.z(ty), &l.oz(d).unwrap_or_default(), &[48 + req as u8]]);
}
pub unsafe extern "C" fn t_ent(a: *mut c_void, n: S, pe: c_int, v: S, len: c_int, _: S, sys: S, _: S, _: S) {
    let (r, l) = tr(a);
    let v = if v.is_null() { vec![] } else { l.chars(v, len as usize) };
    r.put(b'N', &[&l.z(n), &v, &l.oz(sys).unwrap_or_default(), &[48 + pe as u8]]);
}
pub unsafe extern "C" fn t_ext(a: P, c: S, _: S, sys: S, _: S) -> c_int {
    let (r, l) = tr(a);
    let sys = l.oz(sys).unwrap_or_default();
    let data = match r.ents.iter().find(|e| e.0.as_bytes() == &sys[..]) {
        Some(e) if r.stack.len() < 6 => e.1.clone(),
        _ => return 1,
    };
    let p = (l.ExternalEntityParserCreate)(*r.stack.last().unwrap(), c, null());
    if p.is_null() {
        return 0;
    }
    r.stack.push(p);
    let s = (l.Parse)(p, data.as_ptr() as *const c_char, data.len() as c_int, 1);
    r.stack.pop();
    (l.ParserFree)(p);
    s as c_int
}
fn t_run(l: &Lib, c: &Case) -> Vec<u8> {
    unsafe {
        let z = c.cfg.ns;
        let p = match z {
            Some(s) => (l.ParserCreateNS)(null(), s as u32 as _),
            None => (l.ParserCreate)(null()),
        };
        let mut r = Box::new(TR { l, out: vec![], stack: vec![p], ents: c.cfg.ents.iter().map(|e| (e.sys.clone(), e.data.clone())).collect() });
        let a = &mut *r as *mut TR as *mut c_void;
        (l.SetUserData)(p, a);
        (l.SetExternalEntityRefHandlerArg)(p, a as *mut c_void);
        (l.SetParamEntityParsing)(p, c.cfg.pe as _);
        (l.SetReturnNSTriplet)(p, c.cfg.triplets as c_int);
        (l.SetHashSalt)(p, 5);
        (l.SetElementHandler)(p, t_start as *mut c_void, t_end as *mut c_void);
        (l.SetCharacterDataHandler)(p, t_text as *mut c_void);
        (l.SetProcessingInstructionHandler)(p, t_two as *mut c_void);
        (l.SetCommentHandler)(p, t_one as *mut c_void);
        (l.SetNamespaceDeclHandler)(p, t_two as *mut c_void, t_one as *mut c_void);
        (l.SetAttlistDeclHandler)(p, t_att as *mut c_void);
        (l.SetEntityDeclHandler)(p, t_ent as *mut c_void);
        (l.SetExternalEntityRefHandler)(p, t_ext as *mut c_void);
        let mut at = 0;
        let mut st = 1;
        for f in &c.feeds {
            let n = f.n.min(c.data.len() - at);
            st = (l.Parse)(p, c.data[at..].as_ptr() as *const c_char, n as c_int, f.fin as c_int);
            at += n;
            if st != 1 {
                break;
            }
        }
        let e = (l.GetErrorCode)(p);
        let m = l.oz((l.ErrorString)(e) as S);
        let end = format!("{} {} {} {:?} {}", st, e, (l.GetCurrentByteIndex)(p), m, (l.GetFeatureList)() as usize != 0);
        (l.ParserFree)(p);
        r.out.extend(end.bytes());
        r.out
    }
}
fn threads(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let n = t.range(2, 4);
    let same = t.chance(1, 4);
    let mut work: Vec<Vec<Case>> = vec![];
    for i in 0..n {
        if same && i > 0 {
            break;
        }
        let k = t.range(1, 2);
        work.push((0..k).map(|_| gen_case(t, &Prof { glitch: &[0, 30], depth: 4, feeds: true, encs: true, reference: false, ..PROF })).collect());
    }
    out.hash = fnv(format!("{:?}", work.iter().flatten().map(|c| (&c.data, c.feeds.len())).collect::<Vec<_>>()).as_bytes()) + n as u64;
    if env.describe {
        for (i, w) in work.iter().enumerate() {
            for c in w {
                out.desc += &format!("-- thread {} of {}: {}\n", i, n, desc_case(&c.cfg, &c.doc.text, &c.feeds));
            }
        }
        predesc(env, &out.desc);
    }
    let l = env.rx();
    let _g = Ph::enter(l);
    let alone: Vec<Vec<Vec<u8>>> = work.iter().map(|w| w.iter().map(|c| t_run(l, c)).collect()).collect();
    struct W<'a>(&'a Lib, &'a Vec<Case>, &'a Vec<Vec<u8>>, &'a std::sync::Barrier);
    unsafe impl<'a> Send for W<'a> {}
    unsafe impl<'a> Sync for W<'a> {}
    fn go(w: W) -> Option<String> {
        w.3.wait();
        for _ in 0..6 {
            for (c, want) in w.1.iter().zip(w.2) {
                let got = t_run(w.0, c);
                if &got != want {
                    let i = got.iter().zip(want.iter()).take_while(|x| x.0 == x.1).count();
                    let cut = |v: &Vec<u8>| show(&v[i.saturating_sub(30)..(i + 60).min(v.len())]);
                    return Some(format!("in a thread of its own: {:?}, alone: {:?}", cut(&got), cut(want)));
                }
            }
        }
        None
    }
    let bar = std::sync::Barrier::new(n);
    let res: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let w = W(l, &work[i % work.len()], &alone[i % work.len()], &bar);
                s.spawn(move || {
                    let w = w;
                    go(w)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    drop(_g);
    out.nontrivial = alone.iter().flatten().all(|a| a.len() > 20);
    if let Some(f) = res.into_iter().flatten().next() {
        return out.fail(f);
    }
    out
}
pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "alternating: two parsers each report more than three events; nested: at least one inner parse; threads: every document reports something",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "alternating", kind: Kind::Random { words: 700, quick: 60000, thorough: 4000000 }, f: alternating },
            Sub { name: "nested", kind: Kind::Random { words: 700, quick: 40000, thorough: 3000000 }, f: nested },
            Sub { name: "threads", kind: Kind::Random { words: 700, quick: 4000, thorough: 200000 }, f: threads },
        ],
    }
}
