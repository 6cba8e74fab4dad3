//! Resetting a parser.
use super::common::*;
use super::*;

fn unk_of(t: &mut Tape) -> Unk {
    Unk {
        map: (0..256).map(|i| if i < 0x80 { i } else { -1 }).collect(),
        convert: false,
        ret: !t.chance(1, 6) as i32,
        release: t.chance(2, 3),
        only: None,
    }
}
pub struct Stage {
    pub cfg: Cfg,
    pub data: B,
    pub feeds: Vec<Feed>,
    pub text: String,
    /// nothing is fed at all
    pub idle: bool,
}
/// Something the parser went through before.
pub fn stage(t: &mut Tape, cut: bool) -> Stage {
    let (mut cfg, data, feeds, text);
    if t.chance(1, 2) {
        let c = gen_case(t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: true, depth: 3, defaults: 3, dc: true, ext_modes: true, stops: true, aborts: true, misc_acts: true, base: true, ret0: true, hopt: H_NOTSA | H_UNKENC, reference: false, pos: true, ..PROF });
        cfg = c.cfg;
        data = c.data;
        feeds = c.feeds;
        text = c.doc.text;
    } else {
        let ns = t.chance(1, 2);
        let long = t.chance(1, 10);
        let d = Gen::new(t, MOpts { ns, long, depth: 3, items: 5, ..MOPTS }).document();
        let c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
        cfg = c.cfg;
        data = c.data;
        feeds = c.feeds;
        text = c.d.text;
        cfg.pos = true;
    }
    let mut s = Stage { cfg, data, feeds, text, idle: false };
    if t.chance(1, 5) && s.text.is_ascii() && s.data.len() == s.text.len() {
        s.cfg.enc = Some("x-some".into());
        s.cfg.h |= H_UNKENC;
        s.cfg.unk = Some(unk_of(t));
    }
    if cut {
        for e in s.cfg.ents.iter_mut() {
            if t.chance(1, 6) {
                e.mode = [3, 4][t.below(2)];
            }
        }
        s.cfg.leave = t.chance(1, 2);
        s.cfg.misuse = t.chance(1, 6);
        if t.chance(1, 3) {
            let k = t.below(s.feeds.len() + 1);
            s.feeds.truncate(k);
            if k == 0 {
                s.idle = true;
            }
        } else if t.chance(1, 3) {
            let n = t.below(s.data.len() + 1);
            s.data.truncate(n);
        }
    }
    s
}
pub fn reset(l: &Lib, p: P, enc: &Option<String>) -> u8 {
    let z = enc.as_ref().map(|e| l.zstr(e));
    let _g = Ph::enter(l);
    unsafe { (l.ParserReset)(p, z.as_ref().map_or(std::ptr::null(), |z| z.as_ptr() as S)) }
}
pub fn desc(s: &Stage) -> String {
    desc_case(&s.cfg, &s.text, &s.feeds) + &format!("\n data {} bytes idle={} leave={} misuse={}", s.data.len(), s.idle, s.cfg.leave, s.cfg.misuse)
}
/// Earlier documents, a reset, and a document: the same as with a new parser.
fn fresh(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut last = stage(t, false);
    let n = t.range(1, 4);
    let mut st: Vec<Stage> = (0..n).map(|_| stage(t, true)).collect();
    // a new document often resembles the one before
    if t.chance(1, 3) {
        let i = st.len() - 1;
        last.data = st[i].data.clone();
        last.text = st[i].text.clone();
        last.cfg = st[i].cfg.clone();
        last.feeds = one_feed();
        last.cfg.leave = false;
        last.cfg.misuse = false;
        last.cfg.acts.clear();
    }
    let (ns, mm) = (last.cfg.ns, last.cfg.mm);
    for s in st.iter_mut() {
        s.cfg.ns = ns;
        s.cfg.mm = mm;
        out.hash ^= fnv(&s.data).rotate_left(7) ^ fnv(format!("{:?}{:x}", s.feeds, s.cfg.h).as_bytes());
    }
    out.hash ^= fnv(&last.data);
    if env.describe {
        out.desc = st.iter().map(desc).collect::<Vec<_>>().join("\nRESET\n") + "\nRESET\n" + &desc(&last);
        predesc(env, &out.desc);
    }
    let l = env.rx();
    unsafe {
        HANDED = 0;
        RELEASED = 0;
    }
    let want = run(l, &last.cfg, &last.data, &last.feeds);
    if want.overflow {
        out.discard = true;
        return out;
    }
    let p = create(l, &st[0].cfg);
    let mut seen = 0;
    let mut fail = None;
    for (i, s) in st.iter().enumerate() {
        let tr = run_on(l, &s.cfg, p, &s.data, if s.idle { &[] } else { &s.feeds[..] }, true, false);
        seen += tr.recs.len();
        if let Some(d) = bad(&tr) {
            fail = Some(format!("in document {}: {}", i, d));
        }
        let enc = if i + 1 < st.len() { &st[i + 1].cfg.enc } else { &last.cfg.enc };
        let r = reset(l, p, enc);
        if r != 1 {
            fail = Some(format!("XML_ParserReset returned {}", r));
        }
        {
            let _g = Ph::enter(l);
            unsafe {
                let nt = if i + 1 < st.len() { st[i + 1].cfg.triplets } else { last.cfg.triplets };
                (l.SetReturnNSTriplet)(p, nt as _);
                (l.SetUnknownEncodingHandler)(p, std::ptr::null_mut(), std::ptr::null_mut());
            }
        }
    }
    // an encoding in use may have been released by the reset
    let got = run_on(l, &last.cfg, p, &last.data, &last.feeds, true, true);
    out.nontrivial = seen > 3 && want.recs.len() > 2;
    if let Some(d) = fail {
        return out.fail(d);
    }
    if let Some(d) = diff_recs(&got.recs, "after the reset", &want.recs, "new parser") {
        return out.fail(d);
    }
    if (got.status, got.err, got.end) != (want.status, want.err, want.end) || got.ops != want.ops {
        return out.fail(format!("after the reset: status {} error {} at {:?} | new parser: status {} error {} at {:?}", got.status, got.err, got.end, want.status, want.err, want.end));
    }
    if let Some(d) = bad(&got) {
        return out.fail(d);
    }
    let (h, r) = unsafe { (HANDED, RELEASED) };
    if h != r {
        return out.fail(format!("encoding release called {} times for {} encodings", r, h));
    }
    out
}
/// What survives a reset, and that nothing else does.
fn survive(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut last = stage(t, false);
    let s = stage(t, true);
    let triplets = t.chance(1, 2);
    let unk = t.chance(1, 2);
    out.hash = fnv(&s.data) ^ fnv(&last.data).rotate_left(9);
    if env.describe {
        out.desc = format!("{}\nRESET (triplets {} unk {})\n{}", desc(&s), triplets, unk, desc(&last));
        predesc(env, &out.desc);
    }
    let l = env.rx();
    let mut cfg = s.cfg.clone();
    cfg.triplets = triplets;
    cfg.acts.retain(|a| !matches!(a.1, Act::Triplets(_) | Act::Handlers(..)));
    if unk {
        cfg.h |= H_UNKENC;
        cfg.unk = Some(unk_of(t));
    } else {
        cfg.h &= !H_UNKENC;
    }
    last.cfg.ns = cfg.ns;
    last.cfg.mm = cfg.mm;
    let p = create(l, &cfg);
    let tr = run_on(l, &cfg, p, &s.data, if s.idle { &[] } else { &s.feeds[..] }, true, false);
    out.nontrivial = tr.recs.len() > 2;
    let r = reset(l, p, &None);
    if r != 1 {
        return out.fail(format!("XML_ParserReset returned {}", r));
    }
    // the state of a new parser
    let q = create(l, &cfg);
    let state = |p: P| {
        let _g = Ph::enter(l);
        unsafe {
            let mut st = ParsingStatus::default();
            (l.GetParsingStatus)(p, &mut st);
            let ctx = (l.GetInputContext)(p, std::ptr::null_mut(), std::ptr::null_mut());
            let base = (l.GetBase)(p);
            format!(
                "status {} error {} line {} column {} index {} count {} base {} context {}",
                st.parsing,
                (l.GetErrorCode)(p),
                (l.GetCurrentLineNumber)(p),
                (l.GetCurrentColumnNumber)(p),
                (l.GetCurrentByteIndex)(p),
                (l.GetCurrentByteCount)(p),
                base.is_null(),
                ctx.is_null()
            )
        }
    };
    let (sp, sq) = (state(p), state(q));
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(q) };
    }
    if sp != sq {
        return out.fail(format!("after a reset: {} | new parser: {}", sp, sq));
    }
    // resuming is refused
    let (r, e) = {
        let _g = Ph::enter(l);
        unsafe { ((l.ResumeParser)(p), (l.GetErrorCode)(p)) }
    };
    if (r, e) != (0, 34) {
        return out.fail(format!("XML_ResumeParser after a reset returned {} with error {}", r, e));
    }
    if t.chance(1, 2) {
        // no handler is left: nothing happens but the outcome is that of a new parser
        let mut c = last.cfg.clone();
        c.h = 0;
        c.unk = None;
        c.pe = 0;
        c.foreign = false;
        c.parser_arg = false;
        c.base = None;
        c.acts.clear();
        c.enc = None;
        let want = run(l, &c, &last.data, &last.feeds);
        let got = run_on(l, &c, p, &last.data, &last.feeds, false, true);
        let calls: Vec<&Rec> = got.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_) | Ev::UnkEnc(_))).collect();
        if !calls.is_empty() {
            return out.fail(format!("a handler set before the reset was called: {}", fmt_rec(calls[0])));
        }
        let asked = got.recs.iter().any(|r| matches!(r.ev, Ev::UnkEnc(_)));
        if asked && !unk {
            return out.fail("the unknown-encoding handler was called without having been set".into());
        }
        if want.err == 18 && unk && !asked {
            return out.fail("the unknown-encoding handler did not survive the reset".into());
        }
        if !asked && (got.status, got.err, got.end) != (want.status, want.err, want.end) {
            return out.fail(format!("after the reset: status {} error {} at {:?} | new parser: status {} error {} at {:?}", got.status, got.err, got.end, want.status, want.err, want.end));
        }
        return match bad(&got).filter(|_| !asked) {
            Some(d) => out.fail(d),
            None => out,
        };
    }
    // ns triplets survive
    let mut c = last.cfg.clone();
    c.acts.clear();
    c.unk = None;
    c.enc = None;
    c.h &= !H_UNKENC;
    c.triplets = triplets;
    let want = run(l, &c, &last.data, &last.feeds);
    {
        let _g = Ph::enter(l);
        unsafe { (l.SetUnknownEncodingHandler)(p, std::ptr::null_mut(), std::ptr::null_mut()) };
    }
    c.triplets = false; // not set again
    let got = run_on(l, &c, p, &last.data, &last.feeds, true, true);
    if want.overflow {
        out.discard = true;
        return out;
    }
    if let Some(d) = diff_recs(&got.recs, "after the reset", &want.recs, "new parser") {
        return out.fail(d);
    }
    if (got.status, got.err, got.end) != (want.status, want.err, want.end) {
        return out.fail(format!("after the reset: status {} error {} at {:?} | new parser: status {} error {} at {:?}", got.status, got.err, got.end, want.status, want.err, want.end));
    }
    match bad(&got) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a case counts when there were events before the reset, and in the document parsed after it",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "fresh", kind: Kind::Random { words: 700, quick: 40000, thorough: 1500000 }, f: fresh },
            Sub { name: "survive", kind: Kind::Random { words: 550, quick: 30000, thorough: 1000000 }, f: survive },
        ],
    }
}
