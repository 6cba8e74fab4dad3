//! Running out of memory.
use super::common::*;
use super::*;

pub struct In {
    pub cfg: Cfg,
    pub data: B,
    pub feeds: Vec<Feed>,
    pub text: String,
}
fn input(t: &mut Tape) -> In {
    let mut s = if t.chance(1, 2) {
        let big = t.chance(1, 10);
        let c = gen_case(t, &Prof { glitch: &[0, 0, 25], feeds: true, encs: true, depth: 3, defaults: 4, ext_modes: true, base: true, hopt: H_NOTSA | H_UNKENC, reference: false, big, ..PROF });
        In { cfg: c.cfg, data: c.data, feeds: c.feeds, text: c.doc.text }
    } else {
        let ns = t.chance(1, 2);
        let long = t.chance(1, 6);
        let d = Gen::new(t, MOpts { ns, long, depth: 3, items: 4, ..MOPTS }).document();
        let c = vary_model(t, d, Vary { feeds: true, encs: true, mask: true });
        In { cfg: c.cfg, data: c.data, feeds: c.feeds, text: c.d.text }
    };
    if t.chance(1, 8) && s.text.is_ascii() && s.data.len() == s.text.len() {
        s.cfg.enc = Some("x-some".into());
        s.cfg.h |= H_UNKENC;
        s.cfg.unk = Some(Unk { map: (0..256).map(|i| if i < 0x80 { i } else { -1 }).collect(), convert: false, ret: 1, release: t.chance(1, 2), only: None });
    }
    if s.feeds.len() > 30 {
        s.feeds = one_feed();
    }
    s
}
fn events(t: &Trace) -> Vec<Rec> {
    let mut r = merged(t);
    r.retain(|x| !matches!(x.ev, Ev::Api(_)));
    r
}
fn one(env: &Env, sh: &Shim, s: &In, base: &[Rec], b: &Trace, k: usize, all: bool, live: bool) -> Option<String> {
    let l = env.rx();
    unsafe {
        HANDED = 0;
        RELEASED = 0;
    }
    sh.reset(live);
    sh.fail(k, all);
    let p = create(l, &s.cfg);
    if p.is_null() {
        let (n, bytes) = sh.live();
        sh.off();
        if live && n != 0 {
            return Some(format!("{} blocks ({} bytes) not released after creating a parser failed", n, bytes));
        }
        return None;
    }
    let a = run_on(l, &s.cfg, p, &s.data, &s.feeds, true, false);
    let refused = sh.refused();
    sh.fail(0, false);
    let mut fail = None;
    let mut ev = events(&a);
    if a.status == 0 && (a.err, a.status) != (b.err, b.status) {
        // the namespaces of a tag that is not reported are taken back
        while matches!(ev.last(), Some(Rec { ev: Ev::NsEnd(_), .. })) {
            ev.pop();
        }
        // an entity is declared even if an external entity in its value could not be read
        if a.err == 21 && matches!(ev.last(), Some(Rec { ev: Ev::Entity { value: Some(_), .. }, .. })) {
            ev.pop();
        }
    }
    let conf = a.bad.iter().any(|x| x.starts_with("SetBase"));
    if conf {
        // the base is a documented result of its own; the rest of the parse goes on without it
    } else if refused == 0 && (a.status, a.err) != (b.status, b.err) {
        fail = Some(format!("no allocation was refused, but the outcome differs: error {} instead of {}", a.err, b.err));
    } else {
        let done = (a.status, a.err) == (b.status, b.err);
        let mut h = base.to_vec();
        if !(done && ev.len() == base.len()) {
            h.truncate(ev.len());
            if let (Some(Rec { ev: Ev::Text(x), .. }), Some(Rec { ev: Ev::Text(y), .. })) = (ev.last(), h.last_mut()) {
                y.truncate(x.len());
            }
            if let (Some(Rec { ev: Ev::Default(x), .. }), Some(Rec { ev: Ev::Default(y), .. })) = (ev.last(), h.last_mut()) {
                y.truncate(x.len());
            }
        }
        if let Some(d) = diff_recs(&ev, "out of memory", &h, "with enough memory") {
            fail = Some(d);
        } else if a.status != 0 && (ev.len() != base.len() || !done) {
            fail = Some(format!("parsing succeeded with {} of {} events", ev.len(), base.len()));
        } else if a.status == 0 && ![1, 21].contains(&a.err) && !(done && ev.len() == base.len()) {
            fail = Some(format!("error {} is reported, not that memory has run out", a.err));
        } else if a.status == 0 && a.err == 21 && b.err != 21 && !a.recs.iter().any(|r| matches!(&r.ev, Ev::Api(_)) || r.level > 0 || matches!(r.ev, Ev::ExtRef { .. })) {
            fail = Some("external entity handling failed without an external entity".into());
        } else if let Some(x) = a.bad.iter().find(|x| !x.contains("encoding release")) {
            fail = Some(x.clone());
        }
    }
    // the parser can be queried, reset, and used again
    let again = k % 3 == 0;
    if fail.is_none() && again {
        let (r, rf) = {
            let z = s.cfg.enc.as_ref().map(|e| l.zstr(e));
            let _g = Ph::enter(l);
            unsafe {
                ((l.ParserReset)(p, z.as_ref().map_or(std::ptr::null(), |z| z.as_ptr() as S)), (l.SetReturnNSTriplet)(p, s.cfg.triplets as _))
            }
        };
        let _ = rf;
        if r != 1 {
            fail = Some(format!("XML_ParserReset returned {}", r));
        } else {
            let a = run_on(l, &s.cfg, p, &s.data, &s.feeds, true, false);
            if let Some(d) = diff_recs(&events(&a), "after running out of memory and a reset", base, "new parser") {
                fail = Some(d);
            } else if (a.status, a.err) != (b.status, b.err) {
                fail = Some(format!("after running out of memory and a reset: error {} instead of {}", a.err, b.err));
            }
        }
    }
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
    }
    let (n, bytes) = sh.live();
    sh.off();
    if fail.is_none() && live && n != 0 {
        fail = Some(format!("{} blocks ({} bytes) not released", n, bytes));
    }
    let (h, r) = unsafe { (HANDED, RELEASED) };
    if fail.is_none() && h != r {
        fail = Some(format!("encoding release called {} times for {} encodings", r, h));
    }
    fail.map(|f| format!("request {} {}refused: {}", k, if all { "and all later ones " } else { "" }, f))
}
fn each_of(env: &Env, t: &mut Tape, all: bool, input: fn(&mut Tape) -> In) -> Out {
    let mut out = Out::new();
    let s = input(t);
    out.hash = fnv(&s.data) ^ fnv(format!("{:?}{:x}", s.feeds, s.cfg.h).as_bytes());
    if env.describe {
        out.desc = desc_case(&s.cfg, &s.text, &s.feeds);
        predesc(env, &out.desc);
    }
    let sh = Shim::get();
    let l = env.rx();
    let b = run(l, &s.cfg, &s.data, &s.feeds);
    if b.overflow {
        out.discard = true;
        return out;
    }
    sh.reset(false);
    let b2 = run(l, &s.cfg, &s.data, &s.feeds);
    let n = sh.count();
    sh.off();
    if b2.recs != b.recs {
        return out.fail("two runs differ".into());
    }
    let base = events(&b);
    out.nontrivial = n > 20;
    // every request if there are few, otherwise some of them
    let lim = if env.thorough { 400 } else { 60 };
    let ks: Vec<usize> = if n <= lim {
        (1..=n).collect()
    } else {
        let mut v: Vec<usize> = (0..lim).map(|_| t.below(n) + 1).collect();
        v.sort();
        v.dedup();
        v
    };
    for k in ks {
        if let Some(d) = one(env, &sh, &s, &base, &b, k, all, true) {
            return out.fail(d);
        }
    }
    out
}
fn single(env: &Env, t: &mut Tape) -> Out {
    each_of(env, t, false, input)
}
fn lasting(env: &Env, t: &mut Tape) -> Out {
    each_of(env, t, true, input)
}

/// Counts and lengths at which something grows.
fn grown(t: &mut Tape) -> In {
    let b = c21::gen_big(t, 2500, 70, 4000);
    let feeds = if t.chance(1, 2) { one_feed() } else { big_feeds(t, b.text.len()) };
    let feeds = if feeds.len() > 12 { one_feed() } else { feeds };
    In { cfg: b.cfg, data: b.text.clone().into_bytes(), feeds, text: b.text }
}
fn growth(env: &Env, t: &mut Tape) -> Out {
    let all = t.chance(1, 3);
    each_of(env, t, all, grown)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is one document whose parse is repeated with each of its allocations failing (a sample of 60 of them when there are more); it counts when the parse makes more than 20 allocations",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "single", kind: Kind::Random { words: 450, quick: 3000, thorough: 60000 }, f: single },
            Sub { name: "lasting", kind: Kind::Random { words: 450, quick: 3000, thorough: 60000 }, f: lasting },
            Sub { name: "growth", kind: Kind::Random { words: 60, quick: 5000, thorough: 100000 }, f: growth },
        ],
    }
}
