//! Suspending, resuming, stopping.
use super::common::*;
use super::*;

fn posrecs(t: &Trace) -> Vec<Rec> {
    let mut v = t.recs.clone();
    // notes about the calls that stopped the parser
    v.retain(|r| !matches!(&r.ev, Ev::Api(s) if s.starts_with("stop")));
    merge_recs(v)
}
fn same_as(a: &Trace, an: &str, b: &Trace) -> Option<String> {
    if let Some(d) = diff_recs(&posrecs(a), an, &posrecs(b), "uninterrupted") {
        return Some(d);
    }
    if (a.status, a.err) != (b.status, b.err) {
        return Some(format!("{}: status {} error {} at {:?} | uninterrupted: status {} error {} at {:?}", an, a.status, a.err, a.end, b.status, b.err, b.end));
    }
    // (the position after the end of a document that was accepted is that of its last token, or of its end)
    if a.err != 0 && a.end.map(|p| (p.idx, p.line, p.col)) != b.end.map(|p| (p.idx, p.line, p.col)) {
        return Some(format!("{}: final position {:?} | uninterrupted: {:?}", an, a.end, b.end));
    }
    bad(a)
}
fn input(t: &mut Tape, glitchy: bool, pes: bool) -> (Cfg, B, Vec<Feed>, String) {
    let (mut cfg, data, feeds, text) = if glitchy {
        let c = gen_case(t, &Prof { glitch: if pes { &[200] } else { &[0, 25, 60] }, feeds: true, encs: true, depth: 3, defaults: 3, dc: true, ext_modes: true, reference: false, pes, ..PROF });
        (c.cfg, c.data, c.feeds, c.doc.text)
    } else {
        let ns = t.chance(1, 2);
        let long = t.chance(1, 8);
        let d = Gen::new(t, MOpts { ns, long, depth: 3, items: 5, ..MOPTS }).document();
        let mut c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
        if t.chance(1, 4) {
            c.cfg.h |= [H_DEFAULT, H_DEFEXPAND][t.below(2)];
        }
        (c.cfg, c.data, c.feeds, c.d.text)
    };
    cfg.pos = true;
    // text declarations in entities, also where there has been one
    for e in cfg.ents.iter_mut() {
        if glitchy && t.chance(1, 4) && !e.data.starts_with(b"\xef") && !e.data.iter().take(2).any(|b| *b == 0 || *b > 0xfd) {
            for _ in 0..t.range(1, 3) {
                let d: &[u8] = [&b"<?xml encoding='utf-8'?>"[..], b"<?xml version='1.0' encoding='UTF-8'?>", b"<?xml version='1.0'?>"][t.below(3)];
                e.data.splice(0..0, d.iter().copied());
            }
            e.feeds = one_feed();
            cfg.h |= H_XMLDECL;
        }
    }
    if t.chance(1, 4) {
        cfg.h &= t.u32();
        cfg.h |= H_EXT;
    }
    (cfg, data, feeds, text)
}
/// Suspended at every event, and at single events.
fn everywhere_of(env: &Env, t: &mut Tape, glitchy: bool, pes: bool) -> Out {
    let mut out = Out::new();
    let (mut cfg, data, feeds, text) = input(t, glitchy, pes);
    out.hash = fnv(&data) ^ fnv(format!("{:?}{:x}", feeds, cfg.h).as_bytes());
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let b = run(env.rx(), &cfg, &data, &feeds);
    let n = b.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_))).count();
    if b.overflow || n > 1500 {
        out.discard = true;
        return out;
    }
    out.nontrivial = n > 2;
    out.labels.push(if b.err == 0 { "accepted" } else { "rejected" });
    if b.recs.iter().any(|r| r.level > 0) {
        out.labels.push("events in external entities");
    }
    let k = t.below(n + 1);
    let random: Vec<usize> = (0..n * 2).filter(|_| t.chance(1, 3)).collect();
    let sets: Vec<Vec<usize>> = vec![(0..n * 2).collect(), random, vec![k], vec![k + 1], vec![t.below(n + 1)]];
    for s in sets {
        cfg.acts = s.iter().map(|i| (*i, Act::Stop(true))).collect();
        cfg.misuse = t.chance(1, 2);
        let a = run(env.rx(), &cfg, &data, &feeds);
        let an = if s.len() > 1 { format!("suspended at {} events", s.len()) } else { format!("suspended at event {:?}", s) };
        if let Some(d) = same_as(&a, &an, &b) {
            return out.fail(d);
        }
        // every request that was granted led to a suspended call
        let granted = a.recs.iter().filter(|r| r.level == 0 && matches!(&r.ev, Ev::Api(s) if s.starts_with("stop(true) -> 1"))).count();
        let seen = a.ops.iter().filter(|o| o.status == 2).count();
        if granted != seen && !(a.status == 0 && granted == seen + 1) {
            return out.fail(format!("{}: {} requests were granted, {} calls reported suspension", an, granted, seen));
        }
    }
    out
}
fn everywhere(env: &Env, t: &mut Tape) -> Out {
    everywhere_of(env, t, false, false)
}
fn everywherex(env: &Env, t: &mut Tape) -> Out {
    everywhere_of(env, t, true, false)
}
/// The same where most happens in the document type declaration.
fn everywherep(env: &Env, t: &mut Tape) -> Out {
    everywhere_of(env, t, true, true)
}
/// Stopped for good at some event.
fn abort(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let glitchy = t.chance(1, 3);
    let (mut cfg, data, feeds, text) = input(t, glitchy, false);
    out.hash = fnv(&data) ^ fnv(format!("{:?}{:x}", feeds, cfg.h).as_bytes());
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let b = run(env.rx(), &cfg, &data, &feeds);
    let full = posrecs(&b);
    let n = b.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_))).count();
    if b.overflow || n == 0 {
        out.discard = true;
        return out;
    }
    out.nontrivial = n > 2;
    for _ in 0..4 {
        let k = t.below(n);
        let first = t.chance(1, 3);
        cfg.acts = vec![(k, Act::Stop(false))];
        if first {
            cfg.acts.insert(0, (k, Act::Stop(true)));
        }
        cfg.misuse = t.chance(1, 2);
        let a = run(env.rx(), &cfg, &data, &feeds);
        // events up to the one at which the parser was stopped
        let at = match a.recs.iter().position(|r| matches!(&r.ev, Ev::Api(s) if s.starts_with("stop(false) -> 1"))) {
            Some(i) => i,
            None => return out.fail(format!("stopping at event {} was refused", k)),
        };
        let mut head = a.clone();
        head.recs.truncate(at);
        let mut h = posrecs(&head);
        let mut f = full.clone();
        f.truncate(h.len());
        // text may continue after the stop
        if let (Some(Rec { ev: Ev::Text(x), .. }), Some(Rec { ev: Ev::Text(y), .. })) = (h.last_mut(), f.last_mut()) {
            y.truncate(x.len());
        }
        if let (Some(Rec { ev: Ev::Default(x), .. }), Some(Rec { ev: Ev::Default(y), .. })) = (h.last_mut(), f.last_mut()) {
            y.truncate(x.len());
        }
        if let Some(d) = diff_recs(&h, "before the stop", &f, "without it") {
            return out.fail(format!("stopped at event {}: {}", k, d));
        }
        // what follows: the rest of the same tag, and the error of the parsers above
        let level = a.recs[at].level;
        // the start of a CDATA section, to the default handler
        let cd = matches!(h.iter().rev().find(|r| !matches!(r.ev, Ev::Api(_))).map(|r| &r.ev), Some(Ev::Default(x)) if x.ends_with(b"["));
        let lastev = h.iter().rev().find(|r| !matches!(r.ev, Ev::Default(_) | Ev::Api(_))).map(|r| &r.ev);
        for r in &a.recs[at..] {
            let ok = match &r.ev {
                Ev::Api(_) => true,
                Ev::End(_) | Ev::NsStart(..) | Ev::NsEnd(_) | Ev::Start { .. } => r.level == level,
                // the document type declaration without an internal subset is a single token
                Ev::DtEnd | Ev::NotStandalone | Ev::ExtRef { .. } => matches!(lastev, Some(Ev::DtStart { .. } | Ev::NotStandalone | Ev::ExtRef { .. } | Ev::Attlist { .. } | Ev::Entity { .. } | Ev::Element { .. } | Ev::Unparsed { .. } | Ev::Notation { .. })),
                // the start of a CDATA section goes with the first token in it
                // the conversion of a long piece of text is reported in parts
                Ev::Text(_) if matches!(lastev, Some(Ev::Text(y)) if y.len() > 400) => r.level == level,
                Ev::Text(_) | Ev::CdEnd => (matches!(lastev, Some(Ev::CdStart)) || cd && cfg.h & (H_DEFAULT | H_DEFEXPAND) != 0) && r.level == level,
                // as does an entity declaration with the references in its value
                Ev::Entity { .. } => matches!(lastev, Some(Ev::ExtRef { .. })) || r.level < level,
                Ev::Default(_) => cfg.h & (H_DEFAULT | H_DEFEXPAND) != 0 && r.level == level,
                _ => false,
            };
            if !ok {
                return out.fail(format!("after the parser was stopped for good at event {}: {}", k, fmt_rec(r)));
            }
        }
        let want = if level == 0 { 35 } else { 21 };
        let last = a.ops.last().cloned().unwrap_or_default();
        if (a.status, a.err, last.parsing) != (0, want, if level == 0 { 2 } else { 1 }) && !(a.status == 0 && a.err == b.err) && !(cfg.foreign && matches!(lastev, Some(Ev::ExtRef { .. } | Ev::NotStandalone))) {
            return out.fail(format!("stopped at event {}: status {} error {} (expected {}), parsing status {}", k, a.status, a.err, want, last.parsing));
        }
        if let Some(d) = bad(&a) {
            return out.fail(d);
        }
    }
    out
}
/// Stopping between calls, starting, abandoning: a state machine.
fn machine(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let (mut cfg, data, _, text) = input(t, false, false);
    cfg.acts = (0..t.size(12)).map(|i| (i * 3 + t.below(9), Act::Stop(!t.chance(1, 12)))).collect();
    let l = env.rx();
    let mut acts: Vec<String> = vec![];
    let nsteps = t.range(2, 25);
    let steps: Vec<(usize, usize, bool)> = (0..nsteps).map(|_| (t.below(10), t.size(data.len() + 1), t.chance(1, 6))).collect();
    out.hash = fnv(&data) ^ fnv(format!("{:?}{:?}", steps, cfg.acts).as_bytes());
    if env.describe {
        out.desc = desc_case(&cfg, &text, &[]) + &format!("\n steps {:?}", steps);
        predesc(env, &out.desc);
    }
    let p = create(l, &cfg);
    let mut ctx = Ctx::new(l, &cfg);
    ctx.stack.push(p);
    ctx.fed.push(vec![]);
    let old = unsafe { CUR };
    unsafe { CUR = &mut *ctx as *mut Ctx as *mut _ };
    configure(l, p, &cfg, ctx.user);
    // 0 initialized, 1 parsing, 2 finished, 3 suspended
    let mut state = 0u32;
    let mut at = 0;
    let mut fin = false;
    let mut dead = false;
    let mut fail = None;
    for (op, n, f) in steps {
        let nrec = ctx.t.recs.len();
        let susp = ctx.suspends;
        let err = |l: &Lib| {
            let _g = Ph::enter(l);
            unsafe { (l.GetErrorCode)(p) }
        };
        if dead && (state == 1 || state == 3) {
            if state == 3 {
                break;
            }
            let r = feed_one(b"x", &Feed { n: 1, fin: f, how: (op % 3) as u8, slack: 0 });
            if r != 0 {
                fail = Some(format!("parsing after an error returned {}", r));
            }
            break;
        }
        let (what, r) = match op {
            0..=3 => {
                let n = n.min(data.len() - at);
                let last = f || at + n == data.len();
                let r = feed_one(&data[at..at + n], &Feed { n, fin: last, how: (op % 3) as u8, slack: n as u32 % 7 });
                let want: &[u32] = match state {
                    3 | 2 => &[0],
                    _ => &[0, 1, 2],
                };
                if state < 2 {
                    at += n;
                    fin = last;
                }
                if !want.contains(&r) {
                    fail = Some(format!("parsing in state {} returned {}", state, r));
                }
                let e = err(l);
                let ne = match state {
                    3 => 33,
                    2 => 36,
                    _ => e,
                };
                if r == 0 && (e != ne || e == 0) {
                    fail = Some(format!("parsing in state {} returned {} with error {}", state, r, e));
                }
                if state < 2 {
                    dead = r == 0;
                    state = match r {
                        0 if e == 35 => 2,
                        // suspended, and then there was an error in the same token
                        0 if ctx.status().0 == 3 && ctx.suspends > susp => 3,
                        0 => 1,
                        2 => 3,
                        _ if last => 2,
                        _ => 1,
                    };
                }
                ("parse", r)
            }
            4..=6 => {
                if state == 0 || (state == 3 && ctx.fed[0].is_empty()) {
                    // nothing has been given to the parser yet
                    continue;
                }
                let r = {
                    let _g = Ph::enter(l);
                    unsafe { (l.ResumeParser)(p) }
                };
                let e = err(l);
                if state != 3 && (r, e) != (0, 34) {
                    fail = Some(format!("resuming in state {} returned {} with error {}", state, r, e));
                }
                if state == 3 {
                    if r == 0 && e == 0 {
                        fail = Some(format!("resuming returned {} with error {}", r, e));
                    }
                    dead = r == 0;
                    state = match r {
                        0 if e == 35 => 2,
                        // suspended, and then there was an error in the same token
                        0 if ctx.status().0 == 3 && ctx.suspends > susp => 3,
                        0 => 1,
                        2 => 3,
                        _ if fin => 2,
                        _ => 1,
                    };
                }
                ("resume", r)
            }
            7 | 8 => {
                let resumable = op == 7;
                if state == 0 {
                    continue;
                }
                let r = {
                    let _g = Ph::enter(l);
                    unsafe { (l.StopParser)(p, resumable as u8) }
                };
                let e = err(l);
                let want = match (state, resumable) {
                    (2, _) => 36,
                    (3, true) => 33,
                    _ => 0,
                };
                if (r == 1) != (want == 0) || (want != 0 && e != want) {
                    fail = Some(format!("stopping ({}) in state {} returned {} with error {}", resumable, state, r, e));
                }
                if r == 1 {
                    state = if resumable { 3 } else { 2 };
                    if resumable {
                        fin = false;
                    }
                }
                ("stop", r)
            }
            _ => ("query", 0),
        };
        let s = ctx.status();
        if env.describe {
            acts.push(format!("{} -> {} state {:?}", what, r, s));
        }
        if s.0 != state && fail.is_none() {
            fail = Some(format!("after {} -> {} the parsing status is {}, expected {}", what, r, s.0, state));
        }
        if what != "parse" && what != "resume" && ctx.t.recs.len() != nrec {
            fail = Some(format!("{} called handlers", what));
        }
        if fail.is_some() {
            break;
        }
    }
    out.nontrivial = ctx.t.recs.len() > 1;
    ctx.ended = true;
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
    }
    unsafe { CUR = old };
    if env.describe {
        out.desc += &format!("\n {:?}", acts);
    }
    match fail.or(bad(&ctx.t)) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let pos = t.chance(1, 2);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: true, stops: true, aborts: true, defaults: 3, pos, hopt: H_NOTSA, ext_modes: true, ..PROF })
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a case counts when there are more than two events at which the parser can be stopped",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "everywhere", kind: Kind::Random { words: 200, quick: 16000, thorough: 600000 }, f: everywhere },
            Sub { name: "everywherex", kind: Kind::Random { words: 350, quick: 16000, thorough: 600000 }, f: everywherex },
            Sub { name: "everywherep", kind: Kind::Random { words: 400, quick: 16000, thorough: 600000 }, f: everywherep },
            Sub { name: "abort", kind: Kind::Random { words: 400, quick: 20000, thorough: 800000 }, f: abort },
            Sub { name: "machine", kind: Kind::Random { words: 400, quick: 40000, thorough: 1500000 }, f: machine },
            Sub { name: "diff", kind: Kind::Random { words: 450, quick: 60000, thorough: 2000000 }, f: diff },
        ],
    }
}
