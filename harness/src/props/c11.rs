//! The default handler.
use super::common::*;
use super::*;

/// What the default handler received in the document itself.
fn defaults(a: &Trace) -> B {
    let mut v = vec![];
    for r in &a.recs {
        if let (0, Ev::Default(b)) = (r.level, &r.ev) {
            v.extend_from_slice(b);
        }
    }
    v
}
fn lossless(a: &Trace, text: &str) -> Option<String> {
    let got = defaults(a);
    let t = text.as_bytes();
    if let Some(r) = a.recs.iter().find(|r| !matches!(r.ev, Ev::Default(_))) {
        return Some(format!("only the default handler is set, and there is {}", fmt_rec(r)));
    }
    let n = got.iter().zip(t).take_while(|(a, b)| a == b).count();
    if n < got.len() || (a.status == 1 && n < t.len()) {
        let c = |b: &[u8]| show(&b[n.min(b.len())..(n + 40).min(b.len())]);
        return Some(format!("the default handler received something else from byte {} on: {:?} where the document has {:?} (status {}, error {})", n, c(&got), c(t), a.status, a.err));
    }
    bad(a)
}
/// Only a default handler: it receives the document.
fn alone(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let long = t.chance(1, 6);
    let d = Gen::new(t, MOpts { ns, long, decls: 10, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
    let refs = c.d.names.iter().any(|n| c.d.text.contains(&format!("&{};", n.0)));
    c.cfg.h = if !refs && t.chance(1, 2) { H_DEFEXPAND } else { H_DEFAULT };
    c.cfg.pe = 0;
    out.hash = fnv(&c.data);
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.d.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    out.nontrivial = a.recs.len() > 5;
    // entities of parameter entities that are not read may be missing in standalone documents
    if a.status != 1 && !(a.err == 11 && c.d.standalone) {
        return out.fail(format!("well-formed document rejected: error {} at {:?}", a.err, a.end));
    }
    match lossless(&a, &c.d.text) {
        Some(d) => out.fail(d),
        None => out,
    }
}
/// The same for arbitrary texts: everything before an error, and nothing else.
fn alonex(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut c = gen_case(t, &Prof { h: H_DEFAULT, feeds: true, encs: true, reference: false, ..PROF });
    c.cfg.pe = 0;
    c.cfg.foreign = false;
    out.hash = fnv(&c.data);
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    if a.overflow || c.doc.text.contains("encoding") {
        out.discard = true;
        return out;
    }
    out.nontrivial = a.recs.len() > 5;
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    let text = c.doc.text.strip_prefix('\u{feff}').unwrap_or(&c.doc.text);
    match lossless(&a, text) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// Any handlers and a default handler: what the handlers do not take goes to the default handler.
fn partition(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let long = t.chance(1, 8);
    let d = Gen::new(t, MOpts { ns, long, dtd: false, ext: false, pes: false, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
    let r = t.u32();
    // halves: start/end element, start/end cdata, start/end namespace
    let half = [r & 1 != 0, r & 2 != 0, r & 4 != 0, r & 8 != 0, r & 16 != 0, r & 32 != 0];
    c.cfg.h = [H_DEFAULT, H_DEFEXPAND][t.below(2)] | H_ELEM | H_CDATA | H_NS | (r >> 6) & (H_TEXT | H_PI | H_COMMENT | H_XMLDECL);
    let h = c.cfg.h;
    out.hash = fnv(&c.data) ^ (r as u64) << 20;
    out.nontrivial = c.exp.len() > 4;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.d.text, &c.feeds) + &format!("\n halves {:?}", half);
        predesc(env, &out.desc);
    }
    let text = c.d.text.as_bytes();
    let mut exp: Vec<Rec> = vec![];
    let mut pos = 0;
    let mut start = (0, 0);
    let gap = |exp: &mut Vec<Rec>, pos: &mut usize, to: usize| {
        if to > *pos {
            exp.push(rec0(Ev::Default(text[*pos..to].to_vec())));
            *pos = to;
        }
    };
    for e in &c.d.evs {
        let (a, b) = e.span.unwrap();
        let on = match &e.ev {
            Ev::Start { .. } => half[0],
            Ev::End(_) => half[1],
            Ev::CdStart => half[2],
            Ev::CdEnd => half[3],
            Ev::NsStart(..) => half[4],
            Ev::NsEnd(_) => half[5],
            x => handler_of(x) & h != 0,
        };
        if let Ev::Start { .. } = e.ev {
            start = (a, b);
        }
        if !on {
            continue;
        }
        match &e.ev {
            Ev::NsStart(..) => gap(&mut exp, &mut pos, a),
            Ev::NsEnd(_) => gap(&mut exp, &mut pos, b),
            // an empty element whose end is reported is not reported otherwise
            Ev::End(_) if a == b => gap(&mut exp, &mut pos, start.0),
            _ => gap(&mut exp, &mut pos, a),
        }
        exp.push(rec0(e.ev.clone()));
        if !matches!(e.ev, Ev::NsStart(..)) {
            pos = pos.max(b);
        }
    }
    gap(&mut exp, &mut pos, text.len());
    let l = env.rx();
    let p = create(l, &c.cfg);
    let b = configure(l, p, &c.cfg, 0x1000 as *mut _);
    for (i, w) in [0, 1, 2, 3, 6, 7].iter().enumerate() {
        if !half[i] {
            set_half(l, p, *w, false);
        }
    }
    let mut a = run_on(l, &c.cfg, p, &c.data, &c.feeds, false, true);
    a.bad.extend(b);
    match check_exp(&a, &merge_recs(exp)) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// XML_DefaultCurrent hands on the source of the event.
fn current(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let long = t.chance(1, 8);
    let d = Gen::new(t, MOpts { ns, long, dtd: false, ext: false, pes: false, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
    let r = t.u32();
    c.cfg.h |= [H_DEFAULT, H_DEFEXPAND][t.below(2)];
    c.cfg.dc = r & (H_ELEM | H_TEXT | H_PI | H_COMMENT | H_CDATA | H_XMLDECL);
    let dc = c.cfg.dc;
    out.hash = fnv(&c.data) ^ (r as u64) << 20;
    out.nontrivial = c.exp.len() > 4;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.d.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let text = c.d.text.as_bytes();
    let mut exp: Vec<Rec> = vec![];
    let mut pos = 0;
    for e in &c.d.evs {
        let (a, b) = e.span.unwrap();
        if a > pos {
            exp.push(rec0(Ev::Default(text[pos..a].to_vec())));
        }
        pos = pos.max(b);
        exp.push(rec0(e.ev.clone()));
        if handler_of(&e.ev) & dc != 0 && b > a {
            exp.push(rec0(Ev::Default(text[a..b].to_vec())));
        }
    }
    if text.len() > pos {
        exp.push(rec0(Ev::Default(text[pos..].to_vec())));
    }
    let mut a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    a.recs.retain(|r| !matches!(&r.ev, Ev::Default(x) if x.is_empty()));
    if dc & H_TEXT != 0 {
        a.recs.retain(|r| !matches!(r.ev, Ev::Text(_)));
        exp.retain(|r| !matches!(r.ev, Ev::Text(_)));
    }
    match check_exp(&a, &merge_recs(exp)) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[0, 25], feeds: true, encs: true, depth: 3, h: 0, hopt: H_ALL & !H_UNKENC, defaults: 1, ext_modes: true, ..PROF })
}
fn diffdc(env: &Env, t: &mut Tape) -> Out {
    let encs = t.chance(1, 4);
    diff_case(env, t, &Prof { glitch: &[0, 25], feeds: true, encs, depth: 3, dc: true, hopt: H_NOTSA, ..PROF })
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case counts when the default handler receives more than five pieces, or there are more than four events",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "alone", kind: Kind::Random { words: 450, quick: 40000, thorough: 1500000 }, f: alone },
            Sub { name: "alonex", kind: Kind::Random { words: 450, quick: 40000, thorough: 1500000 }, f: alonex },
            Sub { name: "partition", kind: Kind::Random { words: 200, quick: 50000, thorough: 2000000 }, f: partition },
            Sub { name: "current", kind: Kind::Random { words: 200, quick: 50000, thorough: 2000000 }, f: current },
            Sub { name: "diff", kind: Kind::Random { words: 450, quick: 50000, thorough: 2000000 }, f: diff },
            Sub { name: "diffdc", kind: Kind::Random { words: 450, quick: 50000, thorough: 2000000 }, f: diffdc },
        ],
    }
}
