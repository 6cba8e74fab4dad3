//! Handlers do not influence one another.
use super::common::*;
use super::*;

/// One bit for each handler: the halves of pairs have their own.
fn bit(e: &Ev) -> u32 {
    match e {
        Ev::Start { .. } => 0,
        Ev::End(_) => 1,
        Ev::CdStart => 2,
        Ev::CdEnd => 3,
        Ev::DtStart { .. } => 4,
        Ev::DtEnd => 5,
        Ev::NsStart(..) => 6,
        Ev::NsEnd(_) => 7,
        Ev::Text(_) => 8,
        Ev::Pi(..) => 9,
        Ev::Comment(_) => 10,
        Ev::Entity { .. } => 11,
        Ev::Unparsed { .. } => 12,
        Ev::Notation { .. } => 13,
        Ev::Element { .. } => 14,
        Ev::Attlist { .. } => 15,
        Ev::XmlDecl { .. } => 16,
        Ev::NotStandalone => 17,
        Ev::Skipped(..) => 18,
        _ => 31,
    }
}
const PAIRS: &[(u32, u32)] = &[
    (H_ELEM, 3),
    (H_CDATA, 3 << 2),
    (H_DOCTYPE, 3 << 4),
    (H_NS, 3 << 6),
    (H_TEXT, 1 << 8),
    (H_PI, 1 << 9),
    (H_COMMENT, 1 << 10),
    (H_ENTITY, 1 << 11),
    (H_UNPARSED, 1 << 12),
    (H_NOTATION, 1 << 13),
    (H_ELDECL, 1 << 14),
    (H_ATTLIST, 1 << 15),
    (H_XMLDECL, 1 << 16),
    (H_NOTSA, 1 << 17),
    (H_SKIPPED, 1 << 18),
];
fn bits(h: u32) -> u32 {
    PAIRS.iter().filter(|p| p.0 & h != 0).map(|p| p.1).sum::<u32>() | 1 << 31
}
fn apply(m: &mut u32, a: &Act) {
    match a {
        Act::Handlers(h, true) => *m |= bits(*h),
        Act::Handlers(h, false) => *m &= !bits(*h) | 1 << 31,
        Act::Half(w, true) => *m |= 1 << w,
        Act::Half(w, false) => *m &= !(1 << w),
        _ => {}
    }
}
/// What arrives when all the time all is reported, and the handlers change like that.
fn expect(all: &[Rec], h: u32, acts: &[(usize, Act)]) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    let mut masks = vec![bits(h)];
    let mut n = 0;
    for r in all {
        let lv = r.level as usize;
        masks.truncate(lv + 1);
        let mut ev = r.ev.clone();
        let mut b = bit(&ev);
        if let (Ev::Unparsed { name, base, sys, pubid, notation }, 0) = (&r.ev, masks[lv] & 1 << 12) {
            ev = Ev::Entity { name: name.clone(), pe: false, value: None, base: base.clone(), sys: sys.clone(), pubid: pubid.clone(), notation: notation.clone() };
            b = 11;
        }
        if masks[lv] >> b & 1 == 1 {
            out.push(Rec { ev: ev.clone(), ..r.clone() });
            if let Ev::Api(_) = ev {
                continue;
            }
            for (_, a) in acts.iter().filter(|a| a.0 == n) {
                apply(&mut masks[lv], a);
            }
            n += 1;
        }
        // a parser for an entity begins with the handlers there are
        if let Ev::ExtRef { .. } = r.ev {
            let m = masks[lv];
            masks.push(m);
        }
    }
    out
}
/// Where the end of an empty element is depends on whether its start was reported: only the end of the tag counts.
fn ends(v: Vec<Rec>) -> Vec<Rec> {
    v.into_iter()
        .map(|mut r| {
            if let (Ev::End(_) | Ev::NsEnd(_), Some(p)) = (&r.ev, &r.pos) {
                r.pos = Some(Pos { line: 0, col: 0, idx: p.idx + p.count as i64, count: 0 });
            }
            r
        })
        .collect()
}
fn subsets(env: &Env, t: &mut Tape, changing: bool) -> Out {
    let mut out = Out::new();
    let m = t.u32();
    let sparse = t.below(4);
    let mut acts = vec![];
    if changing {
        let n = t.range(1, 8);
        for _ in 0..n {
            let at = t.size(40);
            acts.push(match t.below(4) {
                0 => (at, Act::Half(t.below(8) as u32, t.chance(1, 2))),
                1 => (at, Act::Handlers(PAIRS[t.below(PAIRS.len())].0, t.chance(1, 2))),
                2 => (at, Act::Handlers(t.u32() & H_ALL & !H_EXT & !H_UNKENC, t.chance(2, 3))),
                _ => (at, Act::Handlers((H_ALL & !H_EXT & !H_UNKENC) * t.chance(3, 4) as u32, t.chance(3, 4))),
            });
        }
    }
    // a handler for the start of a doctype declaration has to be there when it starts (as with libexpat)
    acts.retain(|a| !matches!(a.1, Act::Half(4, true)));
    for a in acts.iter_mut() {
        if let Act::Handlers(h, true) = &mut a.1 {
            *h &= !H_DOCTYPE;
        }
    }
    let ext = t.chance(4, 5);
    let dflt = t.chance(1, 3);
    let mut c = gen_case(t, &Prof { glitch: &[0, 0, 30], feeds: true, encs: true, base: true, ext_modes: true, reference: false, pos: true, ..PROF });
    let full = H_ALL & !H_UNKENC & !(H_EXT * !ext as u32);
    c.cfg.skipdef = true;
    let mut sub = c.cfg.clone();
    c.cfg.h = full;
    sub.h = full & (m | (H_EXT * ext as u32));
    match sparse {
        0 => sub.h &= m.rotate_left(9) | H_EXT,
        1 => sub.h |= m.rotate_left(9) & full,
        _ => {}
    }
    if dflt {
        sub.h |= H_DEFEXPAND;
    }
    sub.acts = acts;
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}{:?}", sub.acts, c.feeds).as_bytes()) ^ (sub.h as u64) << 20;
    if env.describe {
        out.desc = desc_case(&sub, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    let b = run(env.rx(), &sub, &c.data, &c.feeds);
    if a.overflow || b.overflow {
        out.discard = true;
        return out;
    }
    if std::env::var("HARNESS_DUMP").is_ok() {
        for (n, x) in [("all", &a), ("subset", &b)] {
            eprintln!("== {}", n);
            for r in &x.recs {
                eprintln!("{}", fmt_rec(r));
            }
        }
    }
    let want = ends(expect(&a.recs, sub.h, &sub.acts));
    let got: Vec<Rec> = b.recs.iter().filter(|r| !matches!(r.ev, Ev::Default(_))).cloned().collect();
    let got = ends(got);
    out.nontrivial = got.len() > 2 && got.len() < a.recs.len();
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    if let Some(d) = bad(&b) {
        return out.fail(d);
    }
    if let Some(d) = diff_recs(&got, "these handlers", &want, "all handlers") {
        return out.fail(d);
    }
    // (where a parser stands after white space at the end depends on whether the default handler got it)
    let (mut a, mut b) = (a, b);
    if dflt && a.err == 0 {
        a.end = None;
        b.end = None;
    }
    if (a.status, a.err, a.end) != (b.status, b.err, b.end) {
        return out.fail(format!("these handlers: status {} error {} {:?}, all handlers: status {} error {} {:?}", b.status, b.err, b.end, a.status, a.err, a.end));
    }
    out
}
fn fixed(env: &Env, t: &mut Tape) -> Out {
    subsets(env, t, false)
}
fn changing(env: &Env, t: &mut Tape) -> Out {
    subsets(env, t, true)
}
pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a case counts when more than two events reach the subset of handlers, and some do not",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "fixed", kind: Kind::Random { words: 550, quick: 120000, thorough: 6000000 }, f: fixed },
            Sub { name: "changing", kind: Kind::Random { words: 550, quick: 160000, thorough: 8000000 }, f: changing },
        ],
    }
}
