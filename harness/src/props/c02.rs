//! How the input is cut into pieces makes no difference.
use super::common::*;
use super::*;

/// Trace in a form that does not depend on how text was cut up.
pub fn canon(t: &Trace) -> Vec<Rec> {
    let mut v: Vec<Rec> = t.recs.clone();
    for r in v.iter_mut() {
        if let (Ev::Text(_) | Ev::Default(_), Some(p)) = (&r.ev, &mut r.pos) {
            p.count = 0;
        }
    }
    merge_recs(v)
}
pub fn compare(a: &Trace, an: &str, b: &Trace, bn: &str) -> Option<String> {
    let (mut x, mut y) = (canon(a), canon(b));
    if a.status == 0 && b.status == 0 {
        // how much of the text directly before an error is still reported depends on the pieces
        let cut = |v: &mut Vec<Rec>| -> [B; 2] {
            let mut w = [vec![], vec![]];
            // (the end of a sub-parser's input may follow it; with XML_DefaultCurrent there is
            // text for both handlers)
            let notes = v.iter().rev().take_while(|r| matches!(r.ev, Ev::Api(_))).count();
            let mut at = v.len() - notes;
            while at > 0 {
                at -= 1;
                let (k, b) = match &v[at].ev {
                    Ev::Text(b) => (0, b),
                    Ev::Default(b) => (1, b),
                    _ => break,
                };
                w[k].splice(0..0, b.iter().copied());
                v.remove(at);
            }
            w
        };
        let (u, w) = (cut(&mut x), cut(&mut y));
        for k in 0..2 {
            let n = u[k].len().min(w[k].len());
            if u[k][..n] != w[k][..n] {
                return Some(format!("last text {:?} in {} and {:?} in {}", show(&u[k]), an, show(&w[k]), bn));
            }
        }
    }
    if let Some(d) = diff_recs(&x, an, &y, bn) {
        return Some(d);
    }
    // junk after the root element that is malformed itself can be called either
    let junk = |x: &Trace, y: &Trace| x.status == 0 && y.status == 0 && x.err == 9 && matches!(y.err, 4 | 5 | 6);
    if junk(a, b) || junk(b, a) {
        return bad(a).or(bad(b));
    }
    if (a.status, a.err) != (b.status, b.err) {
        return Some(format!("{}: status {} error {} at {:?} | {}: status {} error {} at {:?}", an, a.status, a.err, a.end, bn, b.status, b.err, b.end));
    }
    // the place of an error
    if a.status == 0 && a.end.map(|p| (p.line, p.col, p.idx)) != b.end.map(|p| (p.line, p.col, p.idx)) {
        return Some(format!("error {} at {:?} in {} and at {:?} in {}", a.err, a.end, an, b.end, bn));
    }
    bad(a).or(bad(b))
}
/// Line numbers after the root element left out.
fn no_epilog_lines(t: &Trace) -> Trace {
    let mut t = t.clone();
    let at = t.recs.iter().rposition(|r| r.level == 0 && matches!(r.ev, Ev::End(_)));
    for r in t.recs.iter_mut().skip(at.map_or(usize::MAX, |a| a + 1)) {
        if let Some(p) = &mut r.pos {
            p.line = 0;
            p.col = 0;
        }
    }
    if let (Some(_), Some(p)) = (at, &mut t.end) {
        p.line = 0;
        p.col = 0;
    }
    t
}
fn verdict(env: &Env, out: Out, a: &Trace, an: &str, b: &Trace, bn: &str, crlf: bool) -> Out {
    let d = match compare(a, an, b, bn) {
        None => return out,
        Some(d) => d,
    };
    if crlf && compare(&no_epilog_lines(a), an, &no_epilog_lines(b), bn).is_none() {
        return out.finding(env, "C02", "epilog-crlf", d);
    }
    out.fail(d)
}
fn known(env: &Env, _: &mut Tape) -> Out {
    let mut out = Out::new();
    let cfg = Cfg { pos: true, ..Cfg::default() };
    let data = b"<a/>\r\n<!--c-->";
    let f = feeds_from(&[5], data.len(), |_| (0, 0), false);
    let a = run(env.rx(), &cfg, data, &f);
    let b = run(env.rx(), &cfg, data, &one_feed());
    out.nontrivial = true;
    out.hash = fnv(data);
    if env.describe {
        out.desc = desc_case(&cfg, "<a/>\r\n<!--c-->", &f);
        predesc(env, &out.desc);
    }
    verdict(env, out, &a, "cut at 5", &b, "at once", true)
}
fn prof(t: &mut Tape) -> Prof {
    Prof {
        glitch: &[0, 0, 12, 40],
        feeds: true,
        pos: t.chance(2, 3),
        encs: true,
        hopt: H_ALL & !H_UNKENC,
        h: H_CONTENT | H_EXT,
        defaults: 3,
        dc: t.chance(1, 4),
        misc_acts: false,
        reference: false,
        ..PROF
    }
}
fn split(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let p = prof(t);
    let mut c = gen_case(t, &p);
    // text is reported piece by piece, so passing it on is, too
    c.cfg.dc &= !H_TEXT;
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}", c.feeds).as_bytes());
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let mut whole = c.cfg.clone();
    for e in whole.ents.iter_mut() {
        e.feeds = one_feed();
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    let b = run(env.rx(), &whole, &c.data, &one_feed());
    if a.overflow || b.overflow {
        out.discard = true;
        return out;
    }
    out.nontrivial = b.recs.len() > 1 && c.feeds.len() > 1;
    out.labels.push(if b.err == 0 { "accepted" } else { "rejected" });
    let x = cuts_crlf(&c.feeds, &c.data);
    verdict(env, out, &a, "in pieces", &b, "at once", x)
}
/// Every single cut, and every byte by itself.
fn everycut(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let p = Prof { feeds: false, depth: 2, ..prof(t) };
    let mut c = gen_case(t, &p);
    c.cfg.dc &= !H_TEXT;
    if c.data.len() > 400 {
        c.data.truncate(400);
    }
    for e in c.cfg.ents.iter_mut() {
        e.feeds = one_feed();
    }
    out.hash = fnv(&c.data);
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &[]);
        predesc(env, &out.desc);
    }
    let b = run(env.rx(), &c.cfg, &c.data, &one_feed());
    if b.overflow {
        out.discard = true;
        return out;
    }
    out.nontrivial = b.recs.len() > 1;
    let n = c.data.len();
    let how = t.below(3) as u8;
    let ef = t.chance(1, 4);
    for cut in 0..n {
        let f = feeds_from(&[cut], n, |_| (how, 17), ef);
        let a = run(env.rx(), &c.cfg, &c.data, &f);
        out = verdict(env, out, &a, &format!("cut at {}", cut), &b, "at once", cuts_crlf(&f, &c.data));
        if out.fail.is_some() {
            return out;
        }
    }
    let cuts: Vec<usize> = (1..n).collect();
    let f = feeds_from(&cuts, n, |_| (how, 17), ef);
    let a = run(env.rx(), &c.cfg, &c.data, &f);
    out = verdict(env, out, &a, "byte by byte", &b, "at once", cuts_crlf(&f, &c.data));
    if out.fail.is_some() {
        return out;
    }
    // the external entities likewise
    for i in 0..c.cfg.ents.len() {
        let n = c.cfg.ents[i].data.len().min(200);
        for cut in 0..n {
            let mut cfg = c.cfg.clone();
            let l = cfg.ents[i].data.len();
            cfg.ents[i].feeds = feeds_from(&[cut], l, |_| (how, 5), ef);
            let a = run(env.rx(), &cfg, &c.data, &one_feed());
            if let Some(d) = compare(&a, &format!("entity {} cut at {}", cfg.ents[i].sys, cut), &b, "at once") {
                return out.fail(d);
            }
        }
    }
    out
}
fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 2);
    let long = t.chance(1, 4);
    model_check(env, t, MOpts { ns, long, ..MOPTS }, Vary { feeds: true, encs: true, ..VARY })
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { feeds: true, pos: true, encs: true, ..PROF })
}
/// Long tokens across many buffers.
fn big(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { big: true, feeds: true, pos: true, ..PROF })
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "a case counts when the document produces at least two events and is delivered in more than one piece",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "known", kind: Kind::All { quick: 1, thorough: 1 }, f: known },
            Sub { name: "split", kind: Kind::Random { words: 550, quick: 100000, thorough: 3000000 }, f: split },
            Sub { name: "everycut", kind: Kind::Random { words: 120, quick: 1500, thorough: 60000 }, f: everycut },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 40000, thorough: 1500000 }, f: model },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 2000000 }, f: diff },
            Sub { name: "big", kind: Kind::Random { words: 1500, quick: 6000, thorough: 200000 }, f: big },
        ],
    }
}
