//! The UTF-16 build: it against the UTF-8 build, and the checks of the other properties on it.
use super::common::*;
use super::*;

/// Both builds on the same input.
fn twin_of(env: &Env, t: &mut Tape, p: &Prof) -> Out {
    let mut out = Out::new();
    let c = gen_case(t, p);
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}{:?}", c.feeds, c.cfg.acts).as_bytes()) ^ (c.cfg.h as u64) << 20;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    let b = run(env.rxn.as_ref().unwrap(), &c.cfg, &c.data, &c.feeds);
    out.nontrivial = a.recs.len() > 3;
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    match bad(&a).or_else(|| same(&a, "UTF-16 build", &b, "UTF-8 build")) {
        Some(d) => out.fail(d),
        None => out,
    }
}
const T: Prof = Prof { h: H_CONTENT, hopt: H_ALL, defaults: 3, feeds: true, ext_modes: true, base: true, ret0: true, encs: true, reference: false, ..PROF };
fn twin(env: &Env, t: &mut Tape) -> Out {
    twin_of(env, t, &T)
}
fn positions(env: &Env, t: &mut Tape) -> Out {
    twin_of(env, t, &Prof { h: H_ALL & !H_UNKENC & !H_NOTSA, hopt: 0, pos: true, ..T })
}
fn stops(env: &Env, t: &mut Tape) -> Out {
    twin_of(env, t, &Prof { h: H_ALL & !H_UNKENC, defaults: 0, pos: true, stops: true, misc_acts: true, ..T })
}
fn big(env: &Env, t: &mut Tape) -> Out {
    twin_of(env, t, &Prof { big: true, ..T })
}
/// Built documents of any size, in both builds.
fn sizes(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let g = super::c21::gen_big(t, 3000, 300, 12_000);
    let feeds;
    let mut cfg = g.cfg.clone();
    let data = some_enc(t, &g.text, &mut cfg).1;
    feeds = big_feeds(t, data.len());
    out.hash = fnv(&data) ^ fnv(format!("{:?}", feeds).as_bytes());
    out.nontrivial = data.len() > 200;
    out.labels = g.labels.clone();
    if env.describe {
        out.desc = desc_case(&cfg, &g.text.chars().take(600).collect::<String>(), &feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, &data, &feeds);
    let b = run(env.rxn.as_ref().unwrap(), &cfg, &data, &feeds);
    match bad(&a).or_else(|| same(&a, "UTF-16 build", &b, "UTF-8 build")) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    let mut subs = vec![
        Sub { name: "twin", kind: Kind::Random { words: 500, quick: 20000, thorough: 3000000 }, f: twin },
        Sub { name: "positions", kind: Kind::Random { words: 500, quick: 20000, thorough: 3000000 }, f: positions },
        Sub { name: "stops", kind: Kind::Random { words: 500, quick: 20000, thorough: 3000000 }, f: stops },
        Sub { name: "big", kind: Kind::Random { words: 1500, quick: 1000, thorough: 300000 }, f: big },
        Sub { name: "sizes", kind: Kind::Random { words: 60, quick: 1200, thorough: 300000 }, f: sizes },
    ];
    // everything said of the UTF-8 build
    let others = vec![
        c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(),
        c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c25::prop(),
    ];
    let div: usize = std::env::var("C24DIV").ok().and_then(|s| s.parse().ok()).unwrap_or(12);
    for p in others {
        for s in p.subs {
            if s.name == "time" || s.name == "threads" {
                continue;
            }
            let name: &'static str = Box::leak(format!("{}-{}", p.id, s.name).into_boxed_str());
            let kind = match s.kind {
                Kind::Random { words, quick, thorough } => Kind::Random { words, quick: (quick / div).max(1), thorough: thorough / 20 },
                Kind::All { quick, thorough } if s.name == "known" => Kind::All { quick, thorough },
                Kind::All { thorough, .. } => Kind::Each { of: thorough, quick: thorough.min(if p.id == "C20" { 320 } else { 2000 }), thorough },
                Kind::Each { of, quick, thorough } => Kind::Each { of, quick: quick / 10, thorough },
            };
            subs.push(Sub { name, kind, f: s.f });
        }
    }
    Prop {
        id: "C24",
        rule: "a case counts by the rule of the property whose check it is; for the comparisons of the two builds, when there are more than three events",
        libs: Libs::Wide,
        assumptions: &["the system's libexpatw (2.6.1) is the reference for the checks that use one"],
        subs,
    }
}
