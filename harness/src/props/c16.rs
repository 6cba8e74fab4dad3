//! What is allocated is released.
use super::c14::{desc, reset, stage, Stage};
use super::common::*;
use super::*;

fn encs(t: &mut Tape) -> Option<String> {
    match t.below(6) {
        0 => Some(["UTF-8", "utf-16", "ISO-8859-1", "US-ASCII", "x-none"][t.below(5)].to_string()),
        _ => None,
    }
}
fn verdict(mut out: Out, sh: &Shim, fail: Option<String>) -> Out {
    let (n, bytes) = sh.live();
    sh.off();
    out.nontrivial = out.nontrivial && sh.count() > 30;
    if let Some(d) = fail {
        return out.fail(d);
    }
    if n != 0 {
        return out.fail(format!("{} blocks ({} bytes) are still allocated after the parser was freed", n, bytes));
    }
    let (h, r) = unsafe { (HANDED, RELEASED) };
    if h != r {
        return out.fail(format!("encoding release called {} times for {} encodings", r, h));
    }
    out
}
fn start(l: &Lib, sh: &Shim) {
    // what a process allocates once is not the parser's
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let mut cfg = Cfg::default();
        cfg.h = H_ALL;
        run(l, &cfg, b"<a/>", &[]);
        run(l, &cfg, b"<a>", &[]);
    });
    unsafe {
        HANDED = 0;
        RELEASED = 0;
    }
    sh.reset(true);
}
/// Documents of every kind, cut off anywhere, with resets between them.
fn histories(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let n = t.range(1, 3);
    let st: Vec<Stage> = (0..n).map(|_| stage(t, true)).collect();
    let es: Vec<Option<String>> = (0..n).map(|_| encs(t)).collect();
    for s in &st {
        out.hash ^= fnv(&s.data).rotate_left(5) ^ fnv(format!("{:?}{:x}", s.feeds, s.cfg.h).as_bytes());
    }
    if env.describe {
        out.desc = st.iter().map(desc).collect::<Vec<_>>().join("\nRESET\n");
        predesc(env, &out.desc);
    }
    let l = env.rx();
    let sh = Shim::get();
    start(l, &sh);
    let p = create(l, &st[0].cfg);
    let mut fail = None;
    for (i, s) in st.iter().enumerate() {
        if t.chance(1, 6) {
            // naming an encoding twice
            for e in ["UTF-16", "utf-8"] {
                let z = l.zstr(e);
                let _g = Ph::enter(l);
                unsafe { (l.SetEncoding)(p, z.as_ptr() as S) };
            }
        }
        let mut tr = run_on(l, &s.cfg, p, &s.data, if s.idle { &[] } else { &s.feeds[..] }, true, false);
        out.nontrivial |= tr.recs.len() > 1;
        out.labels.push(match (tr.status, tr.err) {
            (1, _) => "accepted so far",
            (2, _) => "left suspended",
            (_, 35) => "aborted",
            _ => "rejected",
        });
        tr.bad.retain(|b| !b.contains("SetParamEntityParsing") && !b.contains("encoding release"));
        if let Some(d) = bad(&tr) {
            fail = Some(format!("in document {}: {}", i, d));
        }
        if i + 1 < st.len() && reset(l, p, &es[i]) != 1 {
            fail = Some("XML_ParserReset refused".into());
        }
    }
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
    }
    verdict(out, &sh, fail)
}
/// One document, whole: the same with all handlers and features, and errors anywhere.
fn documents(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut c = gen_case(t, &Prof { glitch: &[0, 15, 30, 80], feeds: true, encs: true, defaults: 4, hopt: H_NOTSA | H_UNKENC, reference: false, ext_modes: true, ret0: true, base: true, ..PROF });
    for e in c.cfg.ents.iter_mut() {
        if t.chance(1, 6) {
            e.mode = [3, 4][t.below(2)];
        }
    }
    if t.chance(1, 3) {
        c.cfg.h &= t.u32();
        c.cfg.h |= H_EXT;
    }
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}{:x}", c.feeds, c.cfg.h).as_bytes());
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let l = env.rx();
    let sh = Shim::get();
    start(l, &sh);
    let p = create(l, &c.cfg);
    let tr = run_on(l, &c.cfg, p, &c.data, &c.feeds, true, true);
    out.nontrivial = tr.recs.len() > 3;
    out.labels.push(if tr.err == 0 { "accepted" } else { "rejected" });
    verdict(out, &sh, bad(&tr))
}
/// Encodings of the application's own.
fn encodings(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut map: Vec<i32> = (0..256).map(|i| if i < 0x80 { i } else { 0x100 + i }).collect();
    let convert = t.chance(1, 2);
    match t.below(6) {
        0 => map[t.below(256)] = [-1, -5, 0x110000, 0xD800, 0xFFFE, 0x41][t.below(6)],
        1 if convert => {
            for i in 0x80..0x100 {
                map[i] = -2;
            }
        }
        2 => map[0x80 + t.below(128)] = [-1, -2, -3, -4][t.below(4)],
        _ => {}
    }
    let u = Unk { map, convert, ret: !t.chance(1, 5) as i32, release: !t.chance(1, 8), only: if t.chance(1, 6) { Some("other".into()) } else { None } };
    let body = ["<a>text</a>", "<a b='c'>&e;</a>", "<a><b/></a>x", "<a", "<!DOCTYPE a SYSTEM 's'><a/>"][t.below(5)];
    let decl = t.chance(2, 3);
    let mut text = if decl { format!("<?xml version='1.0' encoding='{}'?>", ["mine", "other"][t.below(2)]) } else { String::new() };
    if t.chance(1, 2) {
        text += "<!DOCTYPE a [<!ENTITY e SYSTEM 's'>]><a>&e;&e;</a>";
    } else {
        text += body;
    }
    let mut cfg = Cfg::default();
    cfg.h = H_ALL & !H_NOTSA;
    cfg.unk = Some(u);
    cfg.pe = t.below(3) as u8;
    if !decl || t.chance(1, 4) {
        cfg.enc = Some("mine".into());
    }
    let sub = ["<?xml encoding='mine'?>x", "<?xml version='1.0' encoding='other'?><b/>", "plain", "<?xml encoding='mine'?><b>"][t.below(4)];
    cfg.ents.push(ExtEnt { sys: "s".into(), data: sub.as_bytes().to_vec(), enc: if t.chance(1, 3) { Some("mine".into()) } else { None }, feeds: gen_feeds(t, sub.len()), mode: [1, 1, 3, 4][t.below(4)] });
    if t.chance(1, 4) {
        cfg.acts.push((t.below(6), Act::Stop(t.chance(1, 2))));
        cfg.leave = t.chance(1, 2);
    }
    let feeds = gen_feeds(t, text.len());
    let again = t.chance(1, 3);
    let cut = if t.chance(1, 4) { t.below(text.len()) } else { text.len() };
    out.hash = fnv(text.as_bytes()) ^ fnv(format!("{:?}{:?}{}{}", feeds, cfg, cut, again).as_bytes());
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds) + &format!("\n cut at {} reset {}", cut, again);
        predesc(env, &out.desc);
    }
    let l = env.rx();
    let sh = Shim::get();
    start(l, &sh);
    let p = create(l, &cfg);
    let mut tr = run_on(l, &cfg, p, &text.as_bytes()[..cut], &feeds, true, false);
    let mut fail = bad(&tr);
    if again {
        if reset(l, p, &cfg.enc) != 1 {
            fail = Some("XML_ParserReset refused".into());
        }
        let (h, r) = unsafe { (HANDED, RELEASED) };
        if h != r && fail.is_none() {
            fail = Some(format!("encoding release called {} times for {} encodings up to the reset", r, h));
        }
        tr = run_on(l, &cfg, p, &text.as_bytes()[..cut], &feeds, true, false);
        fail = fail.or(bad(&tr));
    }
    {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
    }
    out.nontrivial = unsafe { HANDED } > 0;
    if env.describe {
        out.desc += &format!("\n handed {} released {}", unsafe { HANDED }, unsafe { RELEASED });
    }
    let nt = out.nontrivial;
    let mut o = verdict(out, &sh, fail);
    o.nontrivial = nt;
    o
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a case counts when there were events and more than 30 allocations; with an encoding of the application's own, when one was handed to the parser",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "histories", kind: Kind::Random { words: 500, quick: 40000, thorough: 1500000 }, f: histories },
            Sub { name: "documents", kind: Kind::Random { words: 400, quick: 60000, thorough: 2000000 }, f: documents },
            Sub { name: "encodings", kind: Kind::Random { words: 80, quick: 60000, thorough: 1500000 }, f: encodings },
        ],
    }
}
