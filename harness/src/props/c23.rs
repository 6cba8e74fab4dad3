//! xmlwf: what it writes.
use super::c22::{desc_run, differs, doc, options, place, P};
use super::common::*;
use super::wf::*;
use super::*;

fn setup(t: &mut Tape, kind: u8) -> Opt {
    let mut o = options(t);
    o.sa = false;
    o.enc = None;
    o.cp = false;
    o.dir = Some("out".to_string());
    o.out = kind;
    o
}
/// The output against the model.
fn of(env: &Env, t: &mut Tape, kind: u8) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let opt = setup(t, kind);
    let p = Prof { glitch: &[0, 0, 0, 60], ns: if opt.ns { 2 } else { 1 }, ..P };
    let stdin = t.chance(1, 6);
    let mut names: Vec<String> = vec![];
    let mut shown = vec![];
    let mut input = vec![];
    let mut own = false;
    for i in 0..if stdin { 1 } else { t.range(1, 2) } {
        let name = ["f.xml", "d/g", "./h.i.j"][t.below(3)].to_string();
        let (data, ents, text) = doc(t, &p);
        own |= differs(&data, &ents);
        if stdin {
            place(t, &d, "unused", &data, &ents);
            input = data;
        } else if i == 0 || names[0] != name {
            place(t, &d, &name, &data, &ents);
            names.push(name.clone());
        }
        shown.push((name, text));
    }
    let mut args = arguments(t, &opt);
    args.extend(names.iter().cloned());
    o.hash = fnv(format!("{:?}", args).as_bytes()) ^ shown.iter().fold(0, |a, x| fnv(x.1.as_bytes()).rotate_left(7) ^ a);
    if env.describe {
        o.desc = desc_run(&args, &shown, "");
        predesc(env, &o.desc);
    }
    // the list of events shows how text is split up, which is for each library to decide; and
    // libexpat's XML_DefaultCurrent repeats text that is converted in several steps
    let l = if kind != 0 || own { env.rx() } else { env.rf() };
    let (want, sure) = model(l, &d.0, &opt, &names, &input);
    if !sure {
        o.discard = true;
        return o;
    }
    let got = match command(env, &d, &args, &input) {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    o.nontrivial = want.files.values().any(|v| v.len() > 20);
    if want.ents > 0 {
        o.labels.push("external entities");
    }
    o.labels.push(if want.code == 0 { "well-formed" } else { "not well-formed" });
    if let Some(x) = diff(&got, &want) {
        return o.fail(x);
    }
    if kind == b'c' && want.code == 0 && !opt.ext && !opt.pe {
        for n in &names {
            let data = std::fs::read(d.0.join(n)).unwrap();
            // (in UTF-8)
            let u16s = |b: &[u8], le: bool| -> B { char::decode_utf16(b.chunks(2).map(|c| if le { u16::from_le_bytes([c[0], c[1]]) } else { u16::from_be_bytes([c[0], c[1]]) })).map(|c| c.unwrap_or('?')).collect::<String>().into_bytes() };
            let body = match &data[..] {
                [0xef, 0xbb, 0xbf, r @ ..] => r.to_vec(),
                [0xff, 0xfe, r @ ..] => u16s(r, true),
                [0xfe, 0xff, r @ ..] => u16s(r, false),
                [b'<', 0, ..] => u16s(&data, true),
                [0, b'<', ..] => u16s(&data, false),
                _ => {
                    let low = String::from_utf8_lossy(&data[..data.len().min(80)]).to_lowercase();
                    if low.starts_with("<?xml") && low.split("?>").next().unwrap().contains("encoding") || data.contains(&0) {
                        continue;
                    }
                    data.clone()
                }
            };
            o.labels.push(if data == body { "copied" } else { "copied from UTF-16 or without the mark" });
            let f = &got.files[n.rsplit('/').next().unwrap()];
            if *f != body {
                return o.fail(format!("the copy of {} is {}", show(&body), show(f)));
            }
        }
    }
    o
}
/// The same for documents spread over files in several directories.
fn tree(env: &Env, t: &mut Tape) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let kind = [0, 0, b'c', b'm'][t.below(4)];
    let mut opt = setup(t, kind);
    opt.ext = true;
    let (name, shown) = super::c22::place_tree(t, &d);
    let mut args = arguments(t, &opt);
    args.push(name.clone());
    o.hash = fnv(format!("{:?}", args).as_bytes()) ^ shown.iter().fold(0, |a, x| fnv(x.1.as_bytes()).rotate_left(7) ^ a);
    if env.describe {
        o.desc = desc_run(&args, &shown, "");
        predesc(env, &o.desc);
    }
    let (want, _) = model(if kind == 0 { env.rf() } else { env.rx() }, &d.0, &opt, &[name], b"");
    let got = match command(env, &d, &args, b"") {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    o.nontrivial = want.ents > 0;
    o.labels.push(if want.code == 0 { "well-formed" } else { "not well-formed" });
    if want.ents > 2 {
        o.labels.push("more than two external entities");
    }
    match diff(&got, &want) {
        Some(x) => o.fail(x),
        None => o,
    }
}
fn canonical(env: &Env, t: &mut Tape) -> Out {
    of(env, t, 0)
}
fn copy(env: &Env, t: &mut Tape) -> Out {
    of(env, t, b'c')
}
fn meta(env: &Env, t: &mut Tape) -> Out {
    of(env, t, b'm')
}
/// The canonical form of documents with a known meaning means the same, and is its own canonical
/// form.
fn means(env: &Env, t: &mut Tape) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let mut opt = setup(t, 0);
    opt.ext = true;
    opt.pe = t.chance(1, 2);
    opt.ns = false;
    opt.notations = t.chance(1, 4);
    let (data, ents, text) = doc(t, &Prof { glitch: &[0], ns: 1, ..P });
    place(t, &d, "f", &data, &ents);
    let mut args = arguments(t, &opt);
    args.push("f".to_string());
    o.hash = fnv(&data) ^ fnv(format!("{:?}", args).as_bytes());
    if env.describe {
        o.desc = desc_run(&args, &[("f".to_string(), text)], "");
        predesc(env, &o.desc);
    }
    let a = match command(env, &d, &args, b"") {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    if a.code != 0 {
        o.labels.push("not well-formed");
        return o;
    }
    let first = &a.files["f"];
    o.nontrivial = first.len() > 12;
    // what the reference reports of both: elements, attributes, text, instructions
    let see = |data: &B, orig: bool| -> Vec<Rec> {
        let mut cfg = Cfg { h: H_ELEM | H_TEXT | H_PI | H_EXT, pe: if orig && opt.pe { 2 } else { 0 }, ..Cfg::default() };
        for (s, _) in &ents {
            if let Ok(b) = std::fs::read(d.0.join(s)) {
                cfg.ents.push(ExtEnt { sys: s.clone(), data: b, enc: None, feeds: one_feed(), mode: 1 });
            }
        }
        let l = if super::c22::differs(data, &ents) { env.rx() } else { env.rf() };
        let tr = run(l, &cfg, data, &one_feed());
        merge_recs(tr.recs.into_iter().filter(|r| !matches!(r.ev, Ev::ExtRef { .. } | Ev::Api(_))).map(|r| Rec { level: 0, ..r }).collect::<Vec<_>>())
            .into_iter()
            .map(|mut r| {
                r.level = 0;
                if let Ev::Start { atts, nspec, id, .. } = &mut r.ev {
                    atts.sort();
                    *nspec = 0;
                    *id = 0;
                }
                r
            })
            .collect()
    };
    if !opt.notations {
        if let Some(x) = diff_recs(&see(&data, true), "the document", &see(first, false), "its canonical form") {
            return o.fail(x);
        }
    }
    let sys_quote = opt.notations && first.windows(11).any(|w| w == b"<!NOTATION ") && String::from_utf8_lossy(first).lines().any(|l| l.starts_with("<!NOTATION") && l.matches('\'').count() % 2 == 1);
    let names: Vec<String> = String::from_utf8_lossy(first).lines().filter(|l| l.starts_with("<!NOTATION ")).map(|l| l.split(' ').nth(1).unwrap().to_string()).collect();
    if sys_quote || names.windows(2).any(|w| w[0] == w[1]) {
        // an apostrophe in a literal, or two of one name, in no particular order
        o.discard = true;
        return o;
    }
    d.write("f", first);
    let b = match command(env, &d, &args, b"") {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    if b.code != 0 || !b.stdout.is_empty() || b.files.get("f") != Some(first) {
        return o.fail(format!("the canonical form {} of the canonical form {} ({}, {})", b.files.get("f").map_or("none".to_string(), |f| show(f)), show(first), b.code, show(&b.stdout)));
    }
    o
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "more than twenty bytes are written (twelve where a form is read again)",
        libs: Libs::Bins,
        assumptions: &["the reference library reports what documents mean; for the list of events, which shows how text is split up, the library itself does"],
        subs: vec![
            Sub { name: "canonical", kind: Kind::Random { words: 500, quick: 5000, thorough: 300000 }, f: canonical },
            Sub { name: "copy", kind: Kind::Random { words: 500, quick: 2000, thorough: 200000 }, f: copy },
            Sub { name: "meta", kind: Kind::Random { words: 500, quick: 5000, thorough: 300000 }, f: meta },
            Sub { name: "tree", kind: Kind::Random { words: 200, quick: 6000, thorough: 300000 }, f: tree },
            Sub { name: "means", kind: Kind::Random { words: 500, quick: 1500, thorough: 150000 }, f: means },
        ],
    }
}
