//! Elements and attributes as written.
use super::common::*;
use super::*;
use std::collections::HashSet;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 3);
    let long = t.chance(1, 8);
    model_check(env, t, MOpts { ns, long, dtd: false, items: 12, depth: 8, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(env, t, |f| f.0 == c01::At::Content && (f.1.starts_with("<a") || f.1.starts_with("</") || f.1.starts_with("<1") || f.1.starts_with("< ")) && f.3 != c01::Need::Ns, &[0, 1])
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 10);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], dtd: false, ext: false, feeds: true, encs: true, pos: true, depth: 9, big, ..PROF })
}

/// Any number of attributes, then elements with fewer or more.
fn attrs(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    let els = t.range(1, 5);
    let ns = t.chance(1, 3);
    let mut text = String::from("<root>");
    let mut exp = vec![rec0(Ev::Start { name: b"root".to_vec(), atts: vec![], nspec: 0, id: -1 })];
    let mut err = 0;
    let dupat = if t.chance(1, 4) { t.below(els) } else { usize::MAX };
    let style = t.below(4);
    for e in 0..els {
        let n = match t.below(6) {
            0 => t.below(4),
            1 => 15 + t.below(4),
            2 => (1 << t.below(9)) + t.below(3),
            3 => t.below(300),
            _ => t.below(40),
        };
        let name = rname(&mut r, 1 + e);
        let mut seen = HashSet::new();
        let mut atts: Vec<(String, String)> = vec![];
        while atts.len() < n {
            let a = match style {
                0 => format!("a{}", atts.len()),
                1 => {
                    let l = 1 + r.below(3);
                    rname(&mut r, l)
                }
                2 => {
                    let l = rlen(&mut r, 300);
                    format!("{}{}", rname(&mut r, l), atts.len())
                }
                _ => format!("{}{}", "n".repeat(1 + atts.len() % 7), atts.len()),
            };
            if a.starts_with("xml") || !seen.insert(a.clone()) {
                if style == 1 && seen.len() > 200 {
                    break;
                }
                continue;
            }
            let l = rlen(&mut r, if n > 20 { 60 } else { 2500 });
            let v: String = (0..l).map(|_| ['v', ' ', 'é', '日', '>', '\'', '𝒳'][r.below(7)]).collect();
            atts.push((a, v));
        }
        text += &format!("<{}", name);
        for (i, (a, v)) in atts.iter().enumerate() {
            text += &format!("{}{}=\"{}\"", if r.below(9) == 0 { "\n\t" } else { " " }, a, v);
            if dupat == e && i == atts.len() / 2 {
                let k = r.below(i + 1);
                // again, possibly after some more
                let d = format!(" {}='again'", atts[k].0);
                text += &d;
                err = 8;
            }
        }
        if err != 0 {
            text += "/></root>";
            break;
        }
        let ev = Ev::Start {
            name: name.clone().into_bytes(),
            atts: atts.iter().map(|(a, v)| (a.clone().into_bytes(), v.clone().into_bytes())).collect(),
            nspec: atts.len() as i32 * 2,
            id: -1,
        };
        exp.push(rec0(ev));
        exp.push(rec0(Ev::End(name.clone().into_bytes())));
        if r.below(2) == 0 {
            text += "/>";
        } else {
            text += &format!("></{}>", name);
        }
    }
    if err == 0 {
        text += "</root>";
        exp.push(rec0(Ev::End(b"root".to_vec())));
    }
    let mut cfg = Cfg { ns: if ns { Some('|') } else { None }, salt: t.u32() as u64, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = true;
    out.labels.push(if err == 0 { "distinct attributes" } else { "attribute twice" });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}
/// Random trees with names of all lengths; one end tag may be wrong.
fn tree(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    let n = t.range(1, 80);
    let maxl = [4, 40, 3000][t.below(3)];
    let wrong = if t.chance(1, 4) { t.below(n) } else { usize::MAX };
    let mut open: Vec<String> = vec![];
    let mut text = String::new();
    let mut exp = vec![];
    let mut err = 0;
    let mut opened = 0;
    let mut closed = 0;
    loop {
        if opened < n && (open.is_empty() || r.below(5) < 3) && (opened == 0 || !open.is_empty()) {
            let l = 1 + rlen(&mut r, maxl);
            let nm = if opened > 0 && r.below(3) == 0 { open.last().unwrap().clone() } else { rname(&mut r, l) };
            exp.push(rec0(Ev::Start { name: nm.clone().into_bytes(), atts: vec![], nspec: 0, id: -1 }));
            opened += 1;
            if open.is_empty() || r.below(5) > 0 {
                text += &format!("<{}{}>", nm, ["", " ", "\r\n"][r.below(3)]);
                open.push(nm);
            } else {
                text += &format!("<{}{}/>", nm, ["", " "][r.below(2)]);
                exp.push(rec0(Ev::End(nm.into_bytes())));
            }
        } else {
            let nm = open.pop().unwrap();
            if closed == wrong {
                err = 7;
                let mut w: Vec<char> = nm.chars().collect();
                match r.below(4) {
                    0 => {
                        let k = r.below(w.len());
                        w[k] = if w[k] == 'y' { 'x' } else { 'y' };
                    }
                    1 => w.push('1'),
                    2 if w.len() > 1 => {
                        w.pop();
                    }
                    _ => w.insert(0, 'q'),
                }
                text += &format!("</{}>", w.into_iter().collect::<String>());
                break;
            }
            closed += 1;
            text += &format!("</{}{}>", nm, ["", " ", "\n"][r.below(3)]);
            exp.push(rec0(Ev::End(nm.into_bytes())));
        }
        if open.is_empty() {
            break;
        }
    }
    let mut cfg = Cfg::default();
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = opened > 2;
    out.labels.push(if err == 0 { "properly nested" } else { "wrong end tag" });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a case counts when the document has several elements or attributes, or a fault among them",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "attrs", kind: Kind::Random { words: 60, quick: 8000, thorough: 200000 }, f: attrs },
            Sub { name: "tree", kind: Kind::Random { words: 30, quick: 30000, thorough: 500000 }, f: tree },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 30000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 450, quick: 60000, thorough: 1500000 }, f: diff },
        ],
    }
}
