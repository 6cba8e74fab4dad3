//! Internal general entities.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 3);
    let long = t.chance(1, 12);
    model_check(env, t, MOpts { ns, long, decls: 14, items: 12, depth: 5, ext: false, pes: false, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn modelx(env: &Env, t: &mut Tape) -> Out {
    model_check(env, t, MOpts { decls: 10, items: 10, depth: 4, ..MOPTS }, Vary { feeds: true, encs: false, mask: true })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(env, t, |f| f.1.contains("undefd") || f.1.starts_with("<!ENTITY zz"), &[3, 3, 4, 4, 5])
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 12);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], ext: false, feeds: true, encs: true, depth: 5, big, pos: true, defaults: 4, ..PROF })
}

/// Entities that refer to one another at random: expansion, recursion, undeclared names.
fn graph(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    let n = t.range(1, 12);
    let cyc = t.chance(1, 3);
    let undef = t.chance(1, 6);
    let markup = t.chance(1, 3);
    let lt = t.chance(1, 12);
    // each entity: pieces (text or reference or element around)
    enum P {
        T(String),
        R(String),
        /// a character reference in the declaration: literal text later
        C(&'static str, &'static str),
        /// doubly escaped: becomes markup-free text when referenced
        E(&'static str, &'static str),
        El(String),
    }
    let name = |i: usize| -> String {
        if i % 3 == 0 {
            format!("e{}", i)
        } else {
            format!("entity.{}{}", "x".repeat(i * 5 % 40), i)
        }
    };
    let mut ents: Vec<Vec<P>> = vec![];
    let chain = t.chance(1, 4);
    for i in 0..n {
        let mut v = vec![];
        for _ in 0..t.size(5) {
            v.push(match t.below(9) {
                0 | 1 => {
                    let l = rlen(&mut r, 1500);
                    P::T((0..l).map(|_| ['x', 'é', '日', ' ', '>', '𝒳', '\n'][r.below(7)]).collect())
                }
                2 => P::C(["&#65;", "&#xe9;", "&#x1D4B3;"][t.below(3)], ["A", "é", "𝒳"][0]),
                3 => P::E(["&amp;", "&#38;lt;", "&#38;#60;", "&#38;#38;", "&gt;"][t.below(5)], ""),
                4 if markup => P::El(["b", "c"][t.below(2)].to_string()),
                5 if undef => P::R("nosuch".into()),
                6 if lt => P::T("&#60;".into()),
                _ => {
                    let j = if cyc { t.below(n) } else if i == 0 { continue } else { t.below(i) };
                    P::R(name(j))
                }
            });
        }
        if chain && i > 0 {
            v = vec![P::T("(".into()), P::R(name(i - 1)), P::T(")".into())];
        }
        ents.push(v);
    }
    let mut dtd = String::new();
    for i in 0..n {
        let mut s = String::new();
        for p in &ents[i] {
            match p {
                P::T(x) => s += x,
                P::R(x) => s += &format!("&{};", x),
                P::C(x, _) | P::E(x, _) => s += x,
                P::El(x) => s += &format!("<{}>y</{}>", x, x),
            }
        }
        dtd += &format!("<!ENTITY {} \"{}\">", name(i), s);
        if t.chance(1, 8) {
            // the first declaration counts
            dtd += &format!("<!ENTITY {} 'again'>", name(i));
        }
    }
    // expansion
    #[derive(Clone, Copy, PartialEq)]
    enum E {
        Rec,
        Undef,
        Lt,
        Big,
    }
    enum O {
        T(String),
        El(String),
    }
    fn expand(ents: &Vec<Vec<P>>, names: &Vec<String>, i: usize, stack: &mut Vec<usize>, out: &mut Vec<O>, att: bool, budget: &mut usize) -> Result<(), E> {
        if stack.contains(&i) {
            return Err(E::Rec);
        }
        stack.push(i);
        for p in &ents[i] {
            if *budget == 0 {
                return Err(E::Big);
            }
            *budget -= 1;
            match p {
                P::T(x) if x == "&#60;" => return Err(E::Lt),
                P::T(x) => {
                    *budget = budget.saturating_sub(x.len() / 8);
                    out.push(O::T(x.clone()))
                }
                P::C(x, _) => out.push(O::T(match *x {
                    "&#65;" => "A".into(),
                    "&#xe9;" => "é".into(),
                    _ => "𝒳".into(),
                })),
                P::E(x, _) => out.push(O::T(match *x {
                    "&amp;" | "&#38;#38;" => "&".into(),
                    "&gt;" => ">".into(),
                    _ => "<".into(),
                })),
                P::El(x) => {
                    if att {
                        return Err(E::Lt);
                    }
                    out.push(O::El(x.clone()))
                }
                P::R(x) => match names.iter().position(|y| y == x) {
                    None => return Err(E::Undef),
                    Some(j) => expand(ents, names, j, stack, out, att, budget)?,
                },
            }
        }
        stack.pop();
        Ok(())
    }
    let names: Vec<String> = (0..n).map(name).collect();
    let mut exp: Vec<Rec> = vec![];
    let st = |n: &str, atts: Vec<(B, B)>, k| rec0(Ev::Start { name: n.into(), atts, nspec: k, id: -1 });
    let mut text = String::new();
    let mut err = 0;
    let k = n - 1 - t.below(n.min(3));
    let code = |e: E| match e {
        E::Rec => 12,
        E::Undef => 11,
        E::Lt => 4,
        E::Big => 99,
    };
    let where_ = t.below(4);
    let mut budget = 6000;
    let flat = |o: &Vec<O>| -> String {
        o.iter()
            .map(|x| match x {
                O::T(s) => s.clone(),
                O::El(_) => String::new(),
            })
            .collect()
    };
    match where_ {
        0 | 1 => {
            text += "<a>";
            exp.push(st("a", vec![], 0));
            let times = t.range(1, 3);
            for _ in 0..times {
                text += &format!("s&{};", names[k]);
                let mut o = vec![];
                let e = expand(&ents, &names, k, &mut vec![], &mut o, false, &mut budget);
                exp.push(rec0(Ev::Text(b"s".to_vec())));
                for x in o {
                    match x {
                        O::T(s) if s.is_empty() => {}
                        O::T(s) => exp.push(rec0(Ev::Text(s.into_bytes()))),
                        O::El(s) => {
                            exp.push(st(&s, vec![], 0));
                            exp.push(rec0(Ev::Text(b"y".to_vec())));
                            exp.push(rec0(Ev::End(s.into_bytes())));
                        }
                    }
                }
                if let Err(e) = e {
                    err = code(e);
                    break;
                }
            }
            text += "</a>";
            if err == 0 {
                exp.push(rec0(Ev::End(b"a".to_vec())));
            }
        }
        x => {
            let mut o = vec![];
            match expand(&ents, &names, k, &mut vec![], &mut o, true, &mut budget) {
                Err(e) => err = code(e),
                Ok(()) => {
                    let v = format!("s{}t", flat(&o).replace('\n', " "));
                    exp.push(st("a", vec![(b"v".to_vec(), v.into_bytes())], if x == 2 { 2 } else { 0 }));
                    exp.push(rec0(Ev::End(b"a".to_vec())));
                }
            }
            if x == 2 {
                text += &format!("<a v='s&{};t'/>", names[k]);
            } else {
                text += "<a/>";
                dtd += &format!("<!ATTLIST a v CDATA 's&{};t'>", names[k]);
            }
        }
    }
    if err == 99 || text.contains("]]>") || dtd.contains("]]>") {
        out.discard = true;
        return out;
    }
    // "<" as literal text in content begins a tag: many outcomes
    if err == 4 && where_ < 2 {
        out.discard = true;
        return out;
    }
    let text = format!("<!DOCTYPE a [{}]>{}", dtd, text);
    let exp = merge_recs(exp);
    // "]]" + ">" may come together only through expansion; keep that out
    let mut cfg = Cfg { h: H_ELEM | H_TEXT, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = true;
    out.labels.push(match err {
        0 => "accepted",
        11 => "undeclared",
        12 => "recursive",
        _ => "markup in an attribute value",
    });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// Entities whose text does not fit: pieces of markup, tags that do not match.
fn crossing(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    const BODY: &[(&str, u32)] = &[
        ("<b>", 13), ("</a>", 13), ("x</a>", 13), ("<b></b><c>", 13), ("<b><c></b></c>", 7), ("<b></c>", 7), ("<b", 5), ("<b x='1'", 5), ("&#38;x", 5), ("<!--x", 5),
        ("<!--x--", 5), ("<?p", 5), ("<![CDATA[x", 20), ("<![CDATA[", 20), ("<", 5), ("&#38;", 5), ("]]>", 4), ("<b/><b></b>", 0), ("<?p x?>", 0), ("<!--x-->", 0), ("<![CDATA[</a>]]>", 0), ("]]", 0), ("", 0),
        ("&#38;#60;/a>", 0), ("<b>&#38;amp;</b>", 0), ("\u{1}", 4), ("&#60;b/>", 0), ("&#60;/a>", 13), ("<!DOCTYPE a>", 4), ("&#38;#0;", 14), ("<?xml version='1.0'?>", 17),
    ];
    let (b, err) = BODY[t.below(BODY.len())];
    let depth = t.below(4);
    let pre = ["", "t", "<x/>", "<!--c-->"][t.below(4)];
    let post = ["", "t", "<x/>", "<b/></b>"][t.below(4)];
    // "]]>" may be split by nothing; text after "]]" must not start with ">"
    let mut dtd = format!("<!ENTITY e0 \"{}\">", b);
    for i in 1..=depth {
        dtd += &format!("<!ENTITY e{} '{}&e{};{}'>", i, ["", "v", "<y/>"][t.below(3)], i - 1, ["", "w", "<z/>"][t.below(3)]);
    }
    let text = format!("<!DOCTYPE a [{}]><a>{}&e{};{}</a>", dtd, pre, depth, post);
    if b.contains('\u{1}') {
        // rejected in the declaration already
        out.labels.push("rejected in the declaration");
    }
    let want = if err == 0 && post == "<b/></b>" { 7 } else { err };
    let want = if b == "<?xml version='1.0'?>" && depth == 0 { 17 } else { want };
    let mut cfg = Cfg { h: H_ELEM | H_TEXT, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = gen_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = true;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, &data, &feeds);
    let st = (want == 0) as u32;
    if (a.status, a.err) != (st, want) {
        return out.fail(format!("status {} error {} where error {} was expected", a.status, a.err, want));
    }
    let rf = run(env.rf(), &cfg, &data, &feeds);
    match same(&a, "rexpat", &rf, "libexpat").or(bad(&a)) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a case counts when at least one entity is declared and referenced, or more than three events are reported",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "graph", kind: Kind::Random { words: 150, quick: 60000, thorough: 1500000 }, f: graph },
            Sub { name: "crossing", kind: Kind::Random { words: 40, quick: 30000, thorough: 300000 }, f: crossing },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "modelx", kind: Kind::Random { words: 550, quick: 30000, thorough: 1000000 }, f: modelx },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 20000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 50000, thorough: 1500000 }, f: diff },
        ],
    }
}
