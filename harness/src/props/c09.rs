//! External entities, parameter entities, standalone rules, conditional sections.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 3);
    let skips = t.chance(1, 4);
    model_check(env, t, MOpts { ns, decls: 12, skips, items: 8, depth: 4, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(env, t, |f| f.3 == c01::Need::Pe || f.1.contains('%') || f.1.starts_with("<!["), &[5, 6, 6])
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: false, depth: 3, hopt: H_NOTSA, ret0: true, ext_modes: true, base: true, pos: true, ..PROF })
}
fn diffmask(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[0, 25], depth: 2, h: H_ELEM | H_TEXT, hopt: H_ALL & !H_UNKENC, ret0: true, ext_modes: true, defaults: 3, ..PROF })
}

/// Every combination of the settings that decide what is read, offered and skipped.
fn matrix(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut i = t.u32() as usize;
    let mut dig = |n: usize| {
        let d = i % n;
        i /= n;
        d
    };
    let sa = dig(3);
    let doctype = dig(4);
    let pe = dig(3);
    let notsa = dig(3);
    let peref = dig(9);
    let eref = dig(9);
    let skipped = dig(2);
    let ext = dig(4);
    let foreign = dig(2);
    let dflt = dig(3);
    // the subset's own reference to the parameter entity, and whether only that one is left unread
    let inner = dig(3);
    let unread = dig(2);
    // where an attribute default refers to an entity that may not be declared
    let inatt = dig(5);
    let mut text = String::new();
    text += ["", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>"][sa];
    let (att0, att1, att2, att3) = [
        ("", "", "", ""),
        ("<!ATTLIST a e CDATA 'x&nope;y'>", "", "", ""),
        ("", "<!ATTLIST a e CDATA \"x&#38;nope;y\">", "", ""),
        ("", "", "<!ATTLIST a e CDATA 'x&fromi;y'>", ""),
        ("", "", "", "<!ATTLIST a e CDATA 'x&nope;y'>"),
    ][inatt];
    let i = format!("<!ENTITY % i '<!ENTITY fromi \"fi\">{}'>%i;", att1);
    let sub = format!(
        "<!ENTITY known 'k'><!ENTITY wrap '[&fromi;]'><!ENTITY un '(&nosuch;)'>{}{}{}<!ENTITY late 'l'><!ATTLIST a d CDATA 'x'>",
        att0,
        ["", i.as_str(), "<!ENTITY % x SYSTEM 'pe.ent'>%x;", "%undecl;", "<!ENTITY % i ''><!ENTITY % x PUBLIC 'p' 'pe.ent'>%i;%x;",
            // in another: one not declared, one declared, itself, one within a declaration
            "<!ENTITY % i '<!ENTITY fromi \"fi\">&#37;nope;<!ENTITY extgen \"eg\">'>%i;",
            "<!ENTITY % i '<!ENTITY &#37; q \"<?q?>\"><!ENTITY fromi \"fi\">'>%i;%q;",
            "<!ENTITY % i '<!ENTITY fromi \"fi\">&#37;i;'>%i;",
            "<!ENTITY % j 'CDATA'><!ENTITY % i '<!ATTLIST a j &#37;j; \"v\">'>%i;"][peref],
        att2
    );
    match doctype {
        0 => {}
        1 => text += &format!("<!DOCTYPE a [{}]>", sub),
        2 => text += "<!DOCTYPE a SYSTEM 'sub.dtd'>",
        _ => text += &format!("<!DOCTYPE a PUBLIC 'pub' 'sub.dtd' [{}]>", sub),
    }
    text += &format!("<a>{}</a>", ["", "&nosuch;", "<b c='&nosuch;'/>", "&fromsub;&known;&late;", "<b c='&frompe;&known;'/>", "&fromi;&extgen;", "&wrap;", "&un;", "<b c='&wrap;' e='&un;'/>"][eref]);
    let mut cfg = Cfg { h: H_ELEM | H_TEXT | H_ENTITY | H_ATTLIST | H_DOCTYPE, pe: pe as u8, foreign: foreign == 1, ..Cfg::default() };
    if notsa > 0 {
        cfg.h |= H_NOTSA;
        cfg.ns_ret = notsa as i32 - 1;
    }
    if skipped == 1 {
        cfg.h |= H_SKIPPED;
    }
    if ext > 0 {
        cfg.h |= H_EXT;
    }
    cfg.h |= [0, H_DEFAULT, H_DEFEXPAND][dflt];
    let mode = [1, 1, 0, 2][ext];
    let inner = ["", "<!ENTITY % u SYSTEM 'pe.ent'><!ENTITY v 'a%u;b'>", "<!ENTITY % u SYSTEM 'pe.ent'>%u;"][inner];
    let e = |s: &str, d: &str| ExtEnt { sys: s.into(), data: d.as_bytes().to_vec(), enc: None, feeds: one_feed(), mode };
    cfg.ents = vec![
        e("sub.dtd", &format!("{}{}<!ENTITY fromsub 's'><!ENTITY extgen SYSTEM 'gen.ent'><!ATTLIST a s CDATA 'y'><!ATTLIST a d CDATA 'z'>", att3, inner)),
        e("pe.ent", "<!ENTITY frompe 'p'><!ATTLIST b q CDATA 'w'>"),
        e("gen.ent", "g<b/>"),
        e("", "<!ENTITY fromsub 'f'><!ATTLIST a f CDATA 'g'>"),
    ];
    if unread == 1 {
        cfg.ents[1].mode = 2;
    }
    cfg.pos = true;
    out.hash = fnv(text.as_bytes()) ^ fnv(cfg.ents[0].data.as_slice()).rotate_left(7) ^ (unread as u64) << 60 ^ (cfg.h as u64) << 32 ^ (pe * 17 + foreign * 5 + mode as usize * 3 + notsa) as u64;
    out.nontrivial = true;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &[]);
        predesc(env, &out.desc);
    }
    // the foreign DTD has no system identifier
    let a = run(env.rx(), &cfg, text.as_bytes(), &one_feed());
    let b = run(env.rf(), &cfg, text.as_bytes(), &one_feed());
    match same(&a, "rexpat", &b, "libexpat").or(bad(&a)) {
        Some(d) => out.fail(d),
        None => out,
    }
}
const MATRIX: usize = 3 * 4 * 3 * 3 * 9 * 9 * 2 * 4 * 2 * 3 * 3 * 2 * 5;

/// Conditional sections nested at random, in the external subset or a parameter entity.
fn conditional(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut exp: Vec<B> = vec![];
    let mut n = 0;
    fn section(t: &mut Tape, depth: usize, live: bool, n: &mut usize, exp: &mut Vec<B>) -> String {
        let mut s = String::new();
        for _ in 0..t.size(4) {
            match t.below(8) {
                0..=2 => {
                    *n += 1;
                    let d = format!("d{}", n);
                    s += &format!("<?p {}?>", d);
                    if live {
                        exp.push(d.into_bytes());
                    }
                }
                3 => s += ["\n", " ", "<!--]]>-->", "<!-- <![ -->"][if live { t.below(4) } else { t.below(2) }],
                4 if live => s += ["<!ENTITY x ']]>'>", "<!ENTITY y \"<![IGNORE[\">", "<!ELEMENT z ANY>"][t.below(3)],
                4 => s += ["<!", "]]", "]", "<!]", "&", "%", "'", "\"", "<?p", "<!--", "é", "日", "< !["][t.below(13)],
                _ if depth > 0 => {
                    let inc = t.chance(1, 2);
                    let sp = |t: &mut Tape| ["", " ", "\n", "\t "][t.below(4)];
                    let kw = match (live, t.below(4)) {
                        (true, 3) => ["%ig;", "%in;"][inc as usize],
                        (false, 2) => "x",
                        (false, 3) => "",
                        _ => ["IGNORE", "INCLUDE"][inc as usize],
                    };
                    s += &format!("<![{}{}{}[", if live { sp(t) } else { "" }, kw, if live { sp(t) } else { "" });
                    let mut inner = section(t, depth - 1, live && inc, n, exp);
                    if !(live && inc) {
                        // (brackets in front of the end are part of what is ignored)
                        inner += ["", "", "]", "]]", "]]]]"][t.below(5)];
                    }
                    s += &inner;
                    s += "]]>";
                }
                _ => s += " ",
            }
        }
        s
    }
    let depth = t.range(1, 5);
    let body = section(t, depth, true, &mut n, &mut exp);
    let unclosed = t.chance(1, 8);
    let dtd = format!("<!ENTITY % ig 'IGNORE'><!ENTITY % in 'INCLUDE'>{}{}", body, if unclosed { ["<![INCLUDE[", "<![IGNORE[", "<![INCLUDE[ <?q x?>", "<![IGNORE[ <![x]]>"][t.below(4)] } else { "" });
    let mut cfg = Cfg { h: H_PI | H_EXT | H_ELEM, pe: 2, ..Cfg::default() };
    let viape = t.chance(1, 3);
    let text = if viape { "<!DOCTYPE a [<!ENTITY % p SYSTEM 's'>%p;]><a/>" } else { "<!DOCTYPE a SYSTEM 's'><a/>" };
    let (_, data) = {
        let mut c2 = Cfg::default();
        let (e, d) = some_enc(t, &dtd, &mut c2);
        cfg.ents.push(ExtEnt { sys: "s".into(), enc: c2.enc, feeds: gen_feeds(t, d.len()), data: d.clone(), mode: 1 });
        (e, d)
    };
    out.hash = fnv(&data);
    out.nontrivial = body.contains("<![");
    if env.describe {
        out.desc = desc_case(&cfg, text, &one_feed());
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, text.as_bytes(), &one_feed());
    let got: Vec<B> = a.recs.iter().filter_map(|r| if let Ev::Pi(t, d) = &r.ev { if t == b"p" { Some(d.clone()) } else { None } } else { None }).collect();
    let want = if unclosed { (0, 21) } else { (1, 0) };
    if (a.status, a.err) != want {
        let child: Vec<String> = a.recs.iter().filter_map(|r| if let Ev::Api(s) = &r.ev { Some(s.clone()) } else { None }).collect();
        return out.fail(format!("status {} error {} where error {} was expected ({:?})", a.status, a.err, want.1, child));
    }
    if unclosed {
        // the error is reported by the parser of the entity
        let e = a.recs.iter().find_map(|r| if let Ev::Api(s) = &r.ev { Some(s.clone()) } else { None }).unwrap_or_default();
        if !(e.contains("err=2 ") || e.contains("err=20 ") || e.contains("err=5 ") || e.contains("err=29 ")) {
            return out.fail(format!("unclosed section: {}", e));
        }
    }
    if got != exp {
        return out.fail(format!("instructions seen: {:?}, expected {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>(), exp.iter().map(|x| show(x)).collect::<Vec<_>>()));
    }
    match bad(&a) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// The text of an external parameter entity that an entity value refers to: read as a whole, however
/// it comes, and part of the value; an element is an error.
fn valuetext(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut body = String::new();
    let mut want = String::new();
    let mut err_at = None;
    let n = t.size(12);
    for _ in 0..n {
        let k = t.below(36);
        let (s, v) = match k {
            0 => ("\r\n", "\n"),
            1 => ("\r", "\n"),
            2 => ("'&#65;&#x42;'", "'AB'"),
            3 => ("\"&amp;&e;\"", "\"&amp;&e;\""),
            4 => ("<!-- '<a> -->", "<!-- '<a> -->"),
            5 => ("<?p <a?>", "<?p <a?>"),
            6 => ("<!ELEMENT e (a|b)*>", "<!ELEMENT e (a|b)*>"),
            7 => ("'<a/>'", "'<a/>'"),
            8 => ("<![CDATA[", "<![CDATA["),
            9 => ("]]>", "]]>"),
            10 => ("\"\r\n\r\"", "\"\n\n\""),
            11 => ("é", "é"),
            12 => ("日本", "日本"),
            13 => ("'𝒳'", "'𝒳'"),
            14 => ("#PCDATA", "#PCDATA"),
            15 => ("a:b", "a:b"),
            16 => ("<a/>", "!"),
            17 => ("<:>", "!"),
            18 => ("<é", "!"),
            _ => ["name", "\n", "(", ")", "|", ",", "[", "]", ">", "x-y.z", "12", "\t", "''", "<!ENTITY", "(a)*", "b?", "c+"].map(|x| (x, x))[k - 19],
        };
        if v == "!" && err_at.is_none() {
            err_at = Some(body.chars().count());
        }
        body += s;
        want += v;
        body += " ";
        want += " ";
    }
    // a CR LF made of two pieces cannot come about: each is followed by a space
    let mut cfg = Cfg { h: H_EXT | H_ELEM | H_ENTITY, pe: 2, pos: true, ..Cfg::default() };
    let decl = t.chance(1, 3);
    let decls = ["<?xml version='1.0' encoding='UTF-8'?>", "<?xml encoding=\"utf-8\" ?>"];
    let (enc, data) = if decl {
        let d = decls[t.below(2)];
        let bom = if t.chance(1, 3) { "\u{feff}" } else { "" };
        let x = format!("{}{}{}", bom, d, body);
        (None, x.into_bytes())
    } else {
        let mut c2 = Cfg::default();
        let (_, d) = some_enc(t, &body, &mut c2);
        (c2.enc, d)
    };
    cfg.ents.push(ExtEnt { sys: "u".into(), enc, feeds: gen_feeds(t, data.len()), data: data.clone(), mode: 1 });
    let sub = ["<!ENTITY v 'a%u;b'><!ENTITY w \"c\">", "<!ENTITY % v '%u;'>", "<!ENTITY v ' %u;%u;'>"];
    let form = t.below(3);
    let sub = sub[form];
    cfg.ents.push(ExtEnt { sys: "s".into(), enc: None, feeds: gen_feeds(t, sub.len()), data: sub.as_bytes().to_vec(), mode: 1 });
    let text = "<!DOCTYPE d SYSTEM 's' [<!ENTITY % u SYSTEM 'u'>]><d/>";
    out.hash = fnv(&data) ^ form as u64;
    out.nontrivial = n > 1;
    if env.describe {
        out.desc = desc_case(&cfg, text, &one_feed());
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, text.as_bytes(), &one_feed());
    let exp = if err_at.is_some() { (0, 21) } else { (1, 0) };
    let child: Vec<String> = a.recs.iter().filter_map(|r| if let Ev::Api(s) = &r.ev { Some(s.clone()) } else { None }).collect();
    if (a.status, a.err) != exp {
        return out.fail(format!("status {} error {} where error {} was expected ({:?})", a.status, a.err, exp.1, child));
    }
    if err_at.is_some() {
        if !child.iter().any(|s| s.contains("err=2 ")) {
            return out.fail(format!("an element in a declaration: {:?}", child));
        }
    } else {
        let v = [format!("a{}b", want), want.clone(), format!(" {}{}", want, want)][form].clone();
        let got: Vec<B> = a.recs.iter().filter_map(|r| if let Ev::Entity { name, value: Some(v), .. } = &r.ev { if name == b"v" { Some(v.clone()) } else { None } } else { None }).collect();
        if got != [v.as_bytes().to_vec()] {
            return out.fail(format!("the value is {:?}, expected {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>(), v));
        }
    }
    match bad(&a) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case counts when external or parameter entities, conditional sections or their settings are involved and several events are reported",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "matrix", kind: Kind::Each { of: MATRIX, quick: MATRIX / 40, thorough: MATRIX }, f: matrix },
            Sub { name: "conditional", kind: Kind::Random { words: 100, quick: 40000, thorough: 1000000 }, f: conditional },
            Sub { name: "valuetext", kind: Kind::Random { words: 80, quick: 30000, thorough: 800000 }, f: valuetext },
            Sub { name: "model", kind: Kind::Random { words: 500, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 20000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: diff },
            Sub { name: "diffmask", kind: Kind::Random { words: 450, quick: 40000, thorough: 1500000 }, f: diffmask },
        ],
    }
}
