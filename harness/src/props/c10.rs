//! Declarations.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 4);
    let long = t.chance(1, 12);
    model_check(env, t, MOpts { ns, long, decls: 16, items: 3, depth: 2, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn modelmask(env: &Env, t: &mut Tape) -> Out {
    model_check(env, t, MOpts { decls: 12, items: 2, depth: 1, ..MOPTS }, Vary { feeds: true, encs: false, mask: true })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(env, t, |f| f.0 == c01::At::Subset || f.0 == c01::At::Prolog, &[7, 8])
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 12);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: true, depth: 1, base: true, big, hopt: H_NOTSA, ..PROF })
}

/// Content models of all shapes.
fn models(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    fn sp(r: &mut Rng) -> &'static str {
        ["", "", "", " ", "\n", "\t", "  "][r.below(7)]
    }
    const Q: [&str; 4] = ["", "?", "*", "+"];
    fn name(r: &mut Rng) -> String {
        let l = if r.below(30) == 0 { 600 } else { 1 + r.below(5) };
        rname(r, l)
    }
    fn part(r: &mut Rng, depth: usize, budget: &mut usize) -> (String, Model) {
        let q = r.below(4);
        if depth == 0 || *budget == 0 || r.below(3) == 0 {
            let n = name(r);
            return (format!("{}{}", n, Q[q]), Model { typ: 4, quant: q as u32, name: Some(n.into_bytes()), kids: vec![] });
        }
        group(r, depth, budget, q)
    }
    fn group(r: &mut Rng, depth: usize, budget: &mut usize, q: usize) -> (String, Model) {
        let n = match r.below(6) {
            0 => 1,
            1..=3 => 1 + r.below(4),
            4 => 1 + r.below(12),
            _ => 1 + r.below((*budget).min(300) + 1),
        };
        let choice = r.below(2) == 0;
        let mut s = format!("({}", sp(r));
        let mut kids = vec![];
        for i in 0..n {
            *budget = budget.saturating_sub(1);
            if i > 0 {
                s += &format!("{}{}{}", sp(r), if choice { "|" } else { "," }, sp(r));
            }
            let (x, m) = part(r, depth - 1, budget);
            s += &x;
            kids.push(m);
        }
        s += &format!("{}){}", sp(r), Q[q]);
        // a single part makes a sequence
        (s, Model { typ: if choice && n > 1 { 5 } else { 6 }, quant: q as u32, name: None, kids })
    }
    let mut text = String::from("<!DOCTYPE a [");
    let mut exp = vec![];
    for _ in 0..t.range(1, 5) {
        let el = name(&mut r);
        let (src, m) = match t.below(8) {
            0 => ("EMPTY".to_string(), Model { typ: 1, quant: 0, name: None, kids: vec![] }),
            1 => ("ANY".to_string(), Model { typ: 2, quant: 0, name: None, kids: vec![] }),
            2 => {
                let star = t.chance(1, 2);
                (format!("({}#PCDATA{}){}", sp(&mut r), sp(&mut r), ["", "*"][star as usize]), Model { typ: 3, quant: star as u32 * 2, name: None, kids: vec![] })
            }
            3 => {
                let n = 1 + r.below(40);
                let mut s = format!("({}#PCDATA", sp(&mut r));
                let mut kids = vec![];
                for _ in 0..n {
                    let x = name(&mut r);
                    s += &format!("{}|{}{}", sp(&mut r), sp(&mut r), x);
                    kids.push(Model { typ: 4, quant: 0, name: Some(x.into_bytes()), kids: vec![] });
                }
                (s + sp(&mut r) + ")*", Model { typ: 3, quant: 2, name: None, kids })
            }
            _ => {
                let depth = [1, 2, 3, 5, 9, 40][t.below(6)];
                let q = r.below(4);
                let mut budget = [4, 30, 400][t.below(3)];
                group(&mut r, depth, &mut budget, q)
            }
        };
        text += &format!("<!ELEMENT {} {}{}>", el, src, sp(&mut r));
        exp.push(rec0(Ev::Element { name: el.into_bytes(), model: m }));
    }
    text += "]><a/>";
    let mut cfg = Cfg { h: H_ELDECL, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = true;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err: 0 }) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// XML declarations: all that are correct, and ones that are wrong in one place.
fn xmldecl(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let q = |t: &mut Tape, s: &str| {
        let c = ['"', '\''][t.below(2)];
        format!("{}{}{}", c, s, c)
    };
    let sp = |t: &mut Tape| ["", "", " ", "\n", "\t", "\r\n"][t.below(6)];
    let s1 = |t: &mut Tape| [" ", "  ", "\n", "\t", "\r"][t.below(5)];
    let eq = |t: &mut Tape| format!("{}={}", sp(t), sp(t));
    // in a text declaration the version may be missing, the encoding not
    let textdecl = t.chance(1, 3);
    let versions = ["1.0", "1.1", "1", "2.0-beta_x", "1.0.0"];
    let encs = ["utf-8", "UTF-8", "Utf-8", "us-ascii", "US-ASCII", "iso-8859-1", "ISO-8859-1"];
    let ver = if textdecl && t.chance(1, 3) { None } else { Some(versions[t.below(5)]) };
    let enc = if textdecl || t.chance(1, 2) { Some(encs[t.below(7)]) } else { None };
    let sa = if textdecl || t.chance(1, 2) { -1 } else { t.below(2) as i32 };
    let mut s = String::from("<?xml");
    let v = ver.map(|v| format!("{}version{}{}", s1(t), eq(t), q(t, v)));
    let e = enc.map(|e| format!("{}encoding{}{}", s1(t), eq(t), q(t, e)));
    let a = if sa >= 0 { Some(format!("{}standalone{}{}", s1(t), eq(t), q(t, ["no", "yes"][sa as usize]))) } else { None };
    let mut err = 0;
    let wrong = t.chance(1, 3);
    let mut parts: Vec<String> = [v, e, a].iter().flatten().cloned().collect();
    if wrong {
        err = if textdecl { 31 } else { 30 };
        let k = t.below(parts.len());
        match t.below(7) {
            0 if parts.len() > 1 => parts.swap(0, 1),
            1 => {
                let x = parts[k].clone();
                parts.push(x);
            }
            // without white space the target is another one
            2 if k > 0 => parts[k] = parts[k].trim_start().to_string(),
            3 => parts[k] = parts[k].replace('=', ""),
            4 => {
                // the quotes do not match
                let c = parts[k].pop().unwrap();
                parts[k].push(if c == '"' { '\'' } else { '"' });
            }
            5 => parts.push(" foo='1'".into()),
            _ => {
                parts[k] = parts[k].to_uppercase();
            }
        }
    }
    for p in &parts {
        s += p;
    }
    s += sp(t);
    s += "?>";
    // text that goes wrong in ways that have another outcome
    if wrong && (s.contains("standalone=") && textdecl) {
        out.discard = true;
        return out;
    }
    let st = |n: &str| rec0(Ev::Start { name: n.into(), atts: vec![], nspec: 0, id: -1 });
    let decl = Ev::XmlDecl { version: ver.map(|v| v.into()), enc: enc.map(|e| e.into()), sa };
    let mut cfg = Cfg { h: H_ELEM | H_XMLDECL | H_EXT, ..Cfg::default() };
    let text;
    let mut exp = vec![];
    if textdecl {
        text = "<!DOCTYPE a [<!ENTITY e SYSTEM 's'>]><a>&e;</a>".to_string();
        let d = format!("{}<b/>", s);
        cfg.ents.push(ExtEnt { sys: "s".into(), enc: None, feeds: gen_feeds(t, d.len()), data: d.into_bytes(), mode: 1 });
        exp.push(st("a"));
        exp.push(rec0(Ev::ExtRef { ctx: Some(vec![b"e".to_vec()]), base: None, sys: Some(b"s".to_vec()), pubid: None }));
        exp.push(Rec { ev: decl, pos: None, level: 1 });
        for r in [st("b"), rec0(Ev::End(b"b".to_vec()))] {
            exp.push(Rec { level: 1, ..r });
        }
        exp.push(rec0(Ev::End(b"a".to_vec())));
    } else {
        text = format!("{}<a/>", s);
        exp.extend([rec0(decl), st("a"), rec0(Ev::End(b"a".to_vec()))]);
    }
    if wrong {
        exp.truncate(if textdecl { 2 } else { 0 });
    }
    let feeds = gen_feeds(t, text.len());
    out.hash = fnv(s.as_bytes()) ^ textdecl as u64;
    out.nontrivial = true;
    out.labels.push(if wrong { "wrong" } else { "correct" });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, text.as_bytes(), &feeds);
    if !wrong {
        return match check_exp(&a, &exp) {
            Some(d) => out.fail(d),
            None => out,
        };
    }
    let got = if textdecl {
        a.recs.iter().find_map(|r| if let Ev::Api(s) = &r.ev { Some(s.clone()) } else { None }).unwrap_or_default()
    } else {
        format!("ok=false err={} ", a.err)
    };
    if a.status != 0 || !got.contains(&format!("err={} ", err)) {
        return out.fail(format!("wrong declaration: status {}, {} where error {} was expected", a.status, got, err));
    }
    match diff_recs(&plain(&a), "rexpat", &exp, "expected before the error").or(bad(&a)) {
        Some(d) => out.fail(d),
        None => out,
    }
}

/// Entity values by their definition: character references and parameter-entity references replaced,
/// in the text of the parameter entities as well, general ones kept.
struct Vals<'a> {
    pes: Vec<(String, Result<String, usize>, bool)>,
    ents: &'a [(String, u8)],
    keep: bool,
    sa: bool,
    steps: usize,
    root: i32,
}
impl<'a> Vals<'a> {
    fn start(c: char) -> bool {
        c.is_ascii_alphabetic() || "é日_:".contains(c)
    }
    fn name(c: char) -> bool {
        Self::start(c) || c.is_ascii_digit() || ".-".contains(c)
    }
    fn raise(&mut self, e: i32) -> i32 {
        if self.root == 0 {
            self.root = e;
        }
        e
    }
    fn eval(&mut self, text: &str, out: &mut String) -> i32 {
        let c: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < c.len() {
            self.steps += 1;
            if self.steps > 20000 {
                return -1;
            }
            match c[i] {
                '&' | '%' => {
                    let pe = c[i] == '%';
                    let mut j = i + 1;
                    if !pe && c.get(j) == Some(&'#') {
                        let hex = c.get(j + 1) == Some(&'x');
                        j += if hex { 2 } else { 1 };
                        let from = j;
                        while j < c.len() && c[j].is_digit(if hex { 16 } else { 10 }) {
                            j += 1;
                        }
                        if j == from || c.get(j) != Some(&';') {
                            return self.raise(4);
                        }
                        let s: String = c[from..j].iter().collect();
                        let v = u32::from_str_radix(&s, if hex { 16 } else { 10 }).unwrap_or(0);
                        match char::from_u32(v) {
                            Some(x) if v >= 32 || v == 9 || v == 10 || v == 13 => out.push(x),
                            _ => return self.raise(14),
                        }
                        i = j + 1;
                        continue;
                    }
                    if !c.get(j).map_or(false, |x| Self::start(*x)) {
                        return self.raise(4);
                    }
                    while j < c.len() && Self::name(c[j]) {
                        j += 1;
                    }
                    if c.get(j) != Some(&';') {
                        return self.raise(4);
                    }
                    let n: String = c[i + 1..j].iter().collect();
                    i = j + 1;
                    if !pe {
                        *out += &format!("&{};", n);
                        continue;
                    }
                    let k = match self.pes.iter().position(|p| p.0 == n) {
                        Some(k) => k,
                        None => {
                            // what it stands for is not known, so neither is the rest
                            self.keep = self.sa;
                            return 0;
                        }
                    };
                    if self.pes[k].2 {
                        return self.raise(12);
                    }
                    self.pes[k].2 = true;
                    let e = match self.pes[k].1.clone() {
                        Ok(text) => self.eval(&text, out),
                        Err(x) => {
                            let (text, mode) = self.ents[x].clone();
                            match mode {
                                1 => match self.eval(&text, out) {
                                    0 => 0,
                                    _ => 21,
                                },
                                2 => {
                                    self.keep = self.sa;
                                    0
                                }
                                _ => self.raise(21),
                            }
                        }
                    };
                    self.pes[k].2 = false;
                    if e != 0 {
                        return e;
                    }
                }
                x => {
                    out.push(x);
                    i += 1;
                }
            }
        }
        0
    }
}
const VP: [&str; 5] = ["p", "q", "r", "long-name.of-an_entity:0123456789é", "日"];
fn values(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let sa = t.chance(1, 4);
    let mut ents: Vec<(String, u8)> = vec![];
    for _ in 0..2 {
        let mut b = String::new();
        for _ in 0..t.size(4) {
            b += &match t.below(8) {
                0 | 1 => format!("%{}; ", VP[t.below(5)]),
                2 => format!("'%{};' ", VP[t.below(5)]),
                3 => "'&e; &#67;' ".to_string(),
                _ => ["w ", "(w) ", "\n", "'日' "][t.below(4)].to_string(),
            };
        }
        ents.push((b, [1, 1, 1, 1, 2, 0][t.below(6)]));
    }
    let mut v = Vals { pes: vec![], ents: &ents, keep: true, sa, steps: 0, root: 0 };
    let mut sub = String::new();
    let mut exp: Vec<(String, String)> = vec![];
    let mut err = 0;
    let mut names = 0;
    let mut refs = 0;
    for _ in 0..1 + t.size(9) {
        let general = t.chance(1, 3);
        let name = if general {
            names += 1;
            format!("v{}", names % 7)
        } else {
            VP[t.below(5)].to_string()
        };
        let pct = if general { "" } else { "% " };
        if !general && t.chance(1, 5) {
            let k = t.below(2);
            sub += &format!("<!ENTITY {}{} SYSTEM 'x{}'>", pct, name, k);
            if err == 0 && v.keep && v.pes.iter().all(|p| p.0 != name) {
                v.pes.push((name, Err(k), false));
            }
            continue;
        }
        let mut lit = String::new();
        let bad = t.chance(1, 12);
        for _ in 0..t.size(7) {
            lit += &match t.below(16) {
                0..=3 => {
                    refs += 1;
                    // mostly one that is there
                    let there: Vec<String> = v.pes.iter().map(|p| p.0.clone()).collect();
                    let n = if there.is_empty() || t.chance(1, 24) { VP[t.below(5)].to_string() } else { there[t.below(there.len())].clone() };
                    format!("%{};", n)
                }
                4 => format!("&#37;{};", VP[t.below(5)]),
                5 => "&#38;#66;".to_string(),
                6 => "&#38;amp;".to_string(),
                7 => "&e;".to_string(),
                8 => "&#x1D4B3;".to_string(),
                9 if bad => ["%", "&", "&#37;", "&#38;", "&#0;", "&#xD800;", "&#38;#0;", "% ", "&x", "%p", "&#6x;", "&#x;"][t.below(12)].to_string(),
                10 => "w".repeat(1 + t.size(60)),
                _ => ["a", " ", "é", "日", "𝒳", "\n", "<", ">", "b;"][t.below(9)].to_string(),
            };
        }
        let q = ["'", "\""][t.below(2)];
        sub += &format!("<!ENTITY {}{} {}{}{}>\n", pct, name, q, lit, q);
        if err != 0 || !v.keep {
            continue;
        }
        let mut val = String::new();
        // within its own declaration an entity stands for nothing
        let new = !general && v.pes.iter().all(|p| p.0 != name);
        if new {
            v.pes.push((name.clone(), Ok(String::new()), false));
        }
        err = v.eval(&lit, &mut val);
        if err < 0 {
            out.discard = true;
            return out;
        }
        if general {
            if exp.iter().all(|x| x.0 != name) {
                exp.push((name, val));
            }
        } else if new {
            v.pes.last_mut().unwrap().1 = Ok(val.clone());
            exp.push((format!("%{}", name), val));
        }
    }
    let mut cfg = Cfg { h: H_EXT | H_ELEM | H_ENTITY, pe: 2, ..Cfg::default() };
    let (_, data) = {
        let mut c2 = Cfg::default();
        let (e, d) = some_enc(t, &sub, &mut c2);
        cfg.ents.push(ExtEnt { sys: "s".into(), enc: c2.enc, feeds: gen_feeds(t, d.len()), data: d.clone(), mode: 1 });
        (e, d)
    };
    for (i, (text, mode)) in ents.iter().enumerate() {
        let mut c2 = Cfg::default();
        let (_, d) = some_enc(t, text, &mut c2);
        cfg.ents.push(ExtEnt { sys: format!("x{}", i), enc: c2.enc, feeds: gen_feeds(t, d.len()), data: d, mode: *mode });
    }
    let text = format!("{}<!DOCTYPE d SYSTEM 's'><d/>", if sa { "<?xml version='1.0' standalone='yes'?>" } else { "" });
    out.hash = fnv(&data) ^ fnv(ents[0].0.as_bytes()) ^ sa as u64;
    out.nontrivial = refs > 0 && exp.len() > 1;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &one_feed());
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, text.as_bytes(), &one_feed());
    let want = if err != 0 { (0, 21) } else { (1, 0) };
    let child: Vec<String> = a.recs.iter().filter_map(|r| if let Ev::Api(s) = &r.ev { Some(s.clone()) } else { None }).collect();
    if (a.status, a.err) != want {
        return out.fail(format!("status {} error {} where error {} (from {}) was expected ({:?})", a.status, a.err, want.1, v.root, child));
    }
    if err != 0 {
        let e = child.iter().find(|s| s.contains("ok=false")).cloned().unwrap_or_default();
        if !e.contains(&format!("err={} ", v.root)) {
            return out.fail(format!("expected error {}: {:?}", v.root, child));
        }
    }
    let got: Vec<(String, String)> = a
        .recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::Entity { name, pe, value: Some(v), .. } => Some((format!("{}{}", if *pe { "%" } else { "" }, String::from_utf8_lossy(name)), String::from_utf8_lossy(v).into_owned())),
            _ => None,
        })
        .collect();
    if got != exp {
        let i = (0..got.len().max(exp.len())).find(|i| got.get(*i) != exp.get(*i)).unwrap_or(0);
        return out.fail(format!("declaration {}: {:?}, expected {:?}", i, got.get(i), exp.get(i)));
    }
    match bad(&a) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case counts when several declarations, or one of the kind the check is about, are reported",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "models", kind: Kind::Random { words: 30, quick: 20000, thorough: 500000 }, f: models },
            Sub { name: "xmldecl", kind: Kind::Random { words: 60, quick: 40000, thorough: 500000 }, f: xmldecl },
            Sub { name: "values", kind: Kind::Random { words: 200, quick: 40000, thorough: 1000000 }, f: values },
            Sub { name: "model", kind: Kind::Random { words: 500, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "modelmask", kind: Kind::Random { words: 500, quick: 30000, thorough: 1000000 }, f: modelmask },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 30000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: diff },
        ],
    }
}
