//! Character data, CDATA sections, comments and processing instructions.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let long = t.chance(1, 8);
    model_check(env, t, MOpts { long, dtd: false, items: 16, depth: 3, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(
        env,
        t,
        |f| {
            f.0 == c01::At::Content && (f.1.starts_with('&') || f.1.starts_with("<!") || f.1.starts_with("<?") || f.1.starts_with("]]") || f.1.len() < 4)
                || f.0 != c01::At::Content && (f.1.starts_with("<?") || f.1.starts_with("<!-"))
        },
        &[2],
    )
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 10);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], dtd: false, ext: false, feeds: true, encs: true, pos: true, depth: 4, big, defaults: 4, ..PROF })
}

pub fn norm_nl(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}
/// Puts s into context k: text, configuration, expected events or error; None when it does not fit there.
fn in_context(k: usize, s: &str) -> Option<(String, Vec<Rec>, u32)> {
    let st = |n: &str, atts: Vec<(&str, String)>, nspec| {
        rec0(Ev::Start { name: n.into(), atts: atts.into_iter().map(|(a, v)| (a.into(), v.into_bytes())).collect(), nspec, id: -1 })
    };
    let en = |n: &str| rec0(Ev::End(n.into()));
    let tx = |s: String| if s.is_empty() { vec![] } else { vec![rec0(Ev::Text(s.into_bytes()))] };
    let sp = |s: &str| norm_nl(s).replace(['\n', '\t'], " ");
    let dash = s.replace(']', "-");
    let quest = s.replace(']', "?");
    Some(match k {
        0 => {
            let mut e = vec![st("a", vec![], 0)];
            if let Some(i) = s.find("]]>") {
                e.extend(tx(norm_nl(&s[..i])));
                (format!("<a>{}</a>", s), e, 4)
            } else {
                e.extend(tx(norm_nl(s)));
                e.push(en("a"));
                (format!("<a>{}</a>", s), e, 0)
            }
        }
        1 => {
            let x = format!("{}]]>", s);
            if x.find("]]>") != Some(s.len()) {
                return None;
            }
            let mut e = vec![st("a", vec![], 0), rec0(Ev::CdStart)];
            e.extend(tx(norm_nl(s)));
            e.extend([rec0(Ev::CdEnd), en("a")]);
            (format!("<a><![CDATA[{}</a>", x), e, 0)
        }
        2 => {
            if dash.contains("--") || dash.ends_with('-') {
                return None;
            }
            (format!("<!--{}--><a/>", dash), vec![rec0(Ev::Comment(norm_nl(&dash).into_bytes())), st("a", vec![], 0), en("a")], 0)
        }
        3 => {
            let x = format!("{}?>", quest);
            if x.find("?>") != Some(quest.len()) {
                return None;
            }
            let v = norm_nl(&quest);
            let v = v.trim_start_matches(['\n', '\t', ' ']).to_string();
            (format!("<a><?p {}</a>", x), vec![st("a", vec![], 0), rec0(Ev::Pi(b"p".to_vec(), v.into_bytes())), en("a")], 0)
        }
        4 => (format!("<a b=\"{}\"/>", s), vec![st("a", vec![("b", sp(s))], 2), en("a")], 0),
        5 => {
            let mut e = vec![st("a", vec![], 0)];
            let t = norm_nl(s);
            match t.find("]]>") {
                Some(i) => {
                    e.extend(tx(t[..i].to_string()));
                    (format!("<!DOCTYPE a [<!ENTITY e \"{}\">]><a>&e;</a>", s), e, 4)
                }
                None => {
                    e.extend(tx(t));
                    e.push(en("a"));
                    (format!("<!DOCTYPE a [<!ENTITY e \"{}\">]><a>&e;</a>", s), e, 0)
                }
            }
        }
        6 => (format!("<!DOCTYPE a [<!ATTLIST a b CDATA \"{}\">]><a></a>", s), vec![st("a", vec![("b", sp(s))], 0), en("a")], 0),
        7 => {
            let v = norm_nl(s);
            (
                format!("<!DOCTYPE a [<!ENTITY e \"{}\">]><a b='&e;'/>", s),
                vec![st("a", vec![("b", v.replace(['\n', '\t'], " "))], 2), en("a")],
                0,
            )
        }
        8 => {
            // between other markup
            let mut e = vec![st("a", vec![], 0), st("b", vec![], 0), en("b")];
            if let Some(i) = s.find("]]>") {
                e.extend(tx(norm_nl(&s[..i])));
                return Some((format!("<a><b/>{}<c></c></a>", s), e, 4));
            }
            e.extend(tx(norm_nl(s)));
            e.extend([st("c", vec![], 0)]);
            e.extend(tx(norm_nl(s)));
            e.extend([en("c")]);
            e.extend(tx(norm_nl(s)));
            e.extend([en("a")]);
            (format!("<a><b/>{}<c>{}</c>{}</a>", s, s, s), e, 0)
        }
        _ => {
            // after the document, and before
            if s.contains(['a', ']', '>']) {
                return None;
            }
            (format!("<!--x-->{}<a/>{}<!--y-->{}", s, s, s), vec![rec0(Ev::Comment(b"x".to_vec())), st("a", vec![], 0), en("a"), rec0(Ev::Comment(b"y".to_vec()))], 0)
        }
    })
}
const NCTX: usize = 10;
const ALPHA: &[char] = &['a', '\r', '\n', ']', '>'];
fn count(n: usize) -> usize {
    (0..=n as u32).map(|k| ALPHA.len().pow(k)).sum()
}
/// All short strings of the characters that matter, in every context, cut at every place.
fn ends(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut i = t.u32() as usize;
    let ctx = i % NCTX;
    i /= NCTX;
    let mut n = 0;
    while i >= ALPHA.len().pow(n) {
        i -= ALPHA.len().pow(n);
        n += 1;
    }
    let mut s = String::new();
    for _ in 0..n {
        s.push(ALPHA[i % ALPHA.len()]);
        i /= ALPHA.len();
    }
    let (text, exp, err) = match in_context(ctx, &s) {
        Some(x) => x,
        None => {
            out.discard = true;
            return out;
        }
    };
    let cfg = Cfg::default();
    out.hash = fnv(text.as_bytes());
    out.nontrivial = n > 0;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &[]);
        predesc(env, &out.desc);
    }
    for e in [Enc::Utf8, Enc::Utf16be] {
        let data = encode_bom(&text, e, if e == Enc::Utf8 { 0 } else { 2 });
        let w = if e == Enc::Utf8 { 1 } else { 2 };
        let from = text.find(&s).unwrap_or(0);
        let from = data.len() - encode(&text[from.saturating_sub(1)..], e).unwrap().len();
        let mut plans = vec![one_feed(), feeds_from(&(1..data.len()).collect::<Vec<_>>(), data.len(), |_| (0, 0), true)];
        for c in (from..(from + (s.len() + 3) * w).min(data.len())).step_by(1) {
            plans.push(feeds_from(&[c], data.len(), move |k| if (c + k) % 2 == 0 { (0, 0) } else { (1, 0) }, c % 3 == 0));
        }
        for f in plans {
            if let Some(d) = run_known(env, &Known { cfg: &cfg, data: &data, feeds: &f, exp: &exp, err }) {
                return out.fail(format!("{:?}, feeds {}: {}", e, desc_feeds(&f), d));
            }
        }
    }
    out
}
/// Texts about as long as the buffers they pass through.
fn long(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    let ctx = t.below(9);
    let set: &[char] = match t.below(4) {
        0 => &['x'],
        1 => &['x', 'é', '\r', '\n'],
        2 => &['日', 'x', '𝒳', 'é', ']'],
        _ => &['a', 'b', '\n', '\r', ' ', 'ÿ', '\u{7ff}', '\u{800}', '\u{ffff0}', '\u{10000}', '>', ']'],
    };
    let len = rlen(&mut r, 9000);
    let mut s = String::new();
    for _ in 0..len {
        s.push(set[r.below(set.len())]);
    }
    while s.contains("]]>") {
        s = s.replace("]]>", "]]_");
    }
    if ctx == 2 {
        s = s.replace(']', "=");
    }
    // not at the end of a CDATA section
    if s.ends_with(']') || s.ends_with('?') {
        s.push('x');
    }
    let (text, exp, err) = match in_context(ctx, &s) {
        Some(x) => x,
        None => {
            out.discard = true;
            return out;
        }
    };
    let mut cfg = Cfg::default();
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = len > 2;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}
/// Character references: all numbers that matter, all notations.
fn charrefs(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let n = t.range(1, 8);
    let mut text = String::from("<a>");
    let mut val = String::new();
    let mut err = 0;
    for _ in 0..n {
        let v: u64 = match t.below(6) {
            0 => t.below(0x300) as u64,
            1 => [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x110001, 0x1fffff, 0x7fffffff, 0xffffffff, 0x100000041][t.below(19)],
            2 => t.below(0x10000) as u64,
            3 => 0x10000 + t.below(0x100000) as u64,
            4 => t.u32() as u64,
            _ => [9, 10, 13, 32, 38, 60, 62, 93][t.below(8)],
        };
        let z = "0".repeat(t.size(12));
        text += &match t.below(3) {
            0 => format!("&#{}{};", z, v),
            1 => format!("&#x{}{:x};", z, v),
            _ => format!("&#x{}{:X};", z, v),
        };
        let ok = v <= 0x10ffff && char::from_u32(v as u32).is_some() && (v >= 0x20 || v == 9 || v == 10 || v == 13) && v != 0xfffe && v != 0xffff;
        if !ok {
            err = 14;
            break;
        }
        val.push(char::from_u32(v as u32).unwrap());
        if t.chance(1, 3) {
            let p = ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "x", "\r", "]]"][t.below(8)];
            text += p;
            val += match p {
                "&lt;" => "<",
                "&gt;" => ">",
                "&amp;" => "&",
                "&quot;" => "\"",
                "&apos;" => "'",
                "\r" => "\n",
                x => x,
            };
        }
    }
    let att = t.chance(1, 3);
    let mut exp = vec![];
    let st = |atts: Vec<(B, B)>, n| rec0(Ev::Start { name: b"a".to_vec(), atts, nspec: n, id: -1 });
    if att {
        text = format!("<a b='{}'/>", &text[3..]);
        // a literal line end becomes a space, a reference does not
        let mut v = String::new();
        let lit: Vec<char> = text.chars().collect();
        let _ = lit;
        v += &val;
        if text.contains('\r') {
            out.discard = true;
            return out;
        }
        if err == 0 {
            exp = vec![st(vec![(b"b".to_vec(), v.into_bytes())], 2), rec0(Ev::End(b"a".to_vec()))];
        }
    } else {
        text += "</a>";
        exp.push(st(vec![], 0));
        if !val.is_empty() {
            exp.push(rec0(Ev::Text(val.into_bytes())));
        }
        if err == 0 {
            exp.push(rec0(Ev::End(b"a".to_vec())));
        }
    }
    let mut cfg = Cfg::default();
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = gen_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = true;
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    match run_known(env, &Known { cfg: &cfg, data: &data, feeds: &feeds, exp: &exp, err }) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a case counts when there is text of at least one character in one of the contexts",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "ends", kind: Kind::All { quick: NCTX * count(5), thorough: NCTX * count(8) }, f: ends },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "long", kind: Kind::Random { words: 30, quick: 20000, thorough: 400000 }, f: long },
            Sub { name: "charrefs", kind: Kind::Random { words: 60, quick: 30000, thorough: 600000 }, f: charrefs },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 30000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 450, quick: 60000, thorough: 1500000 }, f: diff },
        ],
    }
}
