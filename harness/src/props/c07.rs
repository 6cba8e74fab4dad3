//! Namespaces.
use super::common::*;
use super::*;

fn model(env: &Env, t: &mut Tape) -> Out {
    let long = t.chance(1, 12);
    let dtd = t.chance(1, 2);
    model_check(env, t, MOpts { ns: true, long, dtd, decls: 6, items: 10, depth: 7, ..MOPTS }, Vary { feeds: true, encs: true, mask: false })
}
fn fault(env: &Env, t: &mut Tape) -> Out {
    c01::fault_of(env, t, |f| f.3 == c01::Need::Ns, &[])
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], ns: 2, feeds: true, encs: true, depth: 7, ..PROF })
}

const XML: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
/// Nested elements that declare and undeclare prefixes, with attributes; the outcome is computed
/// from the Namespaces recommendation.
fn scopes(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut r = rng_of(t);
    let longuri: Vec<String> = (0..4).map(|i| format!("u:{}{}", "l".repeat(rlen(&mut r, 400)), i)).collect();
    let prefixes = ["p", "q", "r", "pq", "longer-prefix", "é"];
    let uris: Vec<&str> = vec!["u:1", "u:2", "u", "u:1x", &longuri[0], &longuri[1], &longuri[2], &longuri[3]];
    let trip = t.chance(1, 2);
    let sep = ['|', '\u{1}', ' ', '^'][t.below(4)];
    let handlers = t.chance(3, 4);
    let mut text = String::new();
    let mut exp: Vec<Rec> = vec![];
    let mut scope: Vec<(String, Option<String>)> = vec![("xml".into(), Some(XML.into()))];
    // open elements: raw name, reported name, length of the scope outside
    let mut open: Vec<(String, B, usize)> = vec![];
    let mut err = 0;
    let n = t.range(1, 14);
    let mut made = 0;
    // default declarations for an element type
    let dfl = t.chance(1, 4);
    if dfl {
        text += "<!DOCTYPE d [<!ATTLIST d xmlns CDATA 'u:dflt' xmlns:q CDATA 'u:q' q:z CDATA 'v'>]>";
    }
    let name_of = |scope: &Vec<(String, Option<String>)>, raw: &str, att: bool| -> Result<B, u32> {
        let (p, l) = match raw.find(':') {
            Some(i) => (&raw[..i], &raw[i + 1..]),
            None => ("", raw),
        };
        if p.is_empty() && att {
            return Ok(l.into());
        }
        match scope.iter().rev().find(|s| s.0 == p) {
            Some((_, Some(u))) => {
                let mut v = format!("{}{}{}", u, sep, l);
                if trip && !p.is_empty() {
                    v.push(sep);
                    v += p;
                }
                Ok(v.into_bytes())
            }
            _ if p.is_empty() => Ok(l.into()),
            _ => Err(27),
        }
    };
    'doc: loop {
        let close = made == n || (made > 0 && t.chance(2, 5));
        if close {
            let (raw, rep, len) = open.pop().unwrap();
            text += &format!("</{}>", raw);
            exp.push(rec0(Ev::End(rep)));
            if handlers {
                for s in scope[len..].iter().rev() {
                    let p = &s.0;
                    exp.push(rec0(Ev::NsEnd(if p.is_empty() { None } else { Some(p.clone().into_bytes()) })));
                }
            }
            scope.truncate(len);
            if open.is_empty() {
                break;
            }
            continue;
        }
        made += 1;
        let outer = scope.len();
        let raw = match t.below(8) {
            0 | 1 => format!("{}:{}", prefixes[t.below(6)], ["a", "b"][t.below(2)]),
            2 if dfl => "d".to_string(),
            3 if !scope.is_empty() => {
                let p = scope[t.below(scope.len())].0.clone();
                if p.is_empty() { "a".into() } else { format!("{}:x", p) }
            }
            _ => ["a", "b", "doc"][t.below(3)].to_string(),
        };
        text += &format!("<{}", raw);
        // attributes as written: raw name, value
        let mut atts: Vec<(String, String)> = vec![];
        for _ in 0..t.size(7) {
            let (a, v): (String, String) = match t.below(9) {
                0 | 1 => (format!("xmlns:{}", prefixes[t.below(6)]), uris[t.below(8)].into()),
                2 => ("xmlns".into(), if t.chance(1, 4) { String::new() } else { uris[t.below(8)].into() }),
                3 | 4 => (format!("{}:{}", prefixes[t.below(6)], ["k", "l"][t.below(2)]), "v".into()),
                5 => (["xml:lang", "xml:k"][t.below(2)].into(), "v".into()),
                6 => {
                    let p = scope[t.below(scope.len())].0.clone();
                    (if p.is_empty() { "k".into() } else { format!("{}:{}", p, ["k", "l", "m"][t.below(3)]) }, "w".into())
                }
                7 if t.chance(1, 6) => match t.below(8) {
                    0 => ("xmlns:xml".into(), XML.into()),
                    1 => ("xmlns:xml".into(), "u:1".into()),
                    2 => ("xmlns:xmlns".into(), XMLNS.into()),
                    3 => ("xmlns:p".into(), XML.into()),
                    4 => ("xmlns".into(), XML.into()),
                    5 => ("xmlns:p".into(), XMLNS.into()),
                    6 => ("xmlns".into(), XMLNS.into()),
                    _ => ("xmlns:p".into(), String::new()),
                },
                _ => (["k", "l", "xmlnsx", "id"][t.below(4)].into(), "v".into()),
            };
            if atts.iter().any(|x| x.0 == a) {
                continue;
            }
            text += &format!(" {}='{}'", a, v);
            atts.push((a, v));
        }
        let nsp = atts.len();
        let mut all = atts.clone();
        if raw == "d" && dfl {
            for (a, v) in [("xmlns", "u:dflt"), ("xmlns:q", "u:q"), ("q:z", "v")] {
                if !all.iter().any(|x| x.0 == a) {
                    all.push((a.into(), v.into()));
                }
            }
        }
        let empty = t.chance(1, 3) && !(made == 1 && n > 1);
        // declarations first
        let mut spec = 0;
        let mut e = 0;
        for (i, (a, v)) in all.iter().enumerate() {
            let p = if a == "xmlns" {
                ""
            } else if let Some(p) = a.strip_prefix("xmlns:") {
                p
            } else {
                if i < nsp {
                    spec += 1;
                }
                continue;
            };
            let c = if v.is_empty() && !p.is_empty() {
                28
            } else if p == "xml" && v != XML {
                38
            } else if p == "xmlns" {
                39
            } else if p != "xml" && v == XML {
                40
            } else if v == XMLNS {
                40
            } else {
                0
            };
            if c != 0 {
                e = c;
                break;
            }
            scope.push((p.into(), if v.is_empty() { None } else { Some(v.clone()) }));
            if handlers {
                exp.push(rec0(Ev::NsStart(
                    if p.is_empty() { None } else { Some(p.into()) },
                    if v.is_empty() { None } else { Some(v.clone().into_bytes()) },
                )));
            }
        }
        let mut list: Vec<(B, B)> = vec![];
        let mut seen: Vec<(String, String)> = vec![];
        if e == 0 {
            for (a, v) in all.iter() {
                if a == "xmlns" || a.starts_with("xmlns:") {
                    continue;
                }
                match name_of(&scope, a, true) {
                    Ok(nm) => {
                        // two attributes with one expanded name
                        if let Some(i) = a.find(':') {
                            let key = (String::from_utf8(nm.clone()).unwrap().split(sep).next().unwrap().to_string(), a[i + 1..].to_string());
                            if seen.contains(&key) {
                                e = 8;
                                break;
                            }
                            seen.push(key);
                        }
                        list.push((nm, v.clone().into_bytes()));
                    }
                    Err(c) => {
                        e = c;
                        break;
                    }
                }
            }
        }
        let rep = if e == 0 { name_of(&scope, &raw, false) } else { Err(e) };
        match rep {
            Err(c) => {
                err = c;
                text += ">";
                break 'doc;
            }
            Ok(rep) => {
                exp.push(rec0(Ev::Start { name: rep.clone(), atts: list, nspec: spec * 2, id: -1 }));
                if empty {
                    text += "/>";
                    exp.push(rec0(Ev::End(rep)));
                    if handlers {
                        for s in scope[outer..].iter().rev() {
                            let p = &s.0;
                            exp.push(rec0(Ev::NsEnd(if p.is_empty() { None } else { Some(p.clone().into_bytes()) })));
                        }
                    }
                    scope.truncate(outer);
                    if open.is_empty() {
                        break 'doc;
                    }
                } else {
                    text += ">";
                    open.push((raw, rep, outer));
                }
            }
        }
    }
    let mut cfg = Cfg { h: H_ELEM | H_TEXT | if handlers { H_NS } else { 0 }, ns: Some(sep), triplets: trip, ..Cfg::default() };
    let (_, data) = some_enc(t, &text, &mut cfg);
    let feeds = big_feeds(t, data.len());
    out.hash = fnv(&data);
    out.nontrivial = exp.len() > 3 || err != 0;
    out.labels.push(match err {
        0 => "accepted",
        8 => "attributes that become equal",
        27 => "undeclared prefix",
        28 => "prefix undeclared",
        _ => "reserved prefix or name",
    });
    if env.describe {
        out.desc = desc_case(&cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, &data, &feeds);
    if err == 0 {
        return match check_exp(&a, &exp) {
            Some(d) => out.fail(d),
            None => out,
        };
    }
    // some declarations of the failing element may have been reported; another mistake in it may be found first
    let errs = [8, 27, 28, 38, 39, 40];
    if a.status != 0 || !errs.contains(&a.err) {
        return out.fail(format!("status {} error {} where error {} was expected", a.status, a.err, err));
    }
    let mut p = plain(&a);
    while matches!(p.last(), Some(Rec { ev: Ev::NsStart(..), .. })) {
        p.pop();
    }
    while matches!(exp.last(), Some(Rec { ev: Ev::NsStart(..), .. })) {
        exp.pop();
    }
    match diff_recs(&p, "rexpat", &exp, "expected before the error").or(bad(&a)) {
        Some(d) => out.fail(d),
        None if a.err != err => out.fail(format!("error {} where {} was expected", a.err, err)),
        None => out,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a case counts when it has several elements, attributes or declarations, or an error of namespaces",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "scopes", kind: Kind::Random { words: 450, quick: 80000, thorough: 2000000 }, f: scopes },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: model },
            Sub { name: "fault", kind: Kind::Random { words: 550, quick: 20000, thorough: 500000 }, f: fault },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 60000, thorough: 1500000 }, f: diff },
        ],
    }
}
