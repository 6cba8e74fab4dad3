//! Positions.
use super::common::*;
use super::*;

/// Line and column of a byte offset of a text.
struct Lines {
    starts: Vec<usize>,
}
impl Lines {
    fn new(t: &str) -> Lines {
        let b = t.as_bytes();
        let mut starts = vec![0];
        for i in 0..b.len() {
            if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
                starts.push(i + 1);
            }
        }
        Lines { starts }
    }
    fn at(&self, t: &str, o: usize) -> (u64, u64) {
        let l = self.starts.partition_point(|s| *s <= o);
        (l as u64, t[self.starts[l - 1]..o].chars().count() as u64)
    }
}
/// A text as it was given to a parser.
struct Src {
    text: String,
    lines: Lines,
    /// offset in the data of each character boundary of the text
    offs: Vec<(usize, usize)>,
    /// there is a byte order mark, which counts as a character of the first line
    bom: bool,
}
impl Src {
    fn new(text: &str, enc: Enc, bom: usize) -> Src {
        let mut offs = vec![];
        let mut o = bom;
        let text = text.to_string();
        for (i, c) in text.char_indices() {
            offs.push((o, i));
            o += match enc {
                Enc::Utf8 => c.len_utf8(),
                Enc::Latin1 | Enc::Ascii => 1,
                _ => c.len_utf16() * 2,
            };
        }
        offs.push((o, text.len()));
        Src { lines: Lines::new(&text), text, offs, bom: bom > 0 }
    }
    fn back(&self, o: usize) -> Option<usize> {
        self.offs.binary_search_by_key(&o, |x| x.0).ok().map(|i| self.offs[i].1)
    }
}
/// Does the source text stand for this character data?
fn stands_for(src: &str, val: &[u8]) -> bool {
    if src.as_bytes() == val {
        return true;
    }
    if src.starts_with('&') && src.len() > 1 {
        let b = &src[1..src.len() - 1];
        let c = match b {
            "lt" => Some('<'),
            "gt" => Some('>'),
            "amp" => Some('&'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            _ if b.starts_with("#x") => u32::from_str_radix(&b[2..], 16).ok().and_then(char::from_u32),
            _ if b.starts_with('#') => b[1..].parse().ok().and_then(char::from_u32),
            // inside an internal entity
            _ => return true,
        };
        return c.map_or(false, |c| c.to_string().as_bytes() == val);
    }
    val == b"\n" && (src == "\r\n" || src == "\r")
}
fn check(c: &MCase, a: &Trace, entenc: bool) -> Option<String> {
    let mut srcs: Vec<(String, Option<Src>)> = vec![(String::new(), Some(Src::new(&c.d.text, c.enc, c.bom)))];
    for (i, (s, x)) in c.d.ents.iter().enumerate() {
        let same = c.cfg.ents[i].data == x.as_bytes() && c.cfg.ents[i].enc.is_none();
        srcs.push((s.clone(), if same || !entenc { Some(Src::new(x, Enc::Utf8, 0)) } else { None }));
    }
    // which text each level is in
    let mut cur = vec![0usize];
    let mut last = vec![0usize];
    let mut mi = 0;
    // end of the previous event's source at this level
    let recs: Vec<&Rec> = a.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_))).collect();
    let m = &c.d.evs;
    for r in recs {
        let l = r.level as usize;
        cur.truncate(l + 1);
        last.truncate(l + 1);
        if cur.len() <= l {
            return Some("events of an entity that was not announced".into());
        }
        let p = r.pos.unwrap();
        let what = fmt_rec(r);
        let text = if let Ev::Text(b) = &r.ev { Some(b) } else { None };
        // the expected event
        let e = if text.is_some() {
            if mi > 0 && matches!(m[mi - 1].ev, Ev::Text(_)) && m[mi - 1].level == r.level {
                &m[mi - 1]
            } else {
                mi += 1;
                match m.get(mi - 1) {
                    Some(e) => e,
                    None => return Some(format!("unexpected {}", what)),
                }
            }
        } else {
            mi += 1;
            match m.get(mi - 1) {
                Some(e) if e.ev == r.ev && e.level == r.level => e,
                _ => return Some(format!("unexpected {}", what)),
            }
        };
        if let Some(s) = &srcs[cur[l]].1 {
            let (x, y) = match (s.back(p.idx as usize), s.back(p.idx as usize + p.count.max(0) as usize)) {
                (Some(x), Some(y)) if p.count >= 0 => (x, y),
                _ => return Some(format!("{}: no character of the text begins or ends there", what)),
            };
            let mut lc = s.lines.at(&s.text, x);
            if lc.0 == 1 && s.bom {
                lc.1 += 1;
            }
            if (p.line, p.col) != lc {
                return Some(format!("{}: that byte is at {}:{}", what, lc.0, lc.1));
            }
            if x < last[l] {
                return Some(format!("{}: before the preceding event at byte {} of the text", what, last[l]));
            }
            last[l] = x;
            if let Some((ea, eb)) = e.span {
                match text {
                    None if (ea, eb) != (x, y) => return Some(format!("{}: bytes {}..{} of the text, expected {}..{}: {:?}", what, x, y, ea, eb, &s.text[ea..eb.min(ea + 60).max(ea)].chars().take(20).collect::<String>())),
                    Some(v) => {
                        if x < ea || y > eb {
                            return Some(format!("{}: not within {}..{} of the text", what, ea, eb));
                        }
                        if !stands_for(&s.text[x..y], v) {
                            return Some(format!("{}: the text there is {:?}", what, &s.text[x..y]));
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Ev::ExtRef { sys, .. } = &r.ev {
            let s = sys.clone().unwrap_or_default();
            if let Some(k) = srcs.iter().position(|x| x.0.as_bytes() == &s[..] && !x.0.is_empty()) {
                cur.push(k);
                last.push(0);
            }
        }
    }
    if mi != m.len() {
        return Some(format!("event missing: {}", fmt_rec(&Rec { ev: m[mi].ev.clone(), pos: None, level: m[mi].level })));
    }
    if a.status != 1 {
        return Some(format!("well-formed document rejected: error {} at {:?}", a.err, a.end));
    }
    bad(a)
}
fn model_of(env: &Env, t: &mut Tape, ctx: bool) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let long = t.chance(1, 6);
    let d = Gen::new(t, MOpts { ns, long, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { feeds: true, encs: true, mask: false });
    // a known finding: see the property about pieces
    let tail = c.off(c.d.root.1).saturating_sub(1);
    let mut at = 0;
    let mut cut = false;
    for f in &c.feeds {
        at += f.n.min(c.data.len() - at);
        cut |= at > tail && cuts_crlf(&[Feed { n: at, ..*f }], &c.data);
    }
    if cut {
        c.feeds = one_feed();
    }
    c.cfg.pos = true;
    c.cfg.ctx = ctx;
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}", c.feeds).as_bytes());
    out.nontrivial = c.exp.len() > 4;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.d.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    match check(&c, &a, true) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn model(env: &Env, t: &mut Tape) -> Out {
    model_of(env, t, false)
}
fn context(env: &Env, t: &mut Tape) -> Out {
    model_of(env, t, true)
}
/// Where the error is.
fn errors(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let d = Gen::new(t, MOpts { ns, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { feeds: false, encs: false, mask: false });
    let lt: Vec<usize> = c.d.text.char_indices().filter(|x| x.1 == '<' || t.chance(1, 12)).map(|x| x.0).collect();
    let at = lt[t.below(lt.len())];
    let f = c01::FAULTS[t.below(c01::FAULTS.len())].1;
    let mut text = c.d.text.clone();
    if t.chance(1, 6) {
        text.truncate(at);
        text.push('<');
    } else {
        text.insert_str(at, f);
    }
    let (_, data) = some_enc(t, &text, &mut c.cfg);
    c.cfg.pos = true;
    let mut feeds = gen_feeds(t, data.len());
    if cuts_crlf(&feeds, &data) {
        feeds = one_feed();
    }
    out.hash = fnv(&data) ^ fnv(format!("{:?}", feeds).as_bytes());
    if env.describe {
        out.desc = desc_case(&c.cfg, &text, &feeds);
        predesc(env, &out.desc);
    }
    let differs = |t: &[u8]| pe_in_value(t) || ignored_brackets(t);
    if differs(&data) || c.cfg.ents.iter().any(|e| differs(&e.data)) {
        out.discard = true;
        return out;
    }
    let a = run(env.rx(), &c.cfg, &data, &feeds);
    let b = run(env.rf(), &c.cfg, &data, &feeds);
    out.nontrivial = a.err != 0;
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    if a.err != b.err || a.end != b.end {
        return out.fail(format!("error {} at {:?}, expected error {} at {:?}", a.err, a.end, b.err, b.end));
    }
    match bad(&a) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let big = t.chance(1, 20);
    let misc_acts = t.chance(1, 3);
    diff_case(env, t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: true, pos: true, big, misc_acts, ..PROF })
}
fn diffctx(env: &Env, t: &mut Tape) -> Out {
    // the context is checked for the code under test only
    let mut out = Out::new();
    let big = t.chance(1, 20);
    let mut c = gen_case(t, &Prof { glitch: &[0, 25, 60], feeds: true, encs: true, big, stops: true, aborts: true, reference: false, ..PROF });
    c.cfg.ctx = true;
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}", c.feeds).as_bytes());
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    out.nontrivial = a.recs.len() > 3;
    match bad(&a) {
        Some(d) if !a.overflow => out.fail(d),
        _ => out,
    }
}
fn known(env: &Env, _t: &mut Tape) -> Out {
    let mut out = Out::new();
    out.nontrivial = true;
    let cfg = Cfg { pos: true, ..Cfg::default() };
    let data = b"<a/>\r\n<!--c-->";
    out.desc = "document \"<a/>\\r\\n<!--c-->\" cut after the CR".into();
    let f = feeds_from(&[5], data.len(), |_| (0, 0), false);
    let a = run(env.rx(), &cfg, data, &f);
    match a.recs.iter().find(|r| matches!(r.ev, Ev::Comment(_))).and_then(|r| r.pos) {
        Some(Pos { line: 2, col: 0, .. }) => out,
        p => out.finding(env, "C12", "epilog-crlf", format!("<a/> CR | LF <!--c-->: the comment is reported at {:?}, not on line 2", p)),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a case counts when there are more than four events, or an error",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "known", kind: Kind::All { quick: 1, thorough: 1 }, f: known },
            Sub { name: "model", kind: Kind::Random { words: 450, quick: 60000, thorough: 2000000 }, f: model },
            Sub { name: "context", kind: Kind::Random { words: 450, quick: 20000, thorough: 1000000 }, f: context },
            Sub { name: "errors", kind: Kind::Random { words: 200, quick: 40000, thorough: 1500000 }, f: errors },
            Sub { name: "diff", kind: Kind::Random { words: 450, quick: 60000, thorough: 2000000 }, f: diff },
            Sub { name: "diffctx", kind: Kind::Random { words: 450, quick: 20000, thorough: 1000000 }, f: diffctx },
        ],
    }
}
