//! The encoding of the input makes no difference.
use super::common::*;
use super::*;
use std::collections::BTreeMap;

fn model(env: &Env, t: &mut Tape) -> Out {
    let ns = t.chance(1, 3);
    let maxcp = [0x10ffff, 0xff, 0x7f][t.below(3)];
    let feeds = t.chance(1, 3);
    let long = t.chance(1, 10);
    model_check(env, t, MOpts { ns, maxcp, long, ..MOPTS }, Vary { feeds, encs: true, ..VARY })
}
/// Any document, well-formed or not, in two encodings.
fn meta(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let p = Prof { pos: true, reference: false, defaults: 4, ns: 1, glitch: &[0, 12, 40], nonascii: !t.chance(1, 4), ..PROF };
    let c = gen_case(t, &p);
    if c.doc.text.contains("encoding") || c.doc.ents.iter().any(|e| e.1.contains("encoding")) {
        out.discard = true;
        return out;
    }
    let mut encs = vec![Enc::Utf16le, Enc::Utf16be];
    let l1 = |s: &str| s.chars().all(|c| (c as u32) < 0x100);
    if l1(&c.doc.text) {
        encs.push(Enc::Latin1);
    }
    if c.doc.text.is_ascii() {
        encs.push(Enc::Ascii);
    }
    let e2 = encs[t.below(encs.len())];
    let bytes = e2 == Enc::Latin1 || e2 == Enc::Ascii;
    let mut cfg2 = c.cfg.clone();
    if bytes {
        cfg2.enc = Some(if e2 == Enc::Ascii { "US-ASCII" } else { "ISO-8859-1" }.to_string());
    }
    let d1 = encode_bom(&c.doc.text, Enc::Utf8, if bytes { 0 } else { 3 });
    let d2 = encode_bom(&c.doc.text, e2, if bytes { 0 } else { 2 });
    let mut cfg1 = c.cfg.clone();
    for i in 0..cfg1.ents.len() {
        let s = String::from_utf8(cfg1.ents[i].data.clone()).unwrap();
        let e = [Enc::Utf8, Enc::Utf16le, Enc::Utf16be, Enc::Latin1][t.below(4)];
        if e == Enc::Latin1 {
            if l1(&s) {
                cfg2.ents[i].data = encode(&s, e).unwrap();
                cfg2.ents[i].enc = Some("iso-8859-1".into());
            }
        } else {
            cfg1.ents[i].data = encode_bom(&s, Enc::Utf8, 3);
            cfg2.ents[i].data = encode_bom(&s, e, 2);
        }
    }
    out.hash = fnv(&d1) ^ e2 as u64;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds) + &format!("\n as {:?}", e2);
        predesc(env, &out.desc);
    }
    let norm = |mut t: Trace| {
        for r in t.recs.iter_mut() {
            if let Some(p) = &mut r.pos {
                p.idx = 0;
                p.count = 0;
            }
            // the end of an external entity: only the outcome matters
            if let Ev::Api(s) = &mut r.ev {
                if let Some(k) = s.find(" at Some") {
                    s.truncate(k);
                }
            }
        }
        if let Some(p) = &mut t.end {
            p.idx = 0;
            p.count = 0;
        }
        t
    };
    let a = norm(run(env.rx(), &cfg1, &d1, &one_feed()));
    let b = norm(run(env.rx(), &cfg2, &d2, &one_feed()));
    if a.overflow || b.overflow {
        out.discard = true;
        return out;
    }
    out.nontrivial = a.recs.len() > 3;
    out.labels.push(match e2 {
        Enc::Utf16le => "UTF-16LE",
        Enc::Utf16be => "UTF-16BE",
        Enc::Latin1 => "ISO-8859-1",
        _ => "US-ASCII",
    });
    let mut d = same(&a, "in UTF-8", &b, "in the other encoding");
    // after success there is no event whose position could be asked for
    if d.is_none() && a.status == 0 && a.end != b.end {
        d = Some(format!("end at {:?} in UTF-8 and at {:?} in the other encoding", a.end, b.end));
    }
    if env.describe && std::env::var("HARNESS_DUMP").is_ok() {
        for (c, d) in [(&cfg1, &d1), (&cfg2, &d2)] {
            eprintln!("{:#?}\n{:#?}", run(env.rx(), c, d, &one_feed()), run(env.rf(), c, d, &one_feed()));
        }
    }
    if let Some(d) = d {
        let odd = |s: &str| s.contains(|c| matches!(c, 'ª' | 'µ' | 'º'));
        if odd(&c.doc.text) || c.doc.ents.iter().any(|e| odd(&e.1)) {
            return out.finding(env, "C03", "latin1-name-chars", d);
        }
        return out.fail(d);
    }
    match bad(&a).or(bad(&b)) {
        Some(d) => out.fail(d),
        None => out,
    }
}

fn known(env: &Env, _: &mut Tape) -> Out {
    let mut out = Out::new();
    out.nontrivial = true;
    let cfg = Cfg::default();
    let a = run(env.rx(), &cfg, &encode_bom("<µ/>", Enc::Utf8, 0), &one_feed());
    let b = run(env.rx(), &cfg, &encode_bom("<µ/>", Enc::Utf16le, 2), &one_feed());
    if env.describe {
        out.desc = "<µ/> in UTF-8 and UTF-16".into();
    }
    match same(&a, "in UTF-8", &b, "in UTF-16") {
        Some(d) => out.finding(env, "C03", "latin1-name-chars", d),
        None => out,
    }
}
/// An encoding that can represent the characters given, for the unknown-encoding handler.
struct Made {
    map: Vec<i32>,
    codes: BTreeMap<char, B>,
    convert: bool,
}
fn make_encoding(t: &mut Tape, text: &str) -> Option<Made> {
    let convert = t.chance(2, 3);
    let mut chars: Vec<char> = text.chars().filter(|c| !c.is_ascii()).collect();
    chars.sort();
    chars.dedup();
    let mut map: Vec<i32> = (0..256).map(|i| if i < 0x80 { i } else { -1 }).collect();
    let top = if convert { 0xE0 } else { 0x100 };
    let mut free: Vec<usize> = (0x80..top).collect();
    if convert {
        for i in 0xE0..0x100 {
            map[i] = if i < 0xF0 { -2 } else if i < 0xF8 { -3 } else { -4 };
        }
    }
    let mut codes = BTreeMap::new();
    for c in chars {
        let u = c as u32 as i32;
        if u > 0xffff {
            return None;
        }
        let mut opts: Vec<B> = vec![];
        let hi = |t: &mut Tape| [0x40u8, 0x80, 0xc0, 0][t.below(4)];
        if convert {
            if (0x100..0x500).contains(&u) {
                let v = u - 0x100;
                let b = vec![0xE0 | (v >> 6) as u8, hi(t) | (v & 63) as u8];
                if b[1] != 0x3F {
                    opts.push(b);
                }
            }
            if (0x800..0x8800).contains(&u) {
                let v = u - 0x800;
                let b = vec![0xF0 | (v >> 12) as u8, hi(t) | ((v >> 6) & 63) as u8, hi(t) | (v & 63) as u8];
                if b[1] != 0x3F {
                    opts.push(b);
                }
            }
            if (0x4040..0x8000).contains(&u) {
                let x = t.below(64) as i32;
                let v = u - 0x4000 - x;
                let b = vec![0xF8 | (v >> 12) as u8, hi(t) | ((v >> 6) & 63) as u8, hi(t) | (v & 63) as u8, hi(t) | x as u8];
                if b[1] != 0x3F {
                    opts.push(b);
                }
            }
        }
        if opts.is_empty() || t.chance(1, 3) {
            if free.is_empty() {
                if opts.is_empty() {
                    return None;
                }
            } else {
                let b = free.remove(t.below(free.len()));
                map[b] = u;
                codes.insert(c, vec![b as u8]);
                continue;
            }
        }
        let k = t.below(opts.len());
        codes.insert(c, opts.swap_remove(k));
    }
    Some(Made { map, codes, convert })
}
impl Made {
    fn encode(&self, s: &str) -> B {
        let mut v = vec![];
        for c in s.chars() {
            match self.codes.get(&c) {
                Some(b) => v.extend_from_slice(b),
                None => v.push(c as u8),
            }
        }
        v
    }
}
fn unknown(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 3);
    let d = Gen::new(t, MOpts { ns, maxcp: 0xffff, ..MOPTS }).document();
    let mut all = d.text.clone();
    let conv: Vec<bool> = d
        .ents
        .iter()
        .map(|e| {
            let y = t.chance(1, 2);
            if y {
                all += &e.1;
            }
            y
        })
        .collect();
    let m = match make_encoding(t, &all) {
        Some(m) => m,
        None => {
            out.discard = true;
            return out;
        }
    };
    let mut c = vary_model(t, d, VARY);
    let name = ["x-unk", "Foo.Bar_1-2", "KOI8-R", "U"][t.below(4)];
    let decl = !declares(&c.d.text) && t.chance(1, 2);
    if decl {
        prepend_decl(&mut c.d, name);
        c.exp = expected(&c.d);
    } else {
        c.cfg.enc = Some(name.into());
    }
    c.data = m.encode(&c.d.text);
    let ev = |level| Rec { ev: Ev::UnkEnc(name.as_bytes().to_vec()), pos: None, level };
    c.exp.insert(decl as usize, ev(0));
    for (i, y) in conv.iter().enumerate() {
        if *y {
            let s = c.d.ents[i].1.clone();
            let sys = c.cfg.ents[i].sys.clone().into_bytes();
            c.cfg.ents[i].data = m.encode(&s);
            c.cfg.ents[i].enc = Some(name.into());
            let mut k = 0;
            while k < c.exp.len() {
                let l = c.exp[k].level;
                if matches!(&c.exp[k].ev, Ev::ExtRef { sys: Some(s), .. } if *s == sys) {
                    c.exp.insert(k + 1, ev(l + 1));
                }
                k += 1;
            }
        }
    }
    if t.chance(1, 3) {
        c.feeds = gen_feeds(t, c.data.len());
        for x in c.cfg.ents.iter_mut() {
            x.feeds = gen_feeds(t, x.data.len());
        }
    }
    // the other handlers need not be set for the encoding to be asked for
    c.cfg.h |= H_UNKENC;
    c.cfg.unk = Some(Unk { map: m.map.clone(), convert: m.convert, ret: 1, release: t.chance(1, 2), only: None });
    out.hash = fnv(&c.data);
    out.nontrivial = c.exp.len() > 4 && !m.codes.is_empty();
    out.labels.push(if m.convert { "multi-byte" } else { "single-byte" });
    if env.describe {
        out.desc = desc_model(&c.d, &c.cfg, &c.feeds) + &format!("\n map {:?} multi-byte {}", &m.map[128..], m.convert);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    match check_exp(&a, &c.exp) {
        Some(d) => {
            let b = run(env.rf(), &c.cfg, &c.data, &c.feeds);
            out.fail(format!("{}{}", d, if check_exp(&b, &c.exp).is_some() { " [libexpat differs from the model, too]" } else { "" }))
        }
        None => out,
    }
}
/// Maps and answers of the unknown-encoding handler that must be refused, or bytes without meaning.
fn refused(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let mut map: Vec<i32> = (0..256).collect();
    let mut cfg = Cfg { h: H_CONTENT | H_UNKENC | H_XMLDECL, enc: Some("x".into()), ..Cfg::default() };
    let mut data: B = b"<a>text</a>".to_vec();
    let mut convert = true;
    let mut ret = 1;
    let what = t.below(8);
    let name;
    let mut want = 18; // unknown encoding
    match what {
        0 => {
            ret = 0;
            name = "handler says no";
        }
        1 => {
            // an ASCII character of XML's must stand for itself
            let k = *t.pick(b"\t\n\r !\"#%&'()*+,-./09:;<=>?AZ[]_az|");
            map[k as usize] = [-1, -2, 0x100, k as i32 + 1][t.below(4)];
            name = "ASCII character moved";
        }
        2 => {
            let k = 0x80 + t.below(128);
            map[k] = [b'<', b'a', b' ', b'&'][t.below(4)] as i32;
            name = "byte stands for an ASCII character";
        }
        3 => {
            map[0x80 + t.below(128)] = [0x10000, 0x7fffffff, 0x20000][t.below(3)];
            name = "beyond the BMP";
        }
        4 => {
            map[0x80 + t.below(128)] = [-5, -6, i32::MIN][t.below(3)];
            name = "more than four bytes";
        }
        5 => {
            convert = false;
            map[0x80 + t.below(128)] = -2 - t.below(3) as i32;
            name = "multi-byte without a function";
        }
        6 => {
            // a byte that means nothing
            let k = 0x80 + t.below(128);
            map[k] = [-1, 0xd800, 0xfffe, 0xffff, 0xdfff][t.below(5)];
            let at = [3, 4, 5, 1, 2][t.below(5)];
            data.insert(at, k as u8);
            want = 4;
            name = "byte without a meaning";
        }
        _ => {
            // a sequence the function refuses
            data = [&b"<a>text</a>"[..], b"<a b='text'/>", b"<a><!--text--></a>", b"<a><![CDATA[text]]></a>", b"<a><?p text?></a>", b"<!DOCTYPE a [<!ENTITY e 'text'>]><a/>"][t.below(6)].to_vec();
            let at = match data.windows(4).position(|w| w == b"text") {
                Some(i) if t.chance(2, 3) => i + t.below(5),
                _ => t.range(1, 2),
            };
            let n = NOCHARS.len();
            let seq = match t.below(3) {
                0 => vec![0xE3, 0x3F],
                1 => vec![0xF1, 0x3F, t.below(n) as u8],
                _ => vec![0xF9, 0x3F, t.below(n) as u8, t.below(256) as u8],
            };
            map[seq[0] as usize] = -(seq.len() as i32);
            data.splice(at..at, seq);
            want = 4;
            name = "sequence without a meaning";
        }
    }
    if t.chance(1, 2) {
        cfg.enc = None;
        let mut d = b"<?xml version='1.0' encoding='x'?>".to_vec();
        d.extend_from_slice(&data);
        data = d;
    }
    let release = t.chance(1, 2);
    cfg.unk = Some(Unk { map, convert, ret, release, only: None });
    let feeds = if t.chance(1, 2) { gen_feeds(t, data.len()) } else { one_feed() };
    out.hash = fnv(&data) ^ fnv(format!("{:?}", cfg.unk).as_bytes());
    out.nontrivial = true;
    out.labels.push(name);
    if env.describe {
        out.desc = format!("{}: {:?} {:?}", name, String::from_utf8_lossy(&data), cfg.unk);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &cfg, &data, &feeds);
    if (a.status, a.err) != (0, want) {
        return out.fail(format!("{}: status {} error {} where {} was expected", name, a.status, a.err, want));
    }
    match bad(&a) {
        Some(d) => out.fail(d),
        None => out,
    }
}

pub const BAD8: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3(", b"\xc3\xc3", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe3\x81(", b"\xe3(\x81", b"\xe3\x81\xc3", b"\xe3\xc3\x81",
    b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80(", b"\xf0\x90(\x80", b"\xf0(\x90\x80",
    b"\xf0\x90\x80\xc3", b"\xf0\x90\xc3\x80", b"\xf0\xc3\x90\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\x01", b"\x0b", b"\x1f", b"\0",
];
pub const BAD16: &[&[u16]] = &[
    &[0xdc00], &[0xdfff], &[0xd800, 0x28], &[0xdbff, 0xd800], &[0xd800, 0xe000], &[0xfffe], &[0xffff], &[1], &[0], &[0x1f], &[0xd834, 0x141],
];
/// A sequence that is not valid in the encoding, anywhere in a well-formed document.
fn invalid(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let ns = t.chance(1, 4);
    let d = Gen::new(t, MOpts { ns, ..MOPTS }).document();
    let mut c = vary_model(t, d, Vary { encs: true, ..VARY });
    // before the end of the root element, so that enough follows
    let cs: Vec<usize> = c.d.text.char_indices().map(|x| x.0).filter(|i| *i >= 4 && *i < c.d.root.1 - 2).collect();
    if cs.is_empty() {
        out.discard = true;
        return out;
    }
    let at = cs[t.below(cs.len())];
    // text declarations of the encoding are read before the encoding is known
    let o = c.off(at);
    let seq: B = match c.enc {
        Enc::Utf8 => BAD8[t.below(BAD8.len())].to_vec(),
        Enc::Utf16le => BAD16[t.below(BAD16.len())].iter().flat_map(|u| u.to_le_bytes().to_vec()).collect(),
        Enc::Utf16be => BAD16[t.below(BAD16.len())].iter().flat_map(|u| u.to_be_bytes().to_vec()).collect(),
        Enc::Ascii => vec![0x80 + t.below(128) as u8],
        Enc::Latin1 => vec![[0, 1, 8, 0xb, 0xc, 0xe, 0x1f][t.below(7)]],
    };
    c.data.splice(o..o, seq.iter().copied());
    if t.chance(1, 3) {
        c.feeds = gen_feeds(t, c.data.len());
    }
    out.hash = fnv(&c.data);
    out.nontrivial = true;
    out.labels.push(match c.enc {
        Enc::Utf8 => "UTF-8",
        Enc::Ascii => "US-ASCII",
        Enc::Latin1 => "ISO-8859-1",
        _ => "UTF-16",
    });
    if env.describe {
        out.desc = desc_model(&c.d, &c.cfg, &c.feeds) + &format!("\n with {:x?} inserted at byte {} of the text ({:?})", seq, at, c.enc);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    // "<" before a character that may start a name begins the root element, here in a wrong place
    let early = a.err == 2 && c.d.text[..at].ends_with('<');
    if (a.status, a.err) != (0, 4) && !early {
        return out.fail(format!("{:x?} in {:?}: status {} error {} where 4 was expected", seq, c.enc, a.status, a.err));
    }
    let mut p = plain(&a);
    let mut e = c.exp.clone();
    // text just before the error may not have been reported, or not all of it
    if matches!(p.last(), Some(Rec { ev: Ev::Text(_), .. })) {
        p.pop();
    }
    e.truncate(p.len());
    match diff_recs(&p, "rexpat", &e, "expected").or(bad(&a)) {
        Some(d) => out.fail(d),
        None => out,
    }
}
fn diff(env: &Env, t: &mut Tape) -> Out {
    let feeds = t.chance(1, 2);
    diff_case(env, t, &Prof { encs: true, feeds, pos: true, defaults: 4, ..PROF })
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a case counts when the document produces several events, or when it is one of the invalid inputs",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "known", kind: Kind::All { quick: 1, thorough: 1 }, f: known },
            Sub { name: "model", kind: Kind::Random { words: 550, quick: 50000, thorough: 1500000 }, f: model },
            Sub { name: "meta", kind: Kind::Random { words: 550, quick: 60000, thorough: 2000000 }, f: meta },
            Sub { name: "unknown", kind: Kind::Random { words: 550, quick: 30000, thorough: 1000000 }, f: unknown },
            Sub { name: "refused", kind: Kind::Random { words: 40, quick: 20000, thorough: 300000 }, f: refused },
            Sub { name: "invalid", kind: Kind::Random { words: 450, quick: 40000, thorough: 1000000 }, f: invalid },
            Sub { name: "diff", kind: Kind::Random { words: 550, quick: 40000, thorough: 1500000 }, f: diff },
        ],
    }
}
