use super::*;

/// What a generated case may contain.
#[derive(Clone, Copy)]
pub struct Prof {
    pub glitch: &'static [usize],
    /// 0 never, 1 half of the cases, 2 always
    pub ns: u8,
    pub dtd: bool,
    pub ext: bool,
    pub big: bool,
    pub nonascii: bool,
    /// handlers always set / possibly set
    pub h: u32,
    pub hopt: u32,
    /// pick a default handler in one of n cases
    pub defaults: usize,
    pub feeds: bool,
    pub pos: bool,
    pub dc: bool,
    pub stops: bool,
    pub aborts: bool,
    pub misc_acts: bool,
    pub ext_modes: bool,
    pub base: bool,
    pub ret0: bool,
    pub depth: usize,
    pub encs: bool,
    /// the case is also given to the reference implementation
    pub reference: bool,
    /// documents that are mostly parameter entities
    pub pes: bool,
}
pub const PROF: Prof = Prof {
    glitch: &[0, 12, 40],
    ns: 1,
    dtd: true,
    ext: true,
    big: false,
    nonascii: true,
    h: H_ALL & !H_NOTSA & !H_UNKENC,
    hopt: 0,
    defaults: 0,
    feeds: false,
    pos: false,
    dc: false,
    stops: false,
    aborts: false,
    misc_acts: false,
    ext_modes: false,
    base: false,
    ret0: false,
    depth: 5,
    encs: false,
    reference: true,
    pes: false,
};

pub struct Case {
    pub doc: Doc,
    pub cfg: Cfg,
    pub data: B,
    pub feeds: Vec<Feed>,
    pub glitch: usize,
    pub enc: Enc,
}

pub fn gen_case(t: &mut Tape, p: &Prof) -> Case {
    let g = p.glitch[t.below(p.glitch.len())];
    let ns = match p.ns {
        0 => false,
        2 => true,
        _ => t.chance(1, 2),
    };
    let pes = p.pes || p.dtd && t.chance(1, 6);
    let o = Opts { glitch: g, ns: ns || (p.ns == 1 && t.chance(1, 4)), dtd: p.dtd, ext: p.ext, big: p.big, nonascii: p.nonascii, depth: p.depth, pes, ..Default::default() };
    let mut doc = G::new(t, o).document();
    if doc.text.is_empty() {
        doc.text.push('x');
    }
    let mut c = Cfg::default();
    c.h = p.h;
    if p.hopt != 0 {
        let r = t.u32();
        if r & 3 == 3 {
            c.h |= p.hopt;
        } else {
            c.h |= p.hopt & (r >> 2 ^ r << 7);
        }
    }
    if ns {
        c.ns = Some(['\u{1}', '|', '!', '\n'][t.below(4)]);
        // 2.6.1 refuses namespace names with the separator in them
        let has = |x: &str| x.contains(c.ns.unwrap()) || x.contains("&#");
        if p.reference && (has(&doc.text) || doc.ents.iter().any(|e| has(&e.1))) {
            c.ns = Some('\u{1}');
        }
        c.triplets = t.chance(1, 3);
    }
    if p.ext {
        c.pe = if pes && t.chance(3, 4) { 2 } else { t.below(3) as u8 };
        c.foreign = t.chance(1, 12);
    }
    let mut enc = Enc::Utf8;
    if p.encs {
        enc = [Enc::Utf8, Enc::Utf16le, Enc::Utf16be][t.below(3)];
    }
    for (s, d) in &doc.ents {
        let mut feeds = if p.feeds { gen_feeds(t, d.len()) } else { one_feed() };
        // libexpat 2.6.1 itself misbehaves when the first chunk of an external entity is empty
        while p.reference && !feeds.is_empty() && feeds[0].n == 0 && !feeds[0].fin {
            feeds.remove(0);
        }
        let mode = if p.ext_modes { [1, 1, 1, 0, 2][t.below(5)] } else { 1 };
        c.ents.push(ExtEnt { sys: s.clone(), data: d.as_bytes().to_vec(), enc: None, feeds, mode });
    }
    if p.defaults > 0 && t.chance(1, p.defaults) {
        c.h |= [H_DEFAULT, H_DEFEXPAND][t.below(2)];
    }
    c.pos = p.pos;
    if p.dc && t.chance(1, 2) {
        c.h |= [H_DEFAULT, H_DEFEXPAND][t.below(2)];
        c.dc = t.u32();
        // libexpat passes nothing on for the square brackets at the end of an entity
        if p.reference && (doc.text.contains("]\"") || doc.text.contains("]'") || doc.ents.iter().any(|e| e.1.ends_with(']') || e.1.contains("]\"") || e.1.contains("]'"))) {
            c.dc &= !H_TEXT;
        }
        if p.reference && p.big && p.encs {
            c.dc &= !H_TEXT;
        }
    }
    if p.base && t.chance(1, 2) {
        c.base = Some(["http://b/", "", "é/日"][t.below(3)].to_string());
    }
    c.parser_arg = t.chance(1, 4);
    c.ext_arg = t.chance(1, 4);
    c.mm = t.chance(1, 4);
    if p.ret0 {
        c.ns_ret = 1 - t.chance(1, 3) as i32;
    }
    if p.stops && t.chance(2, 3) {
        let n = t.range(1, 6);
        let mut at = 0;
        for _ in 0..n {
            at += t.size(20);
            c.acts.push((at, Act::Stop(!(p.aborts && t.chance(1, 6)))));
        }
    }
    if p.misc_acts {
        let n = t.below(5);
        for _ in 0..n {
            let at = t.size(30);
            let a = match t.below(12) {
                0 => Act::Query,
                1 => Act::GetBase,
                2 => Act::SetBase(if t.chance(1, 3) { None } else { Some(["nb/", "x"][t.below(2)].into()) }),
                3 => Act::Status,
                4 => Act::UserData,
                5 => Act::ParamEnt,
                6 => Act::SetEncoding,
                7 => Act::ForeignDtd,
                8 => Act::Handlers(1 << t.below(19), t.chance(1, 2)),
                9 => Act::Handlers(t.u32() & H_ALL, t.chance(1, 2)),
                10 => Act::Triplets(t.chance(1, 2)),
                _ => Act::Resume,
            };
            c.acts.push((at, a));
        }
    }
    let data = encode(&doc.text, enc).unwrap();
    let data = match enc {
        Enc::Utf16le => [&[0xff, 0xfe], &data[..]].concat(),
        Enc::Utf16be => [&[0xfe, 0xff], &data[..]].concat(),
        _ => data,
    };
    let mut feeds = if p.feeds { gen_feeds(t, data.len()) } else { one_feed() };
    if p.reference && p.pos {
        // libexpat counts two lines for a CR LF cut in two after the root element
        feeds = join_crlf(feeds, &data);
    }
    Case { doc, cfg: c, data, feeds, glitch: g, enc }
}

fn near_crlf(at: usize, data: &[u8]) -> bool {
    at > 0 && at < data.len() && data[at.saturating_sub(4)..at].contains(&b'\r') && data[at - 1..(at + 3).min(data.len())].contains(&b'\n')
}
/// Is there a cut between a CR and a LF?
pub fn cuts_crlf(feeds: &[Feed], data: &[u8]) -> bool {
    let mut at = 0;
    for f in feeds {
        at += f.n.min(data.len() - at);
        if near_crlf(at, data) {
            return true;
        }
    }
    false
}
/// Joins pieces that are cut between a CR and a LF.
fn join_crlf(feeds: Vec<Feed>, data: &[u8]) -> Vec<Feed> {
    let mut v: Vec<Feed> = vec![];
    let mut at = 0;
    let mut held = 0;
    let mut some = false;
    for f in feeds {
        let n = f.n.min(data.len() - at) + held;
        at += n - held;
        let cut = near_crlf(at, data);
        // nothing follows a piece that was held back until there is something in it
        if cut && !f.fin {
            held = n;
            some = true;
            continue;
        }
        if some && n == held && !f.fin {
            continue;
        }
        v.push(Feed { n, ..f });
        held = 0;
        some = false;
    }
    v
}
pub fn desc_case(cfg: &Cfg, doc: &str, feeds: &[Feed]) -> String {
    let mut s = format!("document: {:?}", doc);
    for e in &cfg.ents {
        s += &format!("\n entity {}: {:?} (mode {}, enc {:?}, feeds {})", e.sys, String::from_utf8_lossy(&e.data), e.mode, e.enc, desc_feeds(&e.feeds));
    }
    s += &format!(
        "\n ns={:?} triplets={} enc={:?} handlers={:x} pe={} foreign={} base={:?} pos={} dc={:x} acts={:?} salt={} parserarg={} mm={}",
        cfg.ns, cfg.triplets, cfg.enc, cfg.h, cfg.pe, cfg.foreign, cfg.base, cfg.pos, cfg.dc, cfg.acts, cfg.salt, cfg.parser_arg, cfg.mm
    );
    s += &format!("\n feeds: {}", desc_feeds(feeds));
    s
}
pub fn desc_feeds(feeds: &[Feed]) -> String {
    let f: Vec<String> = feeds
        .iter()
        .map(|f| format!("{}{}{}", ["P", "B", "G"][f.how as usize], if f.n == usize::MAX { "*".into() } else { f.n.to_string() }, if f.fin { "!" } else { "" }))
        .collect();
    if f.len() > 40 {
        format!("{} ... ({} feeds)", f[..40].join(" "), f.len())
    } else {
        f.join(" ")
    }
}

/// Full comparison of two traces of the same case.
pub fn same(a: &Trace, an: &str, b: &Trace, bn: &str) -> Option<String> {
    if let Some(d) = diff_recs(&merged(a), an, &merged(b), bn) {
        return Some(d);
    }
    if (a.status, a.err) != (b.status, b.err) {
        return Some(format!("{}: status {} error {} at {:?} | {}: status {} error {} at {:?}", an, a.status, a.err, a.end, bn, b.status, b.err, b.end));
    }
    None
}
pub fn bad(t: &Trace) -> Option<String> {
    t.bad.first().cloned()
}

/// Is there anything like an entity value with a parameter-entity reference in it?
pub fn pe_in_value(t: &[u8]) -> bool {
    let t: Vec<u8> = t.iter().copied().filter(|b| *b != 0).collect();
    let mut i = 0;
    while let Some(k) = t[i..].windows(8).position(|w| w == b"<!ENTITY") {
        i += k + 8;
        if let Some(q) = t[i..].iter().position(|b| *b == b'"' || *b == b'\'') {
            let open = t[i + q];
            let rest = &t[i + q + 1..];
            let n = rest.iter().position(|b| *b == open).unwrap_or(rest.len());
            let v = &rest[..n];
            for (j, b) in v.iter().enumerate() {
                if *b == b'%' && v[j + 1..].iter().position(|b| *b == b';').map_or(false, |e| e > 0) {
                    return true;
                }
            }
        }
    }
    false
}

/// Brackets in front of the end of an IGNORE section: 2.6.1 does not see the end then.
pub fn ignored_brackets(t: &[u8]) -> bool {
    let t: Vec<u8> = t.iter().copied().filter(|b| *b != 0).collect();
    let has = |p: &[u8]| t.windows(p.len()).any(|w| w == p);
    has(b"]]]") && has(b"<![") && (has(b"IGNORE") || has(b"%"))
}

/// The common differential check.
pub fn diff_case(env: &Env, t: &mut Tape, p: &Prof) -> Out {
    let mut out = Out::new();
    let c = gen_case(t, p);
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}{:?}", c.cfg.acts, c.feeds).as_bytes()) ^ (c.cfg.h as u64) << 20;
    if env.describe {
        out.desc = desc_case(&c.cfg, &c.doc.text, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    if a.overflow {
        out.discard = true;
        return out;
    }
    let mut texts: Vec<&[u8]> = vec![&c.data];
    for e in &c.cfg.ents {
        texts.push(&e.data);
    }
    // after a reference to an undeclared parameter entity, 2.2.9 ends the entity value and 2.6.1 goes
    // on (and can crash when XML_DefaultCurrent is called then)
    if texts.iter().any(|t| pe_in_value(t)) {
        out.labels.push("not compared: parameter-entity reference in an entity value");
        if let Some(d) = bad(&a) {
            return out.fail(d);
        }
        return out;
    }
    if texts.iter().any(|t| ignored_brackets(t)) {
        out.discard = true;
        return out;
    }
    let b = run(env.rf(), &c.cfg, &c.data, &c.feeds);
    if b.overflow {
        out.discard = true;
        return out;
    }
    if std::env::var("HARNESS_DUMP").is_ok() {
        for (n, x) in [("rexpat", &a), ("libexpat", &b)] {
            eprintln!("== {}", n);
            for r in &x.recs {
                eprintln!("{}", fmt_rec(r));
            }
        }
    }
    out.nontrivial = a.recs.len() > 3;
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    if a.recs.iter().any(|r| r.level > 0) {
        out.labels.push("events in external entities");
    }
    // the installed libexpat (with the fix of CVE-2024-8176) opens nested entities later: when an entity
    // turns out not to be complete in itself it may have reported less by then
    let (mut a, mut b) = (a, b);
    // (XML_DefaultCurrent within an event whose start is behind its end, because of an error found in it)
    for x in [&mut a, &mut b] {
        x.recs.retain(|r| !matches!(&r.ev, Ev::Default(d) if d.is_empty()));
    }
    if (a.err, b.err) == (13, 13) && a.recs.len() > b.recs.len() {
        let n = b.recs.len();
        a.recs.truncate(n);
        while matches!(a.recs.last(), Some(Rec { ev: Ev::Text(_), .. })) {
            a.recs.pop();
        }
        while matches!(b.recs.last(), Some(Rec { ev: Ev::Text(_), .. })) {
            b.recs.pop();
        }
        out.labels.push("entity not complete in itself");
    }
    // libexpat gives square brackets at the end of an external entity an extent of zero
    for r in a.recs.iter_mut().chain(b.recs.iter_mut()) {
        if let (Ev::Text(x), Some(p)) = (&r.ev, r.pos.as_mut()) {
            if r.level > 0 && (x == b"]" || x == b"]]") {
                p.count = 0;
            }
            // and every converted piece of a CDATA section the extent of all the rest
            if x.len() > 1000 {
                p.count = 0;
            }
        }
    }
    // libexpat reports the lines and columns of events in internal entities differently once it has been
    // suspended there
    for x in [&mut a, &mut b] {
        let mut susp = false;
        for r in x.recs.iter_mut() {
            match (&r.ev, r.pos.as_mut()) {
                (Ev::Api(s), _) if s.starts_with("stop(true) -> 1") => susp = true,
                (_, Some(p)) if susp => {
                    p.line = 0;
                    p.col = 0;
                }
                _ => {}
            }
        }
        if susp {
            if let Some(p) = x.end.as_mut() {
                p.line = 0;
                p.col = 0;
            }
        }
    }
    // a UTF-16 libexpat passes on text in pieces that can end within a character, and counts both halves
    if env.rf().wide && p.big {
        for x in [&mut a, &mut b] {
            for q in x.recs.iter_mut().filter_map(|r| r.pos.as_mut()).chain(x.end.as_mut()) {
                q.col = 0;
            }
        }
    }
    // libexpat does not always notice before the next call, or the end of the child, that it was stopped
    // for good
    let stopped = |x: &Trace| x.recs.iter().position(|r| matches!(&r.ev, Ev::Api(s) if s.starts_with("stop(false) -> 1")));
    if let (Some(i), Some(j)) = (stopped(&a), stopped(&b)) {
        if i == j && same(&a, "rexpat", &b, "libexpat").is_some() && a.err == if a.recs[i].level == 0 { 35 } else { 21 } {
            a.recs.truncate(i);
            b.recs.truncate(i);
            b.err = a.err;
            b.status = a.status;
            b.end = a.end;
            b.ops = a.ops.clone();
        }
    }
    if let Some(d) = same(&a, "rexpat", &b, "libexpat") {
        return out.fail(d);
    }
    if p.pos && a.end != b.end {
        return out.fail(format!("final position: rexpat {:?}, libexpat {:?}", a.end, b.end));
    }
    if a.ops != b.ops {
        let i = (0..).find(|i| a.ops.get(*i) != b.ops.get(*i)).unwrap();
        return out.fail(format!("call {}: rexpat {:?}, libexpat {:?}", i, a.ops.get(i), b.ops.get(i)));
    }
    if let Some(d) = bad(&a) {
        return out.fail(d);
    }
    out
}

// ---- the document model ----
/// A configuration that parses a model document; all external entities parsed in one go.
pub fn model_cfg(d: &MDoc) -> Cfg {
    let mut c = Cfg::default();
    c.h = H_ALL & !H_NOTSA & !H_UNKENC;
    c.ns = d.ns;
    c.triplets = d.triplets;
    c.pe = d.pe;
    c.base = d.base.clone();
    c.max_depth = 20;
    for (s, x) in &d.ents {
        c.ents.push(ExtEnt { sys: s.clone(), data: x.as_bytes().to_vec(), enc: None, feeds: one_feed(), mode: 1 });
    }
    c
}
/// What the trace says about content, in the form the model uses.
pub fn observed(t: &Trace) -> Vec<Rec> {
    let mut v = merged(t);
    v.retain(|r| !matches!(r.ev, Ev::Api(_)));
    for r in v.iter_mut() {
        r.pos = None;
    }
    v
}
pub fn expected(d: &MDoc) -> Vec<Rec> {
    d.evs.iter().map(|e| Rec { ev: e.ev.clone(), pos: None, level: e.level }).collect()
}
pub fn desc_model(d: &MDoc, cfg: &Cfg, feeds: &[Feed]) -> String {
    desc_case(cfg, &d.text, feeds)
}
/// Parses a model document and compares with the model.
pub fn check_model(t: &Trace, d: &MDoc) -> Option<String> {
    if let Some(x) = diff_recs(&observed(t), "rexpat", &expected(d), "expected") {
        return Some(format!("{} (status {}, error {})", x, t.status, t.err));
    }
    if t.status != 1 || t.err != 0 {
        return Some(format!("well-formed document rejected: status {} error {} at {:?}", t.status, t.err, t.end));
    }
    bad(t)
}

/// What one model case varies.
#[derive(Clone, Copy)]
pub struct Vary {
    pub feeds: bool,
    pub encs: bool,
    /// a random subset of the handlers
    pub mask: bool,
}
pub const VARY: Vary = Vary { feeds: false, encs: false, mask: false };

pub struct MCase {
    pub d: MDoc,
    pub cfg: Cfg,
    pub data: B,
    pub feeds: Vec<Feed>,
    pub enc: Enc,
    /// bytes before the text: a byte order mark
    pub bom: usize,
    pub exp: Vec<Rec>,
}
impl MCase {
    /// byte offset in the data of a byte offset in the UTF-8 text
    pub fn off(&self, o: usize) -> usize {
        self.bom + encode(&self.d.text[..o], self.enc).map_or(0, |v| v.len())
    }
}

fn fits(s: &str, e: Enc) -> bool {
    match e {
        Enc::Latin1 => s.chars().all(|c| (c as u32) < 0x100),
        Enc::Ascii => s.is_ascii(),
        _ => true,
    }
}
pub fn declares(s: &str) -> bool {
    s.starts_with("<?xml") && s[5..].starts_with(|c: char| c.is_ascii_whitespace())
}
/// encoded text, encoding, length of the byte order mark, name for the protocol, name to declare
pub fn pick_enc(t: &mut Tape, text: &str) -> (Enc, usize, Option<&'static str>, Option<&'static str>) {
    let decl = declares(text);
    match t.below(14) {
        1 => (Enc::Utf8, 3, None, None),
        2 | 3 if !decl => ([Enc::Utf16le, Enc::Utf16be][t.below(2)], 2, None, None),
        4 | 5 if fits(text, Enc::Latin1) => (Enc::Latin1, 0, Some(["ISO-8859-1", "iso-8859-1", "Iso-8859-1"][t.below(3)]), None),
        6 if fits(text, Enc::Latin1) && !decl => (Enc::Latin1, 0, None, Some(["ISO-8859-1", "iso-8859-1"][t.below(2)])),
        7 if fits(text, Enc::Ascii) => (Enc::Ascii, 0, Some(["US-ASCII", "us-ascii"][t.below(2)]), None),
        8 if fits(text, Enc::Ascii) && !decl => (Enc::Ascii, 0, None, Some("US-ASCII")),
        9 => {
            let k = t.below(2);
            ([Enc::Utf16le, Enc::Utf16be][k], 0, Some([["UTF-16LE", "utf-16le"], ["UTF-16BE", "utf-16be"]][k][t.below(2)]), None)
        }
        10 => ([Enc::Utf16le, Enc::Utf16be][t.below(2)], 2, Some("UTF-16"), None),
        11 if !decl => ([Enc::Utf16le, Enc::Utf16be][t.below(2)], 2, None, Some(["UTF-16", "utf-16"][t.below(2)])),
        12 if text.starts_with('<') && !decl => ([Enc::Utf16le, Enc::Utf16be][t.below(2)], 0, None, None),
        13 => (Enc::Utf8, 0, Some(["UTF-8", "utf-8"][t.below(2)]), None),
        _ => (Enc::Utf8, 0, None, None),
    }
}
pub fn encode_bom(text: &str, e: Enc, bom: usize) -> B {
    let mut v: B = vec![];
    if bom > 0 {
        v.extend_from_slice(match e {
            Enc::Utf16le => &[0xff, 0xfe],
            Enc::Utf16be => &[0xfe, 0xff],
            _ => &[0xef, 0xbb, 0xbf],
        });
    }
    v.extend_from_slice(&encode(text, e).unwrap());
    v
}
/// Puts an XML declaration naming the encoding before the text (the model changes with it).
pub fn prepend_decl(d: &mut MDoc, enc: &str) {
    let p = format!("<?xml version=\"1.0\" encoding='{}'?>", enc);
    for e in d.evs.iter_mut() {
        if e.level == 0 {
            if let Some(s) = &mut e.span {
                *s = (s.0 + p.len(), s.1 + p.len());
            }
        }
    }
    d.root = (d.root.0 + p.len(), d.root.1 + p.len());
    d.evs.insert(
        0,
        model::MRec { ev: Ev::XmlDecl { version: Some(b"1.0".to_vec()), enc: Some(enc.as_bytes().to_vec()), sa: -1 }, level: 0, span: Some((0, p.len())) },
    );
    d.text = p + &d.text;
}

pub fn vary_model(t: &mut Tape, mut d: MDoc, v: Vary) -> MCase {
    let mut cfg = model_cfg(&d);
    let (mut enc, mut bom) = (Enc::Utf8, 0);
    if v.encs {
        let (e, b, proto, decl) = pick_enc(t, &d.text);
        enc = e;
        bom = b;
        cfg.enc = proto.map(|s| s.to_string());
        if let Some(n) = decl {
            prepend_decl(&mut d, n);
        }
        for x in cfg.ents.iter_mut() {
            let text = String::from_utf8(x.data.clone()).unwrap();
            let (e, b, proto, decl) = pick_enc(t, &text);
            if decl.is_none() {
                x.data = encode_bom(&text, e, b);
                x.enc = proto.map(|s| s.to_string());
            }
        }
    }
    let data = encode_bom(&d.text, enc, bom);
    let mut feeds = one_feed();
    if v.feeds {
        feeds = gen_feeds(t, data.len());
        for x in cfg.ents.iter_mut() {
            x.feeds = gen_feeds(t, x.data.len());
        }
    }
    let mut exp = expected(&d);
    if v.mask {
        let r = t.u32();
        // without the external-entity handler other declarations would be seen
        let m = (H_ALL & !H_NOTSA & !H_UNKENC) & !(r & r >> 11) | H_EXT;
        cfg.h = m;
        exp = filter_mask(exp, m);
    }
    MCase { d, cfg, data, feeds, enc, bom, exp }
}
pub fn handler_of(e: &Ev) -> u32 {
    match e {
        Ev::Start { .. } | Ev::End(_) => H_ELEM,
        Ev::Text(_) => H_TEXT,
        Ev::Pi(..) => H_PI,
        Ev::Comment(_) => H_COMMENT,
        Ev::CdStart | Ev::CdEnd => H_CDATA,
        Ev::DtStart { .. } | Ev::DtEnd => H_DOCTYPE,
        Ev::Entity { .. } => H_ENTITY,
        Ev::Unparsed { .. } => H_UNPARSED,
        Ev::Notation { .. } => H_NOTATION,
        Ev::NsStart(..) | Ev::NsEnd(_) => H_NS,
        Ev::NotStandalone => H_NOTSA,
        Ev::ExtRef { .. } => H_EXT,
        Ev::Skipped(..) => H_SKIPPED,
        Ev::UnkEnc(_) => H_UNKENC,
        Ev::Element { .. } => H_ELDECL,
        Ev::Attlist { .. } => H_ATTLIST,
        Ev::XmlDecl { .. } => H_XMLDECL,
        Ev::Default(_) => H_DEFAULT,
        Ev::Api(_) => 0,
    }
}
/// What remains of the events when only the handlers in m are set.
pub fn filter_mask(exp: Vec<Rec>, m: u32) -> Vec<Rec> {
    let mut v = vec![];
    for mut r in exp {
        if let (Ev::Unparsed { name, base, sys, pubid, notation }, true) = (&r.ev, m & H_UNPARSED == 0) {
            r.ev = Ev::Entity {
                name: name.clone(),
                pe: false,
                value: None,
                base: base.clone(),
                sys: sys.clone(),
                pubid: pubid.clone(),
                notation: notation.clone(),
            };
        }
        if handler_of(&r.ev) & m != 0 {
            v.push(r);
        }
    }
    merge_recs(v)
}
pub fn merge_recs(recs: Vec<Rec>) -> Vec<Rec> {
    let mut v: Vec<Rec> = vec![];
    for r in recs {
        if let Some(l) = v.last_mut() {
            if l.level == r.level {
                match (&mut l.ev, &r.ev) {
                    (Ev::Text(a), Ev::Text(b)) | (Ev::Default(a), Ev::Default(b)) => {
                        join_text(a, b);
                        continue;
                    }
                    _ => {}
                }
            }
        }
        v.push(r);
    }
    v
}
/// Events without the harness's own notes, text joined, positions dropped.
pub fn plain(t: &Trace) -> Vec<Rec> {
    let mut v: Vec<Rec> = t.recs.iter().filter(|r| !matches!(r.ev, Ev::Api(_))).cloned().collect();
    for r in v.iter_mut() {
        r.pos = None;
    }
    merge_recs(v)
}
pub fn check_exp(t: &Trace, exp: &[Rec]) -> Option<String> {
    if let Some(x) = diff_recs(&plain(t), "rexpat", exp, "expected") {
        return Some(format!("{} (status {}, error {})", x, t.status, t.err));
    }
    if t.status != 1 || t.err != 0 {
        return Some(format!("well-formed document rejected: status {} error {} at {:?}", t.status, t.err, t.end));
    }
    bad(t)
}
/// A whole model case: generate, vary, parse, compare.
pub fn model_check(env: &Env, t: &mut Tape, o: MOpts, v: Vary) -> Out {
    let mut out = Out::new();
    let d = Gen::new(t, o).document();
    let c = vary_model(t, d, v);
    out.hash = fnv(&c.data) ^ fnv(format!("{:?}", c.feeds).as_bytes());
    out.labels = c.d.labels.clone();
    out.labels.sort();
    out.labels.dedup();
    if env.describe {
        out.desc = desc_model(&c.d, &c.cfg, &c.feeds);
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), &c.cfg, &c.data, &c.feeds);
    out.nontrivial = c.exp.len() > 4;
    if let Some(m) = check_exp(&a, &c.exp) {
        // a note for whoever reads the failure; the verdict does not depend on it
        let b = run(env.rf(), &c.cfg, &c.data, &c.feeds);
        return out.fail(format!("{}{}", m, if check_exp(&b, &c.exp).is_some() { " [libexpat differs from the model, too]" } else { "" }));
    }
    out
}

/// An event without a position at the outermost level.
pub fn rec0(ev: Ev) -> Rec {
    Rec { ev, pos: None, level: 0 }
}
/// A case whose events (or whose error, after these events) are known.
pub struct Known<'a> {
    pub cfg: &'a Cfg,
    pub data: &'a [u8],
    pub feeds: &'a [Feed],
    pub exp: &'a [Rec],
    /// 0: accepted
    pub err: u32,
}
pub fn run_known(env: &Env, k: &Known) -> Option<String> {
    let a = run(env.rx(), k.cfg, k.data, k.feeds);
    if k.err == 0 {
        return check_exp(&a, k.exp);
    }
    if (a.status, a.err) != (0, k.err) {
        return Some(format!("status {} error {} where error {} was expected (at {:?})", a.status, a.err, k.err, a.end));
    }
    let mut p = plain(&a);
    // text just before the error may be missing or there in part
    if matches!(p.last(), Some(Rec { ev: Ev::Text(_), .. })) {
        p.pop();
    }
    let mut e = k.exp.to_vec();
    if matches!(e.last(), Some(Rec { ev: Ev::Text(_), .. })) {
        e.pop();
    }
    diff_recs(&p, "rexpat", &e, "expected before the error").or(bad(&a))
}
/// Encodes a text in one of the encodings that need no announcement or are announced by the caller.
pub fn some_enc(t: &mut Tape, text: &str, cfg: &mut Cfg) -> (Enc, B) {
    match t.below(8) {
        0 | 1 => {
            let e = [Enc::Utf16le, Enc::Utf16be][t.below(2)];
            (e, encode_bom(text, e, 2))
        }
        2 if text.chars().all(|c| (c as u32) < 0x100) => {
            cfg.enc = Some("ISO-8859-1".into());
            (Enc::Latin1, encode_bom(text, Enc::Latin1, 0))
        }
        3 if text.is_ascii() => {
            cfg.enc = Some("US-ASCII".into());
            (Enc::Ascii, encode_bom(text, Enc::Ascii, 0))
        }
        _ => (Enc::Utf8, text.as_bytes().to_vec()),
    }
}
/// Cuts for long inputs: an incomplete token is scanned again with every piece, so fewer of them.
pub fn big_feeds(t: &mut Tape, len: usize) -> Vec<Feed> {
    if len < 1200 {
        return gen_feeds(t, len);
    }
    let most = (1_500_000 / len).max(4);
    let every = |k: usize| (1..len / k + 1).map(|i| i * k).filter(|c| *c < len).collect::<Vec<_>>();
    let slack = [0, 1, 17, 1024][t.below(4)];
    match t.below(6) {
        0 | 1 => one_feed(),
        2 => feeds_from(&every(1024.max(len / most)), len, |_| (0, 0), false),
        3 => {
            let k = [1, 3, 7, 64, 1000][t.below(5)].max(len / most);
            feeds_from(&every(k), len, move |i| ((i % 3) as u8, slack), true)
        }
        _ => {
            let n = t.range(1, 9.min(most));
            let mut cuts = vec![];
            for _ in 0..n {
                let c = t.below(len + 1);
                cuts.push(c);
                cuts.push((c + t.below(3)).min(len));
            }
            let how = t.below(3) as u8;
            feeds_from(&cuts, len, move |_| (how, slack), t.chance(1, 3))
        }
    }
}
pub fn rng_of(t: &mut Tape) -> Rng {
    Rng(t.u32() as u64 ^ 0x9E37)
}
pub fn rname(r: &mut Rng, len: usize) -> String {
    const F: &[char] = &['a', 'b', 'c', 'x', 'y', '_', 'é', '日', 'Z'];
    const M: &[char] = &['a', 'b', 'c', '1', '2', '-', '.', 'é', '本', 'x'];
    let mut s = String::new();
    s.push(F[r.below(F.len())]);
    for _ in 1..len.max(1) {
        s.push(M[r.below(M.len())]);
    }
    s
}
/// A length, often near where buffers grow.
pub fn rlen(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(8) {
        0..=3 => r.below(9),
        4 => r.below(40),
        5 => (1usize << r.below(14)) + r.below(5),
        6 => (1024 * (1 + r.below(4)) + r.below(9)).saturating_sub(4),
        _ => r.below(max + 1),
    };
    n.min(max)
}
