//! Memory safety: everything is run in a build that checks every access.
use super::common::*;
use super::hist::*;
use super::*;

const TOK: &[&str] = &[
    "<", ">", "</", "/>", "<?", "?>", "<!", "<!--", "-->", "<![", "<![CDATA[", "]]>", "]", "[", "&", ";", "&#", "&#x", "%", "'", "\"", "=", " ", "\n", "\r", "\r\n", "\t", "a", "b:c", "xmlns", "xmlns:p", "xml", "xml:lang", "<a>", "</a>", "<a",
    "<!DOCTYPE a [", "]>", "<!ENTITY e '", "<!ENTITY % p '", "<!ENTITY % q SYSTEM 'x'>", "<!ENTITY f SYSTEM 'y'>", "&e;", "&f;", "%p;", "%q;", "<!ATTLIST a b CDATA '", "<!ATTLIST a c (x|y) #IMPLIED>", "<!ELEMENT a (", "(b|c)*", ",", "|", "#PCDATA", "EMPTY", "ANY",
    "<!NOTATION n SYSTEM 'n'>", "PUBLIC", "SYSTEM", "NDATA n", "#REQUIRED", "#FIXED", "ID", "IDREFS", "NMTOKENS", "NOTATION (n)", "<![INCLUDE[", "<![IGNORE[", "<?xml version='1.0' encoding='", "<?xml version='1.0'?>", "standalone='yes'", "utf-8", "utf-16",
    "iso-8859-1", "us-ascii", "mb", "&amp;", "&lt;", "&#65;", "&#x10FFFF;", "&#xD800;", "&#0;", "é", "\u{2028}", "𐀀", "\u{feff}", "\u{fffe}", "--", "0", "9", ".", "-", ":", "_",
];
const RAW: &[&[u8]] = &[
    b"\xff", b"\xfe", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\x00", b"<\0", b"\0<", b"\xc3", b"\xe2\x82", b"\xf0\x90\x80", b"\xf4\x90\x80\x80", b"\xed\xa0\x80", b"\x80", b"\xc0\x80", b"\xd8\x00", b"\x00\xdc", b"\xdc\x00", b"\xe5\x3f", b"\xf1\x80", b"\xf9\x81\x82\x83", b"\x7f", b"\x01",
];
const ENCN: &[&str] = &["UTF-8", "UTF-16", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "mb", "none", "", "utf-16lex", "é", "a b"];

fn token(t: &mut Tape) -> B {
    match t.weighted(&[12, 2, 2]) {
        0 => TOK[t.below(TOK.len())].as_bytes().to_vec(),
        1 => RAW[t.below(RAW.len())].to_vec(),
        _ => vec![t.word() as u8],
    }
}
fn spoil(t: &mut Tape, d: &mut B) {
    let n = t.weighted(&[3, 3, 2, 1, 1]);
    for _ in 0..n {
        let len = d.len();
        let at = t.below(len + 1);
        match t.below(7) {
            0 if len > 0 => d[at % len] = t.word() as u8,
            1 => {
                let x = token(t);
                d.splice(at..at, x);
            }
            2 if len > 0 => {
                let a = at % len;
                let b = (a + t.size(20)).min(len);
                d.drain(a..b);
            }
            3 if len > 0 => {
                let a = at % len;
                let b = (a + t.size(60)).min(len);
                let x = d[a..b].to_vec();
                let at = t.below(len + 1);
                d.splice(at..at, x);
            }
            4 => d.truncate(at),
            5 if len > 0 => d[at % len] ^= 1 << t.below(8),
            _ => {
                let x = token(t);
                let e = (at + x.len()).min(len);
                d.splice(at..e, x);
            }
        }
    }
}
fn recode(t: &mut Tape, d: B) -> B {
    let s = String::from_utf8_lossy(&d).into_owned();
    match t.weighted(&[8, 2, 2, 1, 1]) {
        1 => [b"\xff\xfe".to_vec(), encode(&s, Enc::Utf16le).unwrap()].concat(),
        2 => [b"\xfe\xff".to_vec(), encode(&s, Enc::Utf16be).unwrap()].concat(),
        3 => encode(&s, Enc::Utf16le).unwrap(),
        4 => encode(&s, Enc::Utf16be).unwrap(),
        _ => d,
    }
}
fn unk(t: &mut Tape) -> Unk {
    let mut map: Vec<i32> = (0..256).collect();
    let how = t.below(5);
    for b in 0..256usize {
        map[b] = match how {
            0 => b as i32,
            1 if b >= 0xf8 => -4,
            1 if b >= 0xf0 => -3,
            1 if b >= 0xe0 => -2,
            2 if b >= 0x80 => 0x400 + b as i32,
            3 if b >= 0x80 => [-2, -3, -4, -1, 0x2028, 0xffff, 0xd800, 0x20ac][t.below(8)],
            4 if t.chance(1, 40) => [-2, -5, -1, 0x10000, 0x41, 0xfffe, i32::MAX, i32::MIN][t.below(8)],
            _ => b as i32,
        };
    }
    Unk { map, convert: !t.chance(1, 4), ret: !t.chance(1, 8) as i32, release: t.chance(1, 2), only: None }
}
fn odd_acts(t: &mut Tape, c: &mut Cfg) {
    let n = t.weighted(&[3, 3, 2, 1]);
    for _ in 0..n {
        let at = t.size(30);
        let a = match t.below(13) {
            0 => Act::Stop(true),
            1 => Act::Stop(t.chance(1, 2)),
            2 => Act::DefaultCurrent,
            3 => Act::Context,
            4 => Act::Query,
            5 => Act::SetBase(Some("zz".into())),
            6 => Act::SetBase(None),
            7 => Act::Handlers(t.u32() & H_ALL, t.chance(1, 2)),
            8 => Act::Handlers(H_DEFAULT | H_DEFEXPAND, t.chance(1, 2)),
            9 => Act::UserData,
            10 => Act::Triplets(true),
            11 => Act::GetBase,
            _ => Act::Status,
        };
        c.acts.push((at, a));
    }
}
fn odd(t: &mut Tape, c: &mut Cfg) {
    if t.chance(1, 3) {
        c.enc = Some(ENCN[t.below(ENCN.len())].into());
    }
    if t.chance(1, 3) {
        c.unk = Some(unk(t));
        c.h |= H_UNKENC;
    }
    c.ctx = t.chance(1, 3);
    c.pos = t.chance(1, 3);
    c.misuse = t.chance(1, 8);
    c.leave = t.chance(1, 8);
    if t.chance(1, 3) {
        c.dc = t.u32();
    }
    if t.chance(1, 3) {
        c.h &= t.u32() | t.u32();
    }
    if t.chance(1, 3) {
        c.h |= [H_DEFAULT, H_DEFEXPAND][t.below(2)];
    }
    c.h &= !(H_NOTSA * !t.chance(1, 2) as u32);
    odd_acts(t, c);
    for e in c.ents.iter_mut() {
        if t.chance(1, 6) {
            e.enc = Some(ENCN[t.below(ENCN.len())].into());
        }
        if t.chance(1, 5) {
            e.mode = [0, 2, 3, 4][t.below(4)];
        }
    }
}
fn go(env: &Env, out: Out, c: &Cfg, data: &[u8], feeds: &[Feed]) -> Out {
    let mut out = out;
    out.hash = fnv(data) ^ fnv(format!("{:?}{:?}{:?}", c.acts, feeds, c.enc).as_bytes()) ^ (c.h as u64) << 20;
    if env.describe {
        out.desc = desc_case(c, &String::from_utf8_lossy(data), feeds) + &format!("\n bytes: {}", show(data));
        predesc(env, &out.desc);
    }
    let a = run(env.rx(), c, data, feeds);
    if a.overflow {
        out.discard = true;
        return out;
    }
    out.nontrivial = a.recs.len() > 1;
    out.labels.push(if a.err == 0 { "accepted" } else { "rejected" });
    if let Some(d) = bad(&a) {
        return out.fail(d);
    }
    if a.status > 2 || a.err > 41 {
        return out.fail(format!("status {} error {}", a.status, a.err));
    }
    out
}
const P: Prof = Prof {
    glitch: &[0, 0, 40],
    depth: 4,
    big: false,
    defaults: 4,
    feeds: true,
    dc: true,
    stops: true,
    aborts: true,
    misc_acts: true,
    ext_modes: true,
    base: true,
    ret0: true,
    hopt: H_NOTSA | H_UNKENC,
    reference: false,
    ..PROF
};
fn inputs(env: &Env, t: &mut Tape) -> Out {
    let spoils = t.chance(3, 4);
    let big = t.chance(1, 6);
    let mut c = gen_case(t, &Prof { big, ..P });
    odd(t, &mut c.cfg);
    if spoils {
        if !c.cfg.ents.is_empty() && t.chance(1, 2) {
            let k = t.below(c.cfg.ents.len());
            spoil(t, &mut c.cfg.ents[k].data);
        } else {
            spoil(t, &mut c.data);
        }
    }
    c.data = recode(t, c.data);
    for e in c.cfg.ents.iter_mut() {
        if t.chance(1, 4) {
            e.data = recode(t, std::mem::take(&mut e.data));
        }
    }
    let f = gen_feeds(t, c.data.len());
    go(env, Out::new(), &c.cfg, &c.data, &f)
}
fn bytes(env: &Env, t: &mut Tape) -> Out {
    let mut c = Cfg::default();
    c.h = H_ALL & !H_UNKENC;
    c.pe = t.below(3) as u8;
    c.foreign = t.chance(1, 8);
    if t.chance(1, 2) {
        c.ns = Some(['|', '\0', 'a'][t.below(3)]);
        c.triplets = t.chance(1, 2);
    }
    let mut ents = vec![];
    for s in ["x", "y"] {
        let mut d = vec![];
        for _ in 0..t.size(30) {
            d.extend(token(t));
        }
        ents.push(ExtEnt { sys: s.into(), feeds: gen_feeds(t, d.len()), data: d, enc: None, mode: 1 });
    }
    let mut d: B = vec![];
    // half of them begin like documents
    match t.below(6) {
        0 => d.extend(b"<a>"),
        1 => d.extend(b"<!DOCTYPE a ["),
        2 => d.extend(format!("<?xml version='1.0' encoding='{}'?><a>", ENCN[t.below(ENCN.len())]).bytes()),
        3 => d.extend(b"<!DOCTYPE a [<!ENTITY e 'v<b/>'><!ENTITY f SYSTEM 'y'><!ENTITY % p '<!ELEMENT a ANY>'><!ENTITY % q SYSTEM 'x'>"),
        _ => {}
    }
    let n = t.size(80);
    for _ in 0..n {
        d.extend(token(t));
    }
    c.ents = ents;
    odd(t, &mut c);
    let d = recode(t, d);
    let f = gen_feeds(t, d.len());
    go(env, Out::new(), &c, &d, &f)
}
fn histories(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let sp = t.chance(1, 3);
    let mut plan = gen_plan(t, &Prof { feeds: false, encs: true, ..P });
    let mut x = 0;
    for c in plan.cases.iter_mut() {
        if sp {
            spoil(t, &mut c.data);
        }
        if t.chance(1, 4) {
            odd(t, &mut c.cfg);
        }
        // nothing is called in a child's handler that asks about its parent
        c.cfg.misuse = false;
        x ^= fnv(&c.data).rotate_left(9);
    }
    out.hash = fnv(format!("{:?}", plan.ops).as_bytes()) ^ x;
    if env.describe {
        out.desc = desc_plan(&plan);
        predesc(env, &out.desc);
    }
    let a = run_hist(env.rx(), &plan, true);
    if a.overflow {
        out.discard = true;
        return out;
    }
    out.nontrivial = a.calls > 3;
    if a.lines.iter().any(|l| l.ends_with("child")) {
        out.labels.push("a parser for an external entity, later");
    }
    match a.bad.first() {
        Some(b) => {
            let b = b.clone();
            out.fail(b)
        }
        None => out,
    }
}
/// Things that grow, at the sizes at which they do.
fn grown(env: &Env, t: &mut Tape) -> Out {
    let spoils = t.chance(1, 3);
    let max = [1500, 5000, 40][t.below(3)];
    let b = c21::gen_big(t, max, 80, max * 3);
    let mut cfg = b.cfg;
    let (_, mut data) = some_enc(t, &b.text, &mut cfg);
    if spoils {
        spoil(t, &mut data);
    }
    if t.chance(1, 2) {
        odd(t, &mut cfg);
        cfg.enc = None;
    }
    let feeds = big_feeds(t, data.len());
    let mut out = Out::new();
    out.labels = b.labels;
    go(env, out, &cfg, &data, &feeds)
}
pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "an input counts when more than one event is reported for it, a history when more than three of its calls parse",
        libs: Libs::Asan,
        assumptions: &[],
        subs: vec![
            Sub { name: "inputs", kind: Kind::Random { words: 500, quick: 120000, thorough: 6000000 }, f: inputs },
            Sub { name: "bytes", kind: Kind::Random { words: 450, quick: 120000, thorough: 6000000 }, f: bytes },
            Sub { name: "histories", kind: Kind::Random { words: 600, quick: 60000, thorough: 3000000 }, f: histories },
            Sub { name: "grown", kind: Kind::Random { words: 60, quick: 16000, thorough: 600000 }, f: grown },
        ],
    }
}
