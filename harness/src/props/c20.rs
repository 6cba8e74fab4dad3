//! Characters: every code point, every short sequence of bytes or units.
use super::c25::*;
use super::*;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::{null, null_mut};

unsafe extern "C" fn t_doctype(a: *mut c_void, n: S, s: S, p: S, i: c_int) {
    let (r, l) = tr(a);
    r.put(b'D', &[&l.oz(n).unwrap_or_default(), &l.oz(s).unwrap_or_default(), &l.oz(p).unwrap_or_default(), &[48 + i as u8]]);
}
unsafe extern "C" fn t_decl(a: *mut c_void, n: S, e: S, i: c_int) {
    let (r, l) = tr(a);
    r.put(b'X', &[&l.oz(n).unwrap_or_default(), &l.oz(e).unwrap_or_default(), &[50u8.wrapping_add(i as u8)]]);
}
unsafe extern "C" fn t_skip(a: *mut c_void, n: S, i: c_int) {
    let (r, l) = tr(a);
    r.put(b'K', &[&l.z(n), &[48 + i as u8]]);
}
unsafe extern "C" fn t_notation(a: *mut c_void, n: S, _: S, s: S, p: S) {
    let (r, l) = tr(a);
    r.put(b'O', &[&l.z(n), &l.oz(s).unwrap_or_default(), &l.oz(p).unwrap_or_default()]);
}
static mut MB_CP: i32 = 0;
static mut MB_MODE: u8 = 0;
/// Two bytes 0x80 x stand for the code point; the others are as in ASCII.
unsafe extern "C" fn conv(_: *mut c_void, s: *const c_char) -> c_int {
    if *(s.add(1)) as u8 == b'x' {
        MB_CP
    } else {
        -1
    }
}
unsafe extern "C" fn t_unk(_: *mut c_void, _: S, i: *mut Encoding) -> c_int {
    for k in 0..256 {
        (*i).map[k] = if k < 128 { k as c_int } else { -1 };
    }
    (*i).map[0x80] = match MB_MODE {
        0 => MB_CP,
        _ => -2,
    };
    (*i).convert = if MB_MODE == 0 { None } else { Some(conv) };
    (*i).release = None;
    (*i).data = null_mut();
    1
}
/// One parser, used again and again.
struct Light<'a> {
    l: &'a Lib,
    p: P,
    r: Box<TR>,
    n: usize,
    ns: bool,
}
impl<'a> Light<'a> {
    fn new(l: &'a Lib, ns: bool) -> Light<'a> {
        Light { l, p: null_mut(), r: Box::new(TR { l, out: vec![], stack: vec![], ents: vec![] }), n: 0, ns }
    }
    fn parse(&mut self, enc: Option<&str>, data: &[u8]) -> (u32, u32, i64) {
        let l = self.l;
        let z = enc.map(|e| l.zstr(e));
        let own: Box<[u8]> = data.to_vec().into_boxed_slice();
        let _g = Ph::enter(l);
        unsafe {
            let ez = z.as_ref().map_or(null(), |z| z.as_ptr() as S);
            if !self.p.is_null() && self.n % 500 == 499 {
                (l.ParserFree)(self.p);
                self.p = null_mut();
            }
            self.n += 1;
            if self.p.is_null() {
                self.p = if self.ns { (l.ParserCreateNS)(ez, b'|' as _) } else { (l.ParserCreate)(ez) };
            } else {
                (l.ParserReset)(self.p, ez);
            }
            let p = self.p;
            self.r.stack = vec![p];
            self.r.out.clear();
            let a = &mut *self.r as *mut TR as *mut c_void;
            (l.SetUserData)(p, a);
            (l.SetParamEntityParsing)(p, 0);
            (l.SetHashSalt)(p, 5);
            (l.SetElementHandler)(p, t_start as *mut c_void, t_end as *mut c_void);
            (l.SetCharacterDataHandler)(p, t_text as *mut c_void);
            (l.SetProcessingInstructionHandler)(p, t_two as *mut c_void);
            (l.SetCommentHandler)(p, t_one as *mut c_void);
            (l.SetNamespaceDeclHandler)(p, t_two as *mut c_void, t_one as *mut c_void);
            (l.SetAttlistDeclHandler)(p, t_att as *mut c_void);
            (l.SetEntityDeclHandler)(p, t_ent as *mut c_void);
            (l.SetNotationDeclHandler)(p, t_notation as *mut c_void);
            (l.SetStartDoctypeDeclHandler)(p, t_doctype as *mut c_void);
            (l.SetXmlDeclHandler)(p, t_decl as *mut c_void);
            (l.SetSkippedEntityHandler)(p, t_skip as *mut c_void);
            (l.SetUnknownEncodingHandler)(p, t_unk as *mut c_void, null_mut());
            let s = (l.Parse)(p, own.as_ptr() as *const c_char, own.len() as c_int, 1);
            let e = (l.GetErrorCode)(p);
            (s, if s == 1 { 0 } else { e }, if s == 1 { 0 } else { (l.GetCurrentByteIndex)(p) as i64 })
        }
    }
}
impl<'a> Drop for Light<'a> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            let _g = Ph::enter(self.l);
            unsafe { (self.l.ParserFree)(self.p) }
        }
    }
}
/// (document with X for the character, is it in a name, is the document accepted with any legal character)
/// 0: any Char is accepted (but not all in exc); 1: name start; 2: name; 3: others
const CTX: &[(&str, u8, &str)] = &[
    ("<X/>", 1, ""),
    ("<aX/>", 2, ""),
    ("<a X='v'/>", 1, ""),
    ("<a bX='v'/>", 2, ""),
    ("<a></aX>", 3, ""),
    ("<a><?X d?></a>", 1, ""),
    ("<a><?bX d?></a>", 2, ""),
    ("<!DOCTYPE a [<!ENTITY bX 'v'>]><a>&bX;</a>", 2, ""),
    ("<!DOCTYPE a [<!ENTITY X 'v'>]><a>&X;</a>", 1, ""),
    ("<!DOCTYPE X><X/>", 1, ""),
    ("<!DOCTYPE a [<!ATTLIST a b (c|X) #IMPLIED>]><a/>", 2, ""),
    ("<!DOCTYPE a [<!ELEMENT a (b,cX)>]><a/>", 2, ""),
    ("<!DOCTYPE a [<!NOTATION X SYSTEM 's'>]><a/>", 1, ""),
    ("<!DOCTYPE a [<!ENTITY % X 'v'> %X;]><a/>", 1, ""),
    ("<a>bXc</a>", 0, "<&"),
    ("<a b='cX'/>", 0, "<&'"),
    ("<a><!--X--></a>", 0, "-"),
    ("<a><!--a-Xb--></a>", 0, "-"),
    ("<a><?b cXd?></a>", 0, ""),
    ("<a><?b c?X?></a>", 0, ">"),
    ("<a><![CDATA[X]]></a>", 0, ""),
    ("<a><![CDATA[]X]]></a>", 0, ""),
    ("<a>]Xb</a>", 0, "<&"),
    ("<!DOCTYPE a PUBLIC 'aX' 's'><a/>", 3, ""),
    ("<!DOCTYPE a SYSTEM 'sX'><a/>", 0, "'"),
    ("<!DOCTYPE a [<!ENTITY e 'vX'>]><a/>", 0, "'%&"),
    ("<!DOCTYPE a [<!ATTLIST a b CDATA 'vX'>]><a/>", 0, "'&<"),
    ("X<a/>", 3, ""),
    ("<a/>X", 3, ""),
    ("<!DOCTYPE a [X]><a/>", 3, ""),
    ("<a X/>", 3, ""),
    ("<a bX='c'/>", 3, ""),
    ("<a b=X'c'/>", 3, ""),
    ("<?xml version='1.0X'?><a/>", 3, ""),
    ("<?xmlX version='1.0'?><a/>", 3, ""),
    ("<!DOCTYPE aX><a/>", 3, ""),
    ("<a>&bX;</a>", 3, ""),
    ("<a>&X;</a>", 3, ""),
    ("<a>&#X;</a>", 3, ""),
    ("<a>&#xX;</a>", 3, ""),
    ("<X:a xmlns:X='u'/>", 4, ""),
    ("<b:X xmlns:b='u'/>", 4, ""),
    ("<a X:b='c' xmlns:X='u'/>", 4, ""),
];
fn is_char(c: u32) -> bool {
    matches!(c, 9 | 10 | 13 | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
const ENCS: usize = 7;
/// The bytes of the document in one of the encodings.
fn code(doc: &str, c: u32, enc: usize) -> Option<(Option<&'static str>, B)> {
    let mut v = vec![];
    let unit = |u: u32, v: &mut B| {
        if enc == 1 {
            v.extend((u as u16).to_le_bytes())
        } else {
            v.extend((u as u16).to_be_bytes())
        }
    };
    if enc == 1 {
        v.extend(b"\xff\xfe");
    }
    if enc == 2 {
        v.extend(b"\xfe\xff");
    }
    for b in doc.bytes() {
        if b != b'X' {
            match enc {
                1 | 2 => unit(b as u32, &mut v),
                _ => v.push(b),
            }
            continue;
        }
        match enc {
            0 => match c {
                0..=0x7f => v.push(c as u8),
                0x80..=0x7ff => v.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]),
                0x800..=0xffff => v.extend([0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
                _ => v.extend([0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
            },
            1 | 2 => {
                if c < 0x10000 {
                    unit(c, &mut v)
                } else {
                    unit(0xd800 + (c - 0x10000 >> 10), &mut v);
                    unit(0xdc00 + (c & 0x3ff), &mut v)
                }
            }
            // latin-1 and ASCII: the byte
            3 | 4 => {
                if c > 255 {
                    return None;
                }
                v.push(c as u8)
            }
            5 => {
                if c > 0xffff || c < 128 {
                    return None;
                }
                v.push(0x80)
            }
            _ => {
                if c > 0xffff || c < 128 {
                    return None;
                }
                v.extend(b"\x80x")
            }
        }
    }
    Some(([None, None, None, Some("ISO-8859-1"), Some("US-ASCII"), Some("some"), Some("some")][enc], v))
}
const QBLOCKS: usize = 256 + 16;
fn block(i: usize, thorough: bool) -> u32 {
    if thorough {
        return i as u32 * 256;
    }
    match i {
        0..=255 => i as u32 * 256,
        _ => [0x10000, 0x10100, 0x10300, 0x1d400, 0x1ff00, 0x20000, 0x2f800, 0x3ff00, 0x40000, 0x50000, 0x7ff00, 0x80000, 0xbff00, 0xe0000, 0xfff00, 0x10ff00][i - 256],
    }
}
fn points(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    let nb = if env.thorough { 0x1100 } else { QBLOCKS };
    let (b, ci) = (i % nb, i / nb);
    let (doc, kind, exc) = CTX[ci % CTX.len()];
    let first = block(b, env.thorough);
    let every = env.thorough || (1..3).contains(&kind) && ci < 4 || [0, 1, 0xd7, 0xe0, 0xff, 0x100, 0x10ff].contains(&(first >> 8));
    out.hash = fnv(format!("{} {}", first, ci).as_bytes());
    if env.describe {
        out.desc = format!("{} where X is each of U+{:04X} to U+{:04X} in UTF-8, UTF-16 (both), ISO-8859-1, US-ASCII, encodings mapped by the application", doc, first, first + 255);
        predesc(env, &out.desc);
    }
    let mut a = Light::new(env.rx(), kind == 4);
    let mut r = Light::new(env.rf(), kind == 4);
    let mut known = None;
    for c in first..first + 256 {
        if !every && c % 16 != (ci as u32 + first / 256) % 16 {
            continue;
        }
        // what it is in UTF-8
        let mut utf8: Option<(u32, Vec<u8>)> = None;
        for enc in 0..ENCS {
            let (name, data) = match code(doc, c, enc) {
                Some(x) => x,
                None => continue,
            };
            unsafe {
                MB_CP = c as i32;
                MB_MODE = (enc == 6) as u8;
            }
            let x = a.parse(name, &data);
            out.nontrivial = true;
            let at = || format!("{} with U+{:04X} in {}", doc, c, ["UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "an encoding of the application", "a two-byte encoding of the application"][enc]);
            let sur = (0xd800..0xe000).contains(&c);
            if sur || c == 0xfffe || c == 0xffff {
                if x.0 == 1 {
                    return out.fail(format!("{}: accepted, and it is no character", at()));
                }
                if sur {
                    continue;
                }
            }
            // the specification, for characters in data
            if kind == 0 && !(enc == 4 && c > 127) {
                let plain = is_char(c) && !exc.contains(char::from_u32(c).unwrap_or('\0'));
                if plain != (x.0 == 1) && !(!plain && is_char(c)) {
                    return out.fail(format!("{}: status {} error {} where it is {}a character", at(), x.0, x.1, if is_char(c) { "" } else { "not " }));
                }
                if x.0 == 1 && plain && c > 32 {
                    let mut buf = [0; 4];
                    let s = char::from_u32(c).unwrap().encode_utf8(&mut buf).as_bytes().to_vec();
                    if !a.r.out.windows(s.len()).any(|w| w == &s[..]) {
                        return out.fail(format!("{}: not delivered: {}", at(), show(&a.r.out)));
                    }
                }
            }
            let y = r.parse(name, &data);
            if x != y || a.r.out != r.r.out {
                return out.fail(format!("{}: status {} error {} at {}, {} | libexpat {} {} {} {}", at(), x.0, x.1, x.2, show(&a.r.out), y.0, y.1, y.2, show(&r.r.out)));
            }
            match &utf8 {
                None if enc == 0 => utf8 = Some((x.1, a.r.out.clone())),
                // the same in all encodings that have it
                Some(u) if !(enc == 4 && c > 127) => {
                    if (u.0 == 0) != (x.1 == 0) || x.1 == 0 && no_enc(&u.1) != no_enc(&a.r.out) {
                        if [0xaa, 0xb5, 0xba].contains(&c) && kind > 0 {
                            known = Some(format!("{}: error {}, in UTF-8 error {}", at(), x.1, u.0));
                            continue;
                        }
                        return out.fail(format!("{}: error {} {}, in UTF-8 error {} {}", at(), x.1, show(&a.r.out), u.0, show(&u.1)));
                    }
                }
                _ => {}
            }
            if enc == 4 && c > 127 && x.0 == 1 {
                return out.fail(format!("{}: accepted", at()));
            }
        }
    }
    match known {
        Some(d) => out.finding(env, "C20", "latin1-name-chars", d),
        None => out,
    }
}
/// (columns may differ: they are counted in characters, but the first in the encoding's bytes)
fn no_enc(o: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in o.split(|&b| b == b'\n') {
        let end = if l.first() == Some(&b'S') { l[..l.len() - 1].iter().rposition(|&b| b == b'|').unwrap_or(l.len()) } else { l.len() };
        v.extend_from_slice(&l[..end]);
        v.push(b'\n');
    }
    v
}
/// &#N; for every N in both notations.
fn references(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32();
    let (lo, step) = if i < 0x1100 { (i * 256, 1) } else { ([0x110000, 0x10fff00, 0x7fffff00, 0xffffff00, 0x10ffff00, 0xffff0000, 0x80000000, 0x7ffffff0][i as usize % 8], 1) };
    out.hash = i as u64 + 1;
    out.nontrivial = true;
    if env.describe {
        out.desc = format!("character references to {:#x} and the 255 after it, decimal and hexadecimal, in text, attribute values, entity values", lo);
        predesc(env, &out.desc);
    }
    let mut a = Light::new(env.rx(), false);
    let mut r = Light::new(env.rf(), false);
    for k in 0..256u64 {
        let c = lo as u64 + k * step;
        for form in 0..5 {
            let n = match form {
                0 => format!("&#{};", c),
                1 => format!("&#x{:x};", c),
                2 => format!("&#x{:X};", c),
                3 => format!("&#000{};", c),
                _ => format!("&#x0000000000{:x};", c),
            };
            let (doc, q) = match (k + form) % 3 {
                0 => (format!("<a>{}</a>", n), 0),
                1 => (format!("<a b='{}'/>", n), 1),
                _ => (format!("<!DOCTYPE a [<!ENTITY e \"{}\">]><a/>", n), 2),
            };
            let _ = q;
            let x = a.parse(None, doc.as_bytes());
            let legal = c < 0x110000 && is_char(c as u32);
            if legal != (x.0 == 1) || !legal && x.1 != 14 {
                return out.fail(format!("{}: status {} error {}", doc, x.0, x.1));
            }
            if legal && c > 13 {
                let mut buf = [0; 4];
                let s = char::from_u32(c as u32).unwrap().encode_utf8(&mut buf).as_bytes().to_vec();
                if !a.r.out.windows(s.len()).any(|w| w == &s[..]) {
                    return out.fail(format!("{}: not delivered: {}", doc, show(&a.r.out)));
                }
            }
            if form < 2 {
                let y = r.parse(None, doc.as_bytes());
                if x != y || a.r.out != r.r.out {
                    return out.fail(format!("{}: {:?} {} | libexpat {:?} {}", doc, x, show(&a.r.out), y, show(&r.r.out)));
                }
            }
        }
    }
    out
}
const EDGE: &[u8] = &[0x00, 0x20, 0x2d, 0x3c, 0x3e, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb7, 0xbe, 0xbf, 0xc0, 0xed, 0xff];
const SEQ: &[(&str, bool)] = &[("<a>X</a>", true), ("<a b='X'/>", true), ("<aX/>", false), ("<X/>", false), ("<!--X--><a/>", true), ("<a><![CDATA[X]]></a>", true), ("<a><?p X?></a>", true), ("<!DOCTYPE a [<!ENTITY e 'X'>]><a/>", true), ("<a bX='c'/>", false), ("<a>&bX;</a>", false)];
/// Sequences of two, three and four bytes in UTF-8.
fn utf8(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    let lead = 0x80 + (i % 128) as u8;
    let i = i / 128;
    let (doc, data) = SEQ[i % SEQ.len()];
    let len = 2 + i / SEQ.len() % 3;
    out.hash = fnv(format!("{} {} {}", lead, doc, len).as_bytes());
    out.nontrivial = true;
    if env.describe {
        out.desc = format!("{} where X is {} bytes and the first is {:#x}", doc, len, lead);
        predesc(env, &out.desc);
    }
    let mut a = Light::new(env.rx(), false);
    let mut r = Light::new(env.rf(), false);
    let all: Vec<u8> = (0..=255).collect();
    let second: &[u8] = if env.thorough || len == 2 || data { &all } else { EDGE };
    let third: &[u8] = if len < 3 {
        &[0]
    } else if env.thorough && len == 3 {
        &all
    } else {
        EDGE
    };
    let fourth: &[u8] = if len < 4 { &[0] } else { EDGE };
    let skip = !env.thorough && len == 4;
    if len == 4 && lead < 0xe0 && lead % 8 != 0 {
        out.nontrivial = false;
        return out;
    }
    let (pre, post) = doc.split_once('X').unwrap();
    let mut buf = vec![];
    for b in second {
        if skip && !EDGE.contains(b) && (*b as usize + i) % 8 != 0 {
            continue;
        }
        for c in third {
            for d in fourth {
                let seq = &[lead, *b, *c, *d][..len];
                buf.clear();
                buf.extend_from_slice(pre.as_bytes());
                buf.extend_from_slice(seq);
                buf.extend_from_slice(post.as_bytes());
                let x = a.parse(None, &buf);
                let s = std::str::from_utf8(seq);
                let legal = s.map_or(false, |s| s.chars().all(|c| is_char(c as u32)));
                let at = || format!("{} with {}", doc, show(seq));
                if !legal && x.0 == 1 {
                    return out.fail(format!("{}: accepted", at()));
                }
                if data && legal {
                    let s = s.unwrap();
                    let plain = !s.contains(|c| c == '<' || c == '&' || c == '\'' || c == '-' || c == '%' || c == '?' || c == ']' || c == '>' || c <= ' ');
                    if plain && (x.0 != 1 || !a.r.out.windows(len).any(|w| w == seq)) {
                        return out.fail(format!("{}: status {} error {} {}", at(), x.0, x.1, show(&a.r.out)));
                    }
                }
                let y = r.parse(None, &buf);
                if x != y || a.r.out != r.r.out {
                    return out.fail(format!("{}: {:?} {} | libexpat {:?} {}", at(), x, show(&a.r.out), y, show(&r.r.out)));
                }
            }
        }
    }
    out
}
/// Pairs of UTF-16 units.
fn utf16(env: &Env, t: &mut Tape) -> Out {
    let mut out = Out::new();
    let i = t.u32() as usize;
    let hi = (i % 256) as u32;
    let (doc, _) = [SEQ[0], SEQ[1], SEQ[2], SEQ[4], SEQ[5], SEQ[6]][i / 256 % 6];
    let be = i / 1536 % 2 == 1;
    out.hash = i as u64 + 1;
    out.nontrivial = true;
    if env.describe {
        out.desc = format!("{} where X is a unit from {:#x}00 on and another", doc, hi);
        predesc(env, &out.desc);
    }
    let mut a = Light::new(env.rx(), false);
    const TWO: &[u16] = &[0x41, 0x3c, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdd37, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0];
    let (pre, post) = doc.split_once('X').unwrap();
    for lo in 0..256u32 {
        let u = (hi << 8 | lo) as u16;
        if !env.thorough && !(0xd7..0xe1).contains(&hi) && lo % 32 != hi % 32 && lo < 254 {
            continue;
        }
        for w in TWO {
            let mut b: B = vec![];
            let mut put = |u: u16| b.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
            put(0xfeff);
            pre.bytes().for_each(|b| put(b as u16));
            put(u);
            put(*w);
            post.bytes().for_each(|b| put(b as u16));
            let x = a.parse(None, &b);
            let s = String::from_utf16(&[u, *w]);
            let legal = s.as_ref().map_or(false, |s| s.chars().all(|c| is_char(c as u32)));
            let at = || format!("{} with {:04x} {:04x} in UTF-16{}", doc, u, w, if be { "BE" } else { "LE" });
            if !legal && x.0 == 1 {
                return out.fail(format!("{}: accepted", at()));
            }
            if legal && doc != SEQ[2].0 {
                let s = s.unwrap();
                let plain = !s.contains(|c| c == '<' || c == '&' || c == '\'' || c == '-' || c == '%' || c == '?' || c == ']' || c == '>' || c <= ' ');
                if plain && (x.0 != 1 || !a.r.out.windows(s.len()).any(|w| w == s.as_bytes())) {
                    return out.fail(format!("{}: status {} error {} {}", at(), x.0, x.1, show(&a.r.out)));
                }
            }
        }
    }
    out
}
fn known(env: &Env, _: &mut Tape) -> Out {
    let mut out = Out::new();
    out.nontrivial = true;
    let mut a = Light::new(env.rx(), false);
    let x = a.parse(None, "<µ/>".as_bytes());
    let y = a.parse(None, b"\xff\xfe<\0\xb5\0/\0>\0");
    if env.describe {
        out.desc = "<µ/> in UTF-8 and UTF-16".into();
    }
    if x.1 != y.1 {
        return out.finding(env, "C20", "latin1-name-chars", format!("<µ/>: error {} in UTF-8, error {} in UTF-16", x.1, y.1));
    }
    out
}
pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "one case is a block of 256 code points in one place and all encodings (or all sequences with one first byte); those with something to try count",
        libs: Libs::Std,
        assumptions: &[],
        subs: vec![
            Sub { name: "points", kind: Kind::All { quick: QBLOCKS * CTX.len(), thorough: 0x1100 * CTX.len() }, f: points },
            Sub { name: "references", kind: Kind::All { quick: 0x1108, thorough: 0x1108 }, f: references },
            Sub { name: "utf8", kind: Kind::All { quick: 128 * SEQ.len() * 3, thorough: 128 * SEQ.len() * 3 }, f: utf8 },
            Sub { name: "utf16", kind: Kind::All { quick: 3072, thorough: 3072 }, f: utf16 },
            Sub { name: "known", kind: Kind::All { quick: 1, thorough: 1 }, f: known },
        ],
    }
}
