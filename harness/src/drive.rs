//! Drives one parser (of either library) over one input with one configuration and records
//! everything observable as a trace.
use crate::ffi::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::ptr::null_mut;

pub type B = Vec<u8>;

/// Where control is: 0 harness, 1 code under test, 2 reference, 3 a handler called by the code under test. Read by the parent after a crash.
pub static mut PHASE: *mut u8 = null_mut();
static mut PHASE_LOCAL: u8 = 0;
/// Set by the preloaded allocator shim, when there is one.
pub static mut ALLOC_GATE: Option<unsafe extern "C" fn(c_int)> = None;

pub fn init_phase(p: *mut u8) {
    unsafe { PHASE = p }
}
#[inline]
pub fn set_phase(v: u8) -> u8 {
    unsafe {
        if PHASE.is_null() {
            PHASE = &raw mut PHASE_LOCAL;
        }
        let o = *PHASE;
        *PHASE = v;
        if let Some(g) = ALLOC_GATE {
            g((v == 1) as c_int);
        }
        o
    }
}
pub struct Ph(u8);
impl Ph {
    pub fn enter(lib: &Lib) -> Ph {
        Ph(set_phase(lib.role + 1))
    }
    pub fn harness() -> Ph {
        // 3: a handler called by the code under test reads what it was given
        let o = set_phase(0);
        unsafe {
            if !CUR.is_null() && !cx().cfg.acts.is_empty() {
                early(cx());
            }
        }
        if o == 1 {
            set_phase(3);
        }
        Ph(o)
    }
}
impl Drop for Ph {
    fn drop(&mut self) {
        set_phase(self.0);
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Model {
    pub typ: u32,
    pub quant: u32,
    pub name: Option<B>,
    pub kids: Vec<Model>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Start { name: B, atts: Vec<(B, B)>, nspec: i32, id: i32 },
    End(B),
    Text(B),
    Pi(B, B),
    Comment(B),
    CdStart,
    CdEnd,
    Default(B),
    DtStart { name: B, sys: Option<B>, pubid: Option<B>, internal: bool },
    DtEnd,
    Entity { name: B, pe: bool, value: Option<B>, base: Option<B>, sys: Option<B>, pubid: Option<B>, notation: Option<B> },
    Unparsed { name: B, base: Option<B>, sys: Option<B>, pubid: Option<B>, notation: Option<B> },
    Notation { name: B, base: Option<B>, sys: Option<B>, pubid: Option<B> },
    Element { name: B, model: Model },
    Attlist { el: B, att: B, ty: B, dflt: Option<B>, req: i32 },
    XmlDecl { version: Option<B>, enc: Option<B>, sa: i32 },
    NsStart(Option<B>, Option<B>),
    NsEnd(Option<B>),
    NotStandalone,
    ExtRef { ctx: Option<Vec<B>>, base: Option<B>, sys: Option<B>, pubid: Option<B> },
    Skipped(B, bool),
    UnkEnc(B),
    Api(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Pos {
    pub line: u64,
    pub col: u64,
    pub idx: i64,
    pub count: i32,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Rec {
    pub ev: Ev,
    pub pos: Option<Pos>,
    pub level: u16,
}

// handler mask bits
pub const H_ELEM: u32 = 1;
pub const H_TEXT: u32 = 2;
pub const H_PI: u32 = 4;
pub const H_COMMENT: u32 = 8;
pub const H_CDATA: u32 = 16;
pub const H_DOCTYPE: u32 = 32;
pub const H_ENTITY: u32 = 64;
pub const H_UNPARSED: u32 = 128;
pub const H_NOTATION: u32 = 256;
pub const H_NS: u32 = 512;
pub const H_NOTSA: u32 = 1024;
pub const H_EXT: u32 = 2048;
pub const H_SKIPPED: u32 = 4096;
pub const H_UNKENC: u32 = 8192;
pub const H_ELDECL: u32 = 1 << 14;
pub const H_ATTLIST: u32 = 1 << 15;
pub const H_XMLDECL: u32 = 1 << 16;
pub const H_DEFAULT: u32 = 1 << 17;
pub const H_DEFEXPAND: u32 = 1 << 18;
pub const H_NBITS: u32 = 19;
pub const H_ALL: u32 = (1 << 17) - 1;
pub const H_CONTENT: u32 = H_ELEM | H_TEXT | H_PI | H_COMMENT | H_CDATA | H_NS;

#[derive(Clone, Debug)]
pub struct Unk {
    pub map: Vec<i32>,
    /// multi-byte convert: number -> code point via table (lead, trail...) -> formula
    pub convert: bool,
    pub ret: i32,
    pub release: bool,
    pub only: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct ExtEnt {
    pub sys: String,
    pub data: B,
    pub enc: Option<String>,
    pub feeds: Vec<Feed>,
    /// 0: handler returns 0 without parsing; 1: parse; 2: return OK without parsing;
    /// 3: create a parser and free it at once; 4: parse the first part only and return OK;
    /// 5: return OK and keep the context for later
    pub mode: u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Feed {
    /// number of bytes taken from the front of what remains
    pub n: usize,
    pub fin: bool,
    /// 0: XML_Parse; 1: GetBuffer(n)+ParseBuffer; 2: GetBuffer(n + slack)
    pub how: u8,
    pub slack: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Stop(bool),
    /// set or clear the handlers in the mask
    Handlers(u32, bool),
    DefaultCurrent,
    SetBase(Option<String>),
    GetBase,
    Query,
    Context,
    Resume,
    ReParse,
    SetEncoding,
    Reset,
    ForeignDtd,
    ParamEnt,
    Salt,
    UserData,
    Status,
    Triplets(bool),
    GetBuffer(i32),
    /// set or clear one half of a pair of handlers
    Half(u32, bool),
    /// run another parser, the one with this number in INNER, to the end
    Inner(usize),
    /// the same, but before the handler looks at what it was given
    Early(usize),
}
fn early(c: &mut Ctx) {
    if c.early == c.n + 1 {
        return;
    }
    c.early = c.n + 1;
    for a in &c.cfg.acts {
        if let (n, Act::Early(i)) = a {
            if *n == c.n {
                inner(c.lib, *i);
            }
        }
    }
}
/// What Act::Inner runs, and what came of it.
pub static mut INNER: Vec<(Cfg, B, Vec<Feed>)> = vec![];
pub static mut INNER_RES: Vec<(usize, Trace)> = vec![];
fn inner(l: &Lib, i: usize) {
    #[allow(static_mut_refs)]
    let r = unsafe { INNER.get(i).map(|c| run(l, &c.0, &c.1, &c.2)) };
    if let Some(r) = r {
        #[allow(static_mut_refs)]
        unsafe {
            INNER_RES.push((i, r))
        };
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub enc: Option<String>,
    pub ns: Option<char>,
    pub triplets: bool,
    pub h: u32,
    pub pe: u8,
    pub foreign: bool,
    pub salt: u64,
    pub base: Option<String>,
    pub ents: Vec<ExtEnt>,
    pub unk: Option<Unk>,
    pub ns_ret: i32,
    pub pos: bool,
    /// call XML_DefaultCurrent in the handlers of this mask
    pub dc: u32,
    pub acts: Vec<(usize, Act)>,
    pub max_events: usize,
    /// parser as handler arg
    pub parser_arg: bool,
    pub mm: bool,
    /// unlimited amplification in the reference
    pub ext_arg: bool,
    /// record input context at each event
    pub ctx: bool,
    /// make the children of external entities re-parse the same entity only to this depth
    pub max_depth: u16,
    /// do not resume a suspended parser
    pub leave: bool,
    /// call these when the parser is suspended, before it is resumed; and between pieces
    pub misuse: bool,
    /// what the default handler gets does not count for acts
    pub skipdef: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            enc: None,
            ns: None,
            triplets: false,
            h: H_CONTENT,
            pe: 0,
            foreign: false,
            salt: 1,
            base: None,
            ents: vec![],
            unk: None,
            ns_ret: 1,
            pos: false,
            dc: 0,
            acts: vec![],
            max_events: 60_000,
            parser_arg: false,
            mm: false,
            ext_arg: false,
            ctx: false,
            max_depth: 6,
            leave: false,
            misuse: false,
            skipdef: false,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct OpRes {
    pub status: u32,
    pub err: u32,
    pub parsing: u32,
    pub fin: u8,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Trace {
    pub recs: Vec<Rec>,
    /// one entry per parse/resume call on the root parser
    pub ops: Vec<OpRes>,
    pub status: u32,
    pub err: u32,
    pub end: Option<Pos>,
    pub overflow: bool,
    pub created: bool,
    pub releases: u32,
    pub bad: Vec<String>,
}

pub struct Ctx<'a> {
    pub lib: &'a Lib,
    pub cfg: &'a Cfg,
    pub t: Trace,
    pub stack: Vec<P>,
    /// expected handler argument per level
    pub args: Vec<*mut c_void>,
    pub n: usize,
    pub unk_handed: u32,
    pub user: *mut c_void,
    pub ended: bool,
    /// the last chunk given to each parser on the stack (for input-context checks)
    pub fed: Vec<B>,
    pub abs: Vec<usize>,
    pub suspends: u32,
    /// what was given to XML_Parse stays valid while the parser may be asked about it
    pub keep: Vec<Box<[u8]>>,
    /// contexts given to the external-entity handler, for parsers created later
    pub contexts: Vec<Vec<u16>>,
    /// the handler argument is not checked
    pub anyarg: bool,
    /// one more than the number of the last event for which early acts have been done
    pub early: usize,
}

/// encodings handed to parsers and released, over several runs
pub static mut HANDED: u32 = 0;
pub static mut RELEASED: u32 = 0;
pub static mut CUR: *mut c_void = null_mut();

fn cx<'a>() -> &'a mut Ctx<'a> {
    unsafe { &mut *(CUR as *mut Ctx<'a>) }
}

impl<'a> Ctx<'a> {
    pub fn new(lib: &'a Lib, cfg: &'a Cfg) -> Box<Ctx<'a>> {
        Box::new(Ctx {
            lib,
            cfg,
            t: Trace::default(),
            stack: vec![],
            args: vec![],
            n: 0,
            unk_handed: 0,
            user: 0x1000 as *mut c_void,
            ended: false,
            fed: vec![],
            abs: vec![],
            suspends: 0,
            keep: vec![],
            contexts: vec![],
            anyarg: false,
            early: 0,
        })
    }
    pub fn p(&self) -> P {
        *self.stack.last().unwrap()
    }
    pub fn getpos(&self) -> Pos {
        let _g = Ph::enter(self.lib);
        let p = self.p();
        unsafe {
            // column first, or several times
            match self.t.recs.len() % 3 {
                0 => {
                    (self.lib.GetCurrentColumnNumber)(p);
                }
                1 => {
                    (self.lib.GetCurrentLineNumber)(p);
                    (self.lib.GetCurrentColumnNumber)(p);
                    (self.lib.GetCurrentColumnNumber)(p);
                }
                _ => {}
            }
            Pos {
                line: (self.lib.GetCurrentLineNumber)(p) as u64,
                col: (self.lib.GetCurrentColumnNumber)(p) as u64,
                idx: (self.lib.GetCurrentByteIndex)(p) as i64,
                count: (self.lib.GetCurrentByteCount)(p),
            }
        }
    }
    fn check_arg(&mut self, arg: *mut c_void) {
        if self.anyarg {
            return;
        }
        let want = if self.cfg.parser_arg { self.p() } else { self.user };
        if arg != want && self.t.bad.len() < 5 {
            self.t.bad.push(format!(
                "handler argument is {} where {} was set (level {})",
                if arg == self.p() { "the parser".into() } else { format!("{:?}", arg) },
                if self.cfg.parser_arg { "the parser".into() } else { format!("{:?}", want) },
                self.stack.len() - 1
            ));
        }
    }
    /// Records an event; `bit` is the handler's mask bit.
    fn rec(&mut self, arg: *mut c_void, bit: u32, ev: Ev) {
        self.check_arg(arg);
        self.rec2(bit, ev)
    }
    fn rec2(&mut self, bit: u32, ev: Ev) {
        let pos = if self.cfg.pos { Some(self.getpos()) } else { None };
        let level = (self.stack.len() - 1) as u16;
        if self.ended {
            self.t.bad.push("handler called outside a parse call".into());
        }
        if self.t.recs.len() >= self.cfg.max_events {
            self.t.overflow = true;
            let _g = Ph::enter(self.lib);
            unsafe { (self.lib.StopParser)(self.p(), 0) };
            return;
        }
        self.t.recs.push(Rec { ev, pos, level });
        if self.cfg.ctx {
            self.check_context();
        }
        let n = self.n;
        if self.cfg.skipdef && bit == H_DEFAULT {
            return;
        }
        self.n += 1;
        if self.cfg.dc & bit != 0 && bit & (H_DEFAULT | H_DEFEXPAND) == 0 {
            let _g = Ph::enter(self.lib);
            unsafe { (self.lib.DefaultCurrent)(self.p()) };
        }
        if !self.cfg.acts.is_empty() {
            let acts: Vec<Act> = self.cfg.acts.iter().filter(|a| a.0 == n).map(|a| a.1.clone()).collect();
            for a in acts {
                self.act(&a);
            }
        }
    }
    pub fn api(&mut self, s: String) {
        let level = (self.stack.len().max(1) - 1) as u16;
        self.t.recs.push(Rec { ev: Ev::Api(s), pos: None, level });
    }
    /// The input context must be the bytes of the document around the current event.
    fn check_context(&mut self) {
        let (mut off, mut size) = (-1, -1);
        let p = self.p();
        let (c, pos) = {
            let pos = self.getpos();
            let _g = Ph::enter(self.lib);
            (unsafe { (self.lib.GetInputContext)(p, &mut off, &mut size) }, pos)
        };
        if c.is_null() {
            return;
        }
        let ctx = unsafe { std::slice::from_raw_parts(c as *const u8, size.max(0) as usize) };
        let all = self.fed.last().unwrap();
        let start = pos.idx - off as i64;
        let ok = size >= 0
            && off >= 0
            && off <= size
            && start >= 0
            && (start as usize) + ctx.len() <= all.len()
            && &all[start as usize..start as usize + ctx.len()] == ctx;
        if !ok && self.t.bad.len() < 5 {
            self.t.bad.push(format!(
                "input context (offset {}, size {}) does not show the document around byte {}: {:?}",
                off,
                size,
                pos.idx,
                String::from_utf8_lossy(&ctx[..ctx.len().min(60)])
            ));
        }
    }
    pub fn act(&mut self, a: &Act) {
        let p = self.p();
        let l = self.lib;
        unsafe {
            match a {
                Act::Stop(r) => {
                    let (s, e) = {
                        let _g = Ph::enter(l);
                        let s = (l.StopParser)(p, *r as u8);
                        (s, (l.GetErrorCode)(p))
                    };
                    if s == 1 && *r {
                        self.suspends += 1;
                    }
                    self.api(format!("stop({}) -> {} err {}", r, s, if s == 1 { 0 } else { e }));
                }
                Act::Handlers(m, on) => {
                    let _g = Ph::enter(l);
                    set_handlers(l, p, *m, *on, self.cfg);
                }
                Act::DefaultCurrent => {
                    let _g = Ph::enter(l);
                    (l.DefaultCurrent)(p);
                }
                Act::SetBase(b) => {
                    let z = b.as_ref().map(|b| l.zstr(b));
                    let r = {
                        let _g = Ph::enter(l);
                        (l.SetBase)(p, z.as_ref().map_or(null_mut(), |z| z.as_ptr() as *mut c_void))
                    };
                    self.api(format!("setbase -> {}", r));
                }
                Act::GetBase => {
                    let b = {
                        let _g = Ph::enter(l);
                        (l.GetBase)(p)
                    };
                    let b = l.oz(b);
                    self.api(format!("getbase -> {}", show_opt(&b)));
                }
                Act::Query => {
                    let _g = Ph::enter(l);
                    let a = (l.GetSpecifiedAttributeCount)(p);
                    let e = (l.GetErrorCode)(p);
                    drop(_g);
                    let pos = self.getpos();
                    let _ = e;
                    self.api(format!("query -> {} {:?}", a, pos));
                }
                Act::Context => self.check_context(),
                // (a suspended parser must not be resumed by a handler)
                Act::Resume if self.status().0 == 3 => {}
                Act::Resume => {
                    let s = {
                        let _g = Ph::enter(l);
                        (l.ResumeParser)(p)
                    };
                    self.api(format!("resume -> {}", s));
                }
                Act::SetEncoding => {
                    let z = l.zstr("UTF-16LE");
                    let s = {
                        let _g = Ph::enter(l);
                        (l.SetEncoding)(p, z.as_ptr() as S)
                    };
                    self.api(format!("setencoding -> {}", s));
                }
                Act::ForeignDtd => {
                    let s = {
                        let _g = Ph::enter(l);
                        (l.UseForeignDTD)(p, 1)
                    };
                    self.api(format!("foreigndtd -> {}", s));
                }
                Act::ParamEnt => {
                    let s = {
                        let _g = Ph::enter(l);
                        (l.SetParamEntityParsing)(p, 2)
                    };
                    self.api(format!("paramentityparsing -> {}", s));
                }
                Act::Triplets(b) => {
                    let _g = Ph::enter(l);
                    (l.SetReturnNSTriplet)(p, *b as c_int);
                }
                Act::UserData => {
                    self.user = ((self.user as usize) + 0x1000) as *mut c_void;
                    let _g = Ph::enter(l);
                    (l.SetUserData)(p, self.user);
                }
                Act::Status => {
                    let s = self.status();
                    self.api(format!("status -> {} {}", s.0, s.1));
                }
                Act::GetBuffer(n) => {
                    let r = {
                        let _g = Ph::enter(l);
                        (l.GetBuffer)(p, *n)
                    };
                    let e = {
                        let _g = Ph::enter(l);
                        (l.GetErrorCode)(p)
                    };
                    self.api(format!("getbuffer({}) -> {} err {}", n, !r.is_null(), e));
                }
                Act::Half(w, on) => {
                    let _g = Ph::enter(l);
                    set_half(l, p, *w, *on);
                }
                Act::Inner(i) => inner(l, *i),
                Act::Early(_) => {}
                Act::ReParse | Act::Reset | Act::Salt => {}
            }
        }
    }
    pub fn status(&self) -> (u32, u8) {
        let mut s = ParsingStatus::default();
        let _g = Ph::enter(self.lib);
        unsafe { (self.lib.GetParsingStatus)(self.p(), &mut s) };
        (s.parsing, (s.final_buffer != 0) as u8)
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    match std::str::from_utf8(b) {
        Ok(t) => {
            for c in t.chars() {
                if c == '\n' {
                    s.push_str("\\n")
                } else if c == '\r' {
                    s.push_str("\\r")
                } else if c == '\t' {
                    s.push_str("\\t")
                } else if (c as u32) < 0x20 || (c as u32) == 0x7f {
                    s.push_str(&format!("\\x{:02x}", c as u32))
                } else {
                    s.push(c)
                }
            }
        }
        Err(_) => {
            for &c in b {
                if (0x20..0x7f).contains(&c) {
                    s.push(c as char)
                } else {
                    s.push_str(&format!("\\x{:02x}", c))
                }
            }
        }
    }
    s
}
pub fn show_opt(b: &Option<B>) -> String {
    match b {
        None => "NULL".into(),
        Some(b) => format!("\"{}\"", show(b)),
    }
}

// ---- callbacks ----
macro_rules! F {
    ($e:expr) => {
        $e as *mut c_void
    };
}

unsafe extern "C" fn cb_start(a: *mut c_void, name: S, atts: *mut S) {
    let _g = Ph::harness();
    let c = cx();
    let mut v = vec![];
    let mut i = 0;
    while !(*atts.add(i)).is_null() {
        v.push((c.lib.z(*atts.add(i)), c.lib.z(*atts.add(i + 1))));
        i += 2;
    }
    let name = c.lib.z(name);
    let (nspec, id) = {
        let _g = Ph::enter(c.lib);
        ((c.lib.GetSpecifiedAttributeCount)(c.p()), (c.lib.GetIdAttributeIndex)(c.p()))
    };
    c.rec(a, H_ELEM, Ev::Start { name, atts: v, nspec, id });
}
unsafe extern "C" fn cb_end(a: *mut c_void, name: S) {
    let _g = Ph::harness();
    let c = cx();
    let name = c.lib.z(name);
    c.rec(a, H_ELEM, Ev::End(name));
}
unsafe extern "C" fn cb_text(a: *mut c_void, s: S, n: c_int) {
    let _g = Ph::harness();
    let c = cx();
    if n < 0 {
        c.t.bad.push(format!("character data length {}", n));
        return;
    }
    let b = c.lib.chars(s, n as usize);
    c.rec(a, H_TEXT, Ev::Text(b));
}
unsafe extern "C" fn cb_default(a: *mut c_void, s: S, n: c_int) {
    let _g = Ph::harness();
    let c = cx();
    if n < 0 {
        c.t.bad.push(format!("default data length {}", n));
        return;
    }
    let b = c.lib.chars(s, n as usize);
    c.rec(a, H_DEFAULT, Ev::Default(b));
}
unsafe extern "C" fn cb_pi(a: *mut c_void, t: S, d: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Pi(c.lib.z(t), c.lib.z(d));
    c.rec(a, H_PI, e);
}
unsafe extern "C" fn cb_comment(a: *mut c_void, d: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Comment(c.lib.z(d));
    c.rec(a, H_COMMENT, e);
}
unsafe extern "C" fn cb_cdstart(a: *mut c_void) {
    let _g = Ph::harness();
    cx().rec(a, H_CDATA, Ev::CdStart);
}
unsafe extern "C" fn cb_cdend(a: *mut c_void) {
    let _g = Ph::harness();
    cx().rec(a, H_CDATA, Ev::CdEnd);
}
unsafe extern "C" fn cb_dtstart(a: *mut c_void, n: S, s: S, p: S, i: c_int) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::DtStart { name: c.lib.z(n), sys: c.lib.oz(s), pubid: c.lib.oz(p), internal: i != 0 };
    c.rec(a, H_DOCTYPE, e);
}
unsafe extern "C" fn cb_dtend(a: *mut c_void) {
    let _g = Ph::harness();
    cx().rec(a, H_DOCTYPE, Ev::DtEnd);
}
unsafe extern "C" fn cb_entity(a: *mut c_void, n: S, pe: c_int, v: S, vl: c_int, b: S, s: S, p: S, no: S) {
    let _g = Ph::harness();
    let c = cx();
    let value = if v.is_null() { None } else { Some(c.lib.chars(v, vl.max(0) as usize)) };
    let e = Ev::Entity {
        name: c.lib.z(n),
        pe: pe != 0,
        value,
        base: c.lib.oz(b),
        sys: c.lib.oz(s),
        pubid: c.lib.oz(p),
        notation: c.lib.oz(no),
    };
    c.rec(a, H_ENTITY, e);
}
unsafe extern "C" fn cb_unparsed(a: *mut c_void, n: S, b: S, s: S, p: S, no: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Unparsed { name: c.lib.z(n), base: c.lib.oz(b), sys: c.lib.oz(s), pubid: c.lib.oz(p), notation: c.lib.oz(no) };
    c.rec(a, H_UNPARSED, e);
}
unsafe extern "C" fn cb_notation(a: *mut c_void, n: S, b: S, s: S, p: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Notation { name: c.lib.z(n), base: c.lib.oz(b), sys: c.lib.oz(s), pubid: c.lib.oz(p) };
    c.rec(a, H_NOTATION, e);
}
unsafe fn conv_model(l: &Lib, m: *const Content, top: bool, budget: &mut usize) -> Model {
    let m = &*m;
    let mut kids = vec![];
    if *budget > 0 {
        *budget -= 1;
        for i in 0..m.numchildren as usize {
            kids.push(conv_model(l, m.children.add(i), false, budget));
            if *budget == 0 {
                break;
            }
        }
    }
    let _ = top;
    Model { typ: m.typ, quant: m.quant, name: l.oz(m.name), kids }
}
unsafe extern "C" fn cb_eldecl(a: *mut c_void, n: S, m: *mut Content) {
    let _g = Ph::harness();
    let c = cx();
    let mut budget = 1_000_000;
    let model = conv_model(c.lib, m, true, &mut budget);
    let e = Ev::Element { name: c.lib.z(n), model };
    {
        let _g = Ph::enter(c.lib);
        (c.lib.FreeContentModel)(c.p(), m);
    }
    c.rec(a, H_ELDECL, e);
}
unsafe extern "C" fn cb_attlist(a: *mut c_void, el: S, at: S, ty: S, d: S, r: c_int) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Attlist { el: c.lib.z(el), att: c.lib.z(at), ty: c.lib.z(ty), dflt: c.lib.oz(d), req: r };
    c.rec(a, H_ATTLIST, e);
}
unsafe extern "C" fn cb_xmldecl(a: *mut c_void, v: S, e: S, s: c_int) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::XmlDecl { version: c.lib.oz(v), enc: c.lib.oz(e), sa: s };
    c.rec(a, H_XMLDECL, e);
}
unsafe extern "C" fn cb_nsstart(a: *mut c_void, p: S, u: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::NsStart(c.lib.oz(p), c.lib.oz(u));
    c.rec(a, H_NS, e);
}
unsafe extern "C" fn cb_nsend(a: *mut c_void, p: S) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::NsEnd(c.lib.oz(p));
    c.rec(a, H_NS, e);
}
unsafe extern "C" fn cb_notsa(a: *mut c_void) -> c_int {
    let _g = Ph::harness();
    let c = cx();
    c.rec(a, H_NOTSA, Ev::NotStandalone);
    c.cfg.ns_ret
}
unsafe extern "C" fn cb_skipped(a: *mut c_void, n: S, pe: c_int) {
    let _g = Ph::harness();
    let c = cx();
    let e = Ev::Skipped(c.lib.z(n), pe != 0);
    c.rec(a, H_SKIPPED, e);
}
unsafe extern "C" fn cb_convert(d: *mut c_void, s: *const c_char) -> c_int {
    let _g = Ph::harness();
    // the data pointer handed out by cb_unk
    if d as usize != 0x77 {
        cx().t.bad.push("wrong data pointer for the encoding's convert function".into());
    }
    mb_convert(std::slice::from_raw_parts(s as *const u8, 4))
}
/// The artificial multi-byte encoding used by the checks: the lead byte's map entry -n says how
/// many bytes; the value is built from the trail bytes.
pub const NOCHARS: [i32; 10] = [0xfffe, 0xffff, 0xd800, 0xdfff, 0xdc00, 0x10000, -1, 1, 0x1f, i32::MIN];
pub fn mb_convert(b: &[u8]) -> i32 {
    // lead 0xE0..0xEF: 2 bytes: cp = 0x100 + (lead&15)<<6 | trail&63 ; lead 0xF0..0xF7: 3 bytes ; 0xF8..: 4
    let l = b[0];
    let t = |i: usize| -> i32 { (b[i] & 63) as i32 };
    if l < 0xE0 {
        0x80 + l as i32
    } else if l < 0xF0 {
        if b[1] == 0x3F {
            return -1;
        }
        0x100 + (((l & 15) as i32) << 6 | t(1))
    } else if b[1] == 0x3F {
        // no characters
        NOCHARS[b[2] as usize % NOCHARS.len()]
    } else if l < 0xF8 {
        0x800 + (((l & 7) as i32) << 12 | t(1) << 6 | t(2))
    } else {
        0x4000 + (((l & 3) as i32) << 12 | t(1) << 6 | t(2)) + t(3)
    }
}
unsafe extern "C" fn cb_release(d: *mut c_void) {
    let _g = Ph::harness();
    RELEASED += 1;
    if CUR.is_null() {
        return;
    }
    let c = cx();
    c.t.releases += 1;
    if d as usize != 0x77 {
        c.t.bad.push("wrong data pointer for the encoding's release function".into());
    }
}
unsafe extern "C" fn cb_unk(a: *mut c_void, name: S, info: *mut Encoding) -> c_int {
    let _g = Ph::harness();
    let c = cx();
    if a as usize != 0x55 {
        c.t.bad.push("wrong data pointer for the unknown-encoding handler".into());
    }
    let name = c.lib.z(name);
    let e = Ev::UnkEnc(name.clone());
    c.rec2(H_UNKENC, e);
    let u = match &c.cfg.unk {
        None => return 0,
        Some(u) => u,
    };
    if let Some(o) = &u.only {
        if o.as_bytes() != &name[..] {
            return 0;
        }
    }
    for i in 0..256 {
        (*info).map[i] = u.map[i];
    }
    (*info).data = 0x77 as *mut c_void;
    (*info).convert = if u.convert { Some(cb_convert) } else { None };
    (*info).release = if u.release { Some(cb_release) } else { None };
    if u.release {
        c.unk_handed += 1;
        HANDED += 1;
    }
    u.ret
}
unsafe extern "C" fn cb_ext(a: P, context: S, base: S, sys: S, pubid: S) -> c_int {
    let _g = Ph::harness();
    let c = cx();
    let want = if c.cfg.ext_arg { 0x99 as P } else { c.p() };
    if a != want {
        c.t.bad.push("external entity handler got the wrong first argument".into());
    }
    let ctxv = c.lib.oz(context);
    let sysv = c.lib.oz(sys);
    let set = ctxv.as_ref().map(|v| {
        let mut s: Vec<B> = v.split(|b| *b == 0x0c).map(|x| x.to_vec()).collect();
        s.sort();
        s
    });
    let e = Ev::ExtRef { ctx: set, base: c.lib.oz(base), sys: sysv.clone(), pubid: c.lib.oz(pubid) };
    c.rec2(H_EXT, e);
    if c.stack.len() as u16 > c.cfg.max_depth {
        return 0;
    }
    if c.cfg.acts.iter().any(|a| a.1 == Act::Stop(false)) && c.status().0 == 2 {
        return 1;
    }
    let sysb = sysv.unwrap_or_default();
    let cfg = c.cfg;
    let ent = match cfg.ents.iter().find(|e| e.sys.as_bytes() == &sysb[..]) {
        None => return 0,
        Some(e) => e,
    };
    if ent.mode == 0 {
        return 0;
    }
    if ent.mode == 2 {
        return 1;
    }
    if ent.mode == 5 {
        if !context.is_null() && c.stack.len() == 1 {
            let n = c.lib.zlen(context);
            let v = if c.lib.wide {
                std::slice::from_raw_parts(context as *const u16, n + 1).to_vec()
            } else {
                let mut b = std::slice::from_raw_parts(context as *const u8, n + 1).to_vec();
                b.push(0);
                b.chunks_exact(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect()
            };
            c.contexts.push(v);
        }
        return 1;
    }
    let enc = ent.enc.as_ref().map(|e| c.lib.zstr(e));
    let parent = c.p();
    let child = {
        let _g = Ph::enter(c.lib);
        (c.lib.ExternalEntityParserCreate)(parent, context, enc.as_ref().map_or(null_mut(), |z| z.as_ptr() as *mut c_void))
    };
    if child.is_null() {
        c.api("child parser NULL".into());
        return 0;
    }
    c.stack.push(child);
    c.fed.push(vec![]);
    let user = c.user;
    let (ok, ops) = match ent.mode {
        3 => (true, vec![]),
        4 if ent.data.len() < 2 => (true, vec![]),
        4 => {
            let n = ent.data.len() / 2;
            (true, feed_all(&ent.data[..n], &[Feed { n, fin: false, how: 0, slack: 0 }], true).1)
        }
        _ => feed_all(&ent.data, &ent.feeds, true),
    };
    let c = cx();
    // the child inherited the user data; a change made in it is its own
    c.user = user;
    let end = c.getpos();
    let err = {
        let _g = Ph::enter(c.lib);
        (c.lib.GetErrorCode)(child)
    };
    let _ = ops;
    let err = if ok { 0 } else { err };
    c.api(format!("child end ok={} err={} at {:?}", ok, err, if c.cfg.pos && !ok { Some(end) } else { None }));
    {
        let _g = Ph::enter(c.lib);
        (c.lib.ParserFree)(child);
    }
    c.stack.pop();
    c.fed.pop();
    ok as c_int
}

pub fn set_handlers(l: &Lib, p: P, m: u32, on: bool, cfg: &Cfg) {
    let f = |x: *mut c_void| if on { x } else { null_mut() };
    unsafe {
        if m & H_ELEM != 0 {
            (l.SetElementHandler)(p, f(F!(cb_start)), f(F!(cb_end)));
        }
        if m & H_TEXT != 0 {
            (l.SetCharacterDataHandler)(p, f(F!(cb_text)));
        }
        if m & H_PI != 0 {
            (l.SetProcessingInstructionHandler)(p, f(F!(cb_pi)));
        }
        if m & H_COMMENT != 0 {
            (l.SetCommentHandler)(p, f(F!(cb_comment)));
        }
        if m & H_CDATA != 0 {
            (l.SetCdataSectionHandler)(p, f(F!(cb_cdstart)), f(F!(cb_cdend)));
        }
        if m & H_DOCTYPE != 0 {
            (l.SetDoctypeDeclHandler)(p, f(F!(cb_dtstart)), f(F!(cb_dtend)));
        }
        if m & H_ENTITY != 0 {
            (l.SetEntityDeclHandler)(p, f(F!(cb_entity)));
        }
        if m & H_UNPARSED != 0 {
            (l.SetUnparsedEntityDeclHandler)(p, f(F!(cb_unparsed)));
        }
        if m & H_NOTATION != 0 {
            (l.SetNotationDeclHandler)(p, f(F!(cb_notation)));
        }
        if m & H_NS != 0 {
            (l.SetNamespaceDeclHandler)(p, f(F!(cb_nsstart)), f(F!(cb_nsend)));
        }
        if m & H_NOTSA != 0 {
            (l.SetNotStandaloneHandler)(p, f(F!(cb_notsa)));
        }
        if m & H_EXT != 0 {
            (l.SetExternalEntityRefHandler)(p, f(F!(cb_ext)));
            if cfg.ext_arg {
                (l.SetExternalEntityRefHandlerArg)(p, 0x99 as *mut c_void);
            }
        }
        if m & H_SKIPPED != 0 {
            (l.SetSkippedEntityHandler)(p, f(F!(cb_skipped)));
        }
        if m & H_UNKENC != 0 {
            (l.SetUnknownEncodingHandler)(p, f(F!(cb_unk)), 0x55 as *mut c_void);
        }
        if m & H_ELDECL != 0 {
            (l.SetElementDeclHandler)(p, f(F!(cb_eldecl)));
        }
        if m & H_ATTLIST != 0 {
            (l.SetAttlistDeclHandler)(p, f(F!(cb_attlist)));
        }
        if m & H_XMLDECL != 0 {
            (l.SetXmlDeclHandler)(p, f(F!(cb_xmldecl)));
        }
        if m & H_DEFAULT != 0 {
            (l.SetDefaultHandler)(p, f(F!(cb_default)));
        }
        if m & H_DEFEXPAND != 0 {
            (l.SetDefaultHandlerExpand)(p, f(F!(cb_default)));
        }
    }
}

/// Sets the individual half of a paired handler (start or end only).
pub fn set_half(l: &Lib, p: P, which: u32, on: bool) {
    let f = |x: *mut c_void| if on { x } else { null_mut() };
    unsafe {
        match which {
            0 => (l.SetStartElementHandler)(p, f(F!(cb_start))),
            1 => (l.SetEndElementHandler)(p, f(F!(cb_end))),
            2 => (l.SetStartCdataSectionHandler)(p, f(F!(cb_cdstart))),
            3 => (l.SetEndCdataSectionHandler)(p, f(F!(cb_cdend))),
            4 => (l.SetStartDoctypeDeclHandler)(p, f(F!(cb_dtstart))),
            5 => (l.SetEndDoctypeDeclHandler)(p, f(F!(cb_dtend))),
            6 => (l.SetStartNamespaceDeclHandler)(p, f(F!(cb_nsstart))),
            _ => (l.SetEndNamespaceDeclHandler)(p, f(F!(cb_nsend))),
        }
    }
}

/// Feeds data to the parser on top of the stack, resuming whenever it was suspended.
fn feed_all(data: &[u8], feeds: &[Feed], child: bool) -> (bool, Vec<OpRes>) {
    let mut ops = vec![];
    let mut at = 0;
    let one = [Feed { n: usize::MAX, fin: true, how: 0, slack: 0 }];
    let feeds: &[Feed] = if feeds.is_empty() { &one } else { feeds };
    let c = cx();
    let l = c.lib;
    let p = c.p();
    let _ = child;
    for f in feeds {
        let n = f.n.min(data.len() - at);
        let chunk = &data[at..at + n];
        at += n;
        let mut st = feed_one(chunk, f);
        loop {
            let c = cx();
            let s = c.status();
            let err = {
                let _g = Ph::enter(l);
                unsafe { (l.GetErrorCode)(p) }
            };
            ops.push(OpRes { status: st, err, parsing: s.0, fin: s.1 });
            if c.cfg.misuse {
                misuse(st, f.fin);
            }
            if st != 2 {
                break;
            }
            if c.cfg.leave {
                return (false, ops);
            }
            let _g = Ph::enter(l);
            st = unsafe { (l.ResumeParser)(p) };
        }
        if st == 0 {
            return (false, ops);
        }
    }
    (true, ops)
}

/// Calls that do not fit the state must be refused and change nothing.
fn misuse(st: u32, fin: bool) {
    let c = cx();
    let l = c.lib;
    let p = c.p();
    let before = (c.status(), c.getpos());
    let err0 = {
        let _g = Ph::enter(l);
        unsafe { (l.GetErrorCode)(p) }
    };
    let want = match (st, fin) {
        // after an error the parser counts as parsing; every further call reports the error again
        (0, _) if before.0 .0 != 2 => 0,
        (0, _) => 2,
        (2, _) => 3,
        (_, true) => 2,
        _ => 1,
    };
    let mut bad = vec![];
    if before.0 .0 != want && want != 0 {
        bad.push(format!("parsing status {} where {} is expected", before.0 .0, want));
    }
    let n = c.t.recs.len();
    unsafe {
        let d = b"<zz>";
        let try_ = |what: &str, r: u32, errs: &[u32], bad: &mut Vec<String>| {
            let e = {
                let _g = Ph::enter(l);
                (l.GetErrorCode)(p)
            };
            if r != 0 || !errs.contains(&e) {
                bad.push(format!("{} in parsing status {}: returned {} with error {}", what, want, r, e));
            }
        };
        if want >= 2 {
            let e = if want == 3 { 33 } else { 36 };
            let r = {
                let _g = Ph::enter(l);
                (l.Parse)(p, d.as_ptr() as *const c_char, 4, 1)
            };
            try_("XML_Parse", r, &[e], &mut bad);
            let r = {
                let _g = Ph::enter(l);
                (l.ParseBuffer)(p, 0, 1)
            };
            try_("XML_ParseBuffer", r, &[e], &mut bad);
            let r = {
                let _g = Ph::enter(l);
                (l.GetBuffer)(p, 10)
            };
            try_("XML_GetBuffer", !r.is_null() as u32, &[e], &mut bad);
            let r = {
                let _g = Ph::enter(l);
                (l.StopParser)(p, 1)
            };
            try_("XML_StopParser(resumable)", r, &[e], &mut bad);
        }
        if want == 2 {
            let r = {
                let _g = Ph::enter(l);
                (l.StopParser)(p, 0)
            };
            try_("XML_StopParser", r, &[36], &mut bad);
        }
        if want != 3 && want != 0 {
            let r = {
                let _g = Ph::enter(l);
                (l.ResumeParser)(p)
            };
            try_("XML_ResumeParser", r, &[34], &mut bad);
        }
        let k = |what: &str, r: i32, ok: i32, bad: &mut Vec<String>| {
            if r != ok {
                bad.push(format!("{} in parsing status {}: returned {}", what, want, r));
            }
        };
        if want != 2 {
            let _g = Ph::enter(l);
            let z = l.zstr("UTF-16");
            k("XML_SetEncoding", (l.SetEncoding)(p, z.as_ptr() as S) as i32, 0, &mut bad);
            k("XML_SetParamEntityParsing", (l.SetParamEntityParsing)(p, 1) as i32, 0, &mut bad);
            k("XML_UseForeignDTD", (l.UseForeignDTD)(p, 1) as i32, 26, &mut bad);
            (l.SetReturnNSTriplet)(p, !c.cfg.triplets as c_int);
        }
    }
    let after = (c.status(), c.getpos());
    if before.0 .0 != after.0 .0 || before.1 != after.1 {
        bad.push(format!("calls that were refused changed {:?} to {:?}", before, after));
    }
    if c.t.recs.len() != n {
        bad.push("handlers were called by calls that should be refused".into());
    }
    let _ = err0;
    if c.t.bad.len() < 5 {
        c.t.bad.extend(bad);
    }
}

/// One XML_Parse (or GetBuffer/ParseBuffer) on the top parser.
pub fn feed_one(chunk: &[u8], f: &Feed) -> u32 {
    let c = cx();
    let l = c.lib;
    let p = c.p();
    c.fed.last_mut().unwrap().extend_from_slice(chunk);
    // an exact-size private copy, so that reads past the chunk are visible to sanitizers
    let own: Box<[u8]> = chunk.to_vec().into_boxed_slice();
    let copy: &[u8] = unsafe { std::slice::from_raw_parts(own.as_ptr(), own.len()) };
    if f.how == 0 {
        c.keep.push(own);
        if c.stack.len() == 1 && c.keep.len() > 40 {
            c.keep.drain(..20);
        }
    }
    unsafe {
        match f.how {
            0 => {
                let _g = Ph::enter(l);
                (l.Parse)(p, copy.as_ptr() as *const c_char, copy.len() as c_int, f.fin as c_int)
            }
            _ => {
                let want = copy.len() + if f.how == 2 { f.slack as usize } else { 0 };
                let buf = {
                    let _g = Ph::enter(l);
                    (l.GetBuffer)(p, want as c_int)
                };
                if buf.is_null() {
                    return 0;
                }
                std::ptr::copy_nonoverlapping(copy.as_ptr(), buf as *mut u8, copy.len());
                let _g = Ph::enter(l);
                (l.ParseBuffer)(p, copy.len() as c_int, f.fin as c_int)
            }
        }
    }
}

pub fn create(l: &Lib, cfg: &Cfg) -> P {
    unsafe {
        let enc = cfg.enc.as_ref().map(|e| l.zstr(e));
        let encp = enc.as_ref().map_or(std::ptr::null(), |z| z.as_ptr() as S);
        let _g = Ph::enter(l);
        match cfg.ns {
            _ if cfg.mm => {
                drop(_g);
                let sep = cfg.ns.map(|c| l.zstr(&c.to_string()));
                let _g = Ph::enter(l);
                (l.ParserCreate_MM)(encp, std::ptr::null(), sep.as_ref().map_or(std::ptr::null(), |z| z.as_ptr() as S))
            }
            None => (l.ParserCreate)(encp),
            Some(s) => (l.ParserCreateNS)(encp, s as c_uint),
        }
    }
}

pub fn configure(l: &Lib, p: P, cfg: &Cfg, user: *mut c_void) -> Vec<String> {
    let mut bad = vec![];
    let base = cfg.base.as_ref().map(|b| l.zstr(b));
    let _g = Ph::enter(l);
    unsafe {
        if let Some(f) = l.SetReparseDeferralEnabled {
            f(p, 0);
        }
        if let Some(f) = l.SetBLThresh {
            f(p, u64::MAX);
        }
        if let Some(f) = l.SetATThresh {
            f(p, u64::MAX);
        }
        (l.SetUserData)(p, user);
        if cfg.parser_arg {
            (l.UseParserAsHandlerArg)(p);
        }
        set_handlers(l, p, cfg.h, true, cfg);
        if cfg.triplets {
            (l.SetReturnNSTriplet)(p, 1);
        }
        (l.SetHashSalt)(p, cfg.salt as _);
        if cfg.pe != 0 {
            let r = (l.SetParamEntityParsing)(p, cfg.pe as c_uint);
            if r != 1 {
                bad.push(format!("SetParamEntityParsing -> {}", r));
            }
        }
        if cfg.foreign {
            let r = (l.UseForeignDTD)(p, 1);
            if r != 0 {
                bad.push(format!("UseForeignDTD -> {}", r));
            }
        }
        if let Some(b) = &base {
            let r = (l.SetBase)(p, b.as_ptr() as S);
            if r != 1 {
                bad.push(format!("SetBase -> {}", r));
            }
        }
    }
    bad
}

pub fn one_feed() -> Vec<Feed> {
    vec![Feed { n: usize::MAX, fin: true, how: 0, slack: 0 }]
}

/// Runs a whole document through a fresh parser.
pub fn run(l: &Lib, cfg: &Cfg, data: &[u8], feeds: &[Feed]) -> Trace {
    let p = create(l, cfg);
    if p.is_null() {
        let mut t = Trace::default();
        t.status = 0;
        t.err = 1;
        return t;
    }
    let t = run_on(l, cfg, p, data, feeds, true, true);
    t
}

/// Runs on an existing parser (fresh or reset).
pub fn run_on(l: &Lib, cfg: &Cfg, p: P, data: &[u8], feeds: &[Feed], conf: bool, free: bool) -> Trace {
    let mut ctx = Ctx::new(l, cfg);
    ctx.t.created = true;
    ctx.stack.push(p);
    ctx.fed.push(vec![]);
    let old = unsafe { CUR };
    unsafe { CUR = &mut *ctx as *mut Ctx as *mut c_void };
    if conf {
        let b = configure(l, p, cfg, ctx.user);
        ctx.t.bad.extend(b);
    }
    let (_, ops) = feed_all(data, feeds, false);
    let c = cx();
    c.ended = true;
    c.t.end = Some(c.getpos());
    let last = ops.last().cloned().unwrap_or_default();
    c.t.status = last.status;
    c.t.err = last.err;
    c.t.ops = ops;
    if c.stack.len() != 1 {
        c.t.bad.push("parser stack unbalanced".into());
    }
    if free {
        let _g = Ph::enter(l);
        unsafe { (l.ParserFree)(p) };
        drop(_g);
        if c.t.releases != c.unk_handed {
            let m = format!("encoding release called {} times for {} encodings", c.t.releases, c.unk_handed);
            c.t.bad.push(m);
        }
    }
    unsafe { CUR = old };
    let ctx = *ctx;
    ctx.t
}

/// Cuts a length into feeds.
pub fn feeds_from(cuts: &[usize], len: usize, how: impl Fn(usize) -> (u8, u32), empty_final: bool) -> Vec<Feed> {
    let mut v = vec![];
    let mut at = 0;
    let mut cs: Vec<usize> = cuts.iter().map(|c| (*c).min(len)).collect();
    cs.sort();
    let mut i = 0;
    for c in cs {
        let (h, s) = how(i);
        v.push(Feed { n: c - at, fin: false, how: h, slack: s });
        at = c;
        i += 1;
    }
    let (h, s) = how(i);
    if empty_final {
        v.push(Feed { n: len - at, fin: false, how: h, slack: s });
        let (h, s) = how(i + 1);
        v.push(Feed { n: 0, fin: true, how: h, slack: s });
    } else {
        v.push(Feed { n: len - at, fin: true, how: h, slack: s });
    }
    v
}

/// Merges adjacent character-data (and adjacent default) events; drops nothing else.
/// Joins two pieces of text (UTF-16 builds may cut a character in two).
pub fn join_text(a: &mut B, b: &[u8]) {
    let n = a.len();
    if n >= 3 && b.len() >= 3 && a[n - 3] == 0xed && a[n - 2] & 0xf0 == 0xa0 && b[0] == 0xed && b[1] & 0xf0 == 0xb0 {
        let half = |x: &[u8]| ((x[1] as u32 & 15) << 6) | (x[2] as u32 & 63);
        let c = 0x10000 + ((half(&a[n - 3..]) & 0x3ff) << 10) + (half(b) & 0x3ff);
        a.truncate(n - 3);
        let mut buf = [0; 4];
        a.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut buf).as_bytes());
        a.extend_from_slice(&b[3..]);
    } else {
        a.extend_from_slice(b);
    }
}
pub fn merged(t: &Trace) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    for r in &t.recs {
        if let Some(l) = out.last_mut() {
            if l.level == r.level {
                match (&mut l.ev, &r.ev) {
                    (Ev::Text(a), Ev::Text(b)) | (Ev::Default(a), Ev::Default(b)) => {
                        join_text(a, b);
                        continue;
                    }
                    _ => {}
                }
            }
        }
        out.push(r.clone());
    }
    out
}

pub fn fmt_rec(r: &Rec) -> String {
    let s = |b: &B| show(b);
    let o = show_opt;
    let e = match &r.ev {
        Ev::Start { name, atts, nspec, id } => {
            let mut t = format!("start {}", s(name));
            for (k, v) in atts {
                t.push_str(&format!(" {}=\"{}\"", s(k), s(v)));
            }
            t + &format!(" (specified {}, id {})", nspec, id)
        }
        Ev::End(n) => format!("end {}", s(n)),
        Ev::Text(n) => format!("text \"{}\"", s(n)),
        Ev::Pi(a, b) => format!("pi {} \"{}\"", s(a), s(b)),
        Ev::Comment(n) => format!("comment \"{}\"", s(n)),
        Ev::Default(n) => format!("default \"{}\"", s(n)),
        Ev::DtStart { name, sys, pubid, internal } => {
            format!("doctype {} sys={} pub={} internal={}", s(name), o(sys), o(pubid), internal)
        }
        Ev::Entity { name, pe, value, base, sys, pubid, notation } => format!(
            "entitydecl {}{} value={} base={} sys={} pub={} ndata={}",
            if *pe { "%" } else { "" },
            s(name),
            o(value),
            o(base),
            o(sys),
            o(pubid),
            o(notation)
        ),
        Ev::Unparsed { name, base, sys, pubid, notation } => {
            format!("unparsed {} base={} sys={} pub={} ndata={}", s(name), o(base), o(sys), o(pubid), o(notation))
        }
        Ev::Notation { name, base, sys, pubid } => {
            format!("notation {} base={} sys={} pub={}", s(name), o(base), o(sys), o(pubid))
        }
        Ev::Element { name, model } => format!("elementdecl {} {}", s(name), fmt_model(model)),
        Ev::Attlist { el, att, ty, dflt, req } => {
            format!("attlist {} {} {} default={} required={}", s(el), s(att), s(ty), o(dflt), req)
        }
        Ev::XmlDecl { version, enc, sa } => format!("xmldecl version={} enc={} sa={}", o(version), o(enc), sa),
        Ev::NsStart(a, b) => format!("ns+ {} {}", o(a), o(b)),
        Ev::NsEnd(a) => format!("ns- {}", o(a)),
        Ev::ExtRef { ctx, base, sys, pubid } => format!(
            "extref context={} base={} sys={} pub={}",
            match ctx {
                None => "NULL".into(),
                Some(v) => v.iter().map(|x| show(x)).collect::<Vec<_>>().join("|"),
            },
            o(base),
            o(sys),
            o(pubid)
        ),
        Ev::Skipped(n, pe) => format!("skipped {}{}", if *pe { "%" } else { "" }, s(n)),
        Ev::UnkEnc(n) => format!("unknown encoding {}", s(n)),
        Ev::Api(a) => format!("api {}", a),
        x => format!("{:?}", x),
    };
    let e = if e.len() > 400 {
        let mut k = 390;
        while !e.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &e[..k], e.len())
    } else {
        e
    };
    match r.pos {
        Some(p) => format!("[{}] {} @{}:{} byte {}+{}", r.level, e, p.line, p.col, p.idx, p.count),
        None => format!("[{}] {}", r.level, e),
    }
}
pub fn fmt_model(m: &Model) -> String {
    let q = ["", "?", "*", "+"].get(m.quant as usize).copied().unwrap_or("!");
    let t = match m.typ {
        1 => "EMPTY".to_string(),
        2 => "ANY".into(),
        4 => show(m.name.as_deref().unwrap_or(b"")),
        _ => {
            let k: Vec<String> = m.kids.iter().map(fmt_model).collect();
            let sep = match m.typ {
                3 => "MIXED|",
                5 => "|",
                6 => ",",
                _ => "?!",
            };
            format!("({} {})", sep, k.join(" "))
        }
    };
    t + q
}

/// First difference of two record lists, if any.
pub fn diff_recs(a: &[Rec], an: &str, b: &[Rec], bn: &str) -> Option<String> {
    let n = a.len().min(b.len());
    for i in 0..=n {
        let (x, y) = (a.get(i), b.get(i));
        if x == y {
            continue;
        }
        let f = |r: Option<&Rec>| r.map(fmt_rec).unwrap_or("(no further event)".into());
        let prev = if i > 0 { fmt_rec(&a[i - 1]) } else { "(start)".into() };
        if let (Some(Rec { ev: Ev::Element { model: p, .. }, .. }), Some(Rec { ev: Ev::Element { model: q, .. }, .. })) = (x, y) {
            let (p, q) = (fmt_model(p), fmt_model(q));
            if p.len() > 300 && p != q {
                let (p, q) = (p.as_bytes(), q.as_bytes());
                let k = p.iter().zip(q).take_while(|z| z.0 == z.1).count();
                let w = |v: &[u8]| show(&v[k.saturating_sub(40)..(k + 60).min(v.len())]);
                return Some(format!("event {}: content models differ at {}: {}: ...{}... | {}: ...{}... | after: {}", i, k, an, w(p), bn, w(q), prev));
            }
        }
        if let (Some(Rec { ev: Ev::Text(p), .. }), Some(Rec { ev: Ev::Text(q), .. })) = (x, y) {
            if p.len().max(q.len()) > 300 {
                let k = p.iter().zip(q).take_while(|z| z.0 == z.1).count();
                let w = |v: &B| show(&v[k.saturating_sub(20)..(k + 40).min(v.len())]);
                return Some(format!("event {}: texts of {} and {} bytes differ at {}: {}: ...{}... | {}: ...{}... | after: {}", i, p.len(), q.len(), k, an, w(p), bn, w(q), prev));
            }
        }
        return Some(format!("event {}: {}: {} | {}: {} | after: {}", i, an, f(x), bn, f(y), prev));
    }
    None
}
