//! A model of the xmlwf command: what it is to print and write for given arguments and files, with
//! a library of choice doing the parsing. And the running of the command itself.
use super::*;
use std::collections::BTreeMap;
use std::os::raw::{c_char, c_int, c_void};
use std::path::Path;
use std::ptr::null;

pub const READ: usize = 8192;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Opt {
    pub stream: bool,
    pub sa: bool,
    pub ns: bool,
    pub pe: bool,
    pub ext: bool,
    pub enc: Option<String>,
    pub cp: bool,
    pub dir: Option<String>,
    /// 0: canonical; b'c', b'm', b't'
    pub out: u8,
    pub notations: bool,
}

/// What a run leaves behind.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Res {
    pub code: i32,
    pub stdout: B,
    pub stderr: B,
    /// files in the output directory
    pub files: BTreeMap<String, B>,
    /// external entities met (by the model)
    pub ents: usize,
}

struct W<'a> {
    l: &'a Lib,
    root: &'a Path,
    o: &'a Opt,
    out: B,
    fp: Option<B>,
    notations: Vec<(B, Option<B>, Option<B>)>,
    doctype: B,
    stack: Vec<P>,
    err: B,
    dup: bool,
    ents: usize,
}
impl<'a> W<'a> {
    fn p(&self) -> P {
        *self.stack.last().unwrap()
    }
    fn put(&mut self, s: &[u8]) {
        self.fp.as_mut().unwrap().extend_from_slice(s);
    }
    fn esc(&mut self, s: &[u8]) {
        let mut v = vec![];
        for &c in s {
            match c {
                b'&' => v.extend_from_slice(b"&amp;"),
                b'<' => v.extend_from_slice(b"&lt;"),
                b'>' => v.extend_from_slice(b"&gt;"),
                b'"' => v.extend_from_slice(b"&quot;"),
                9 | 10 | 13 => v.extend_from_slice(format!("&#{};", c).as_bytes()),
                _ => v.push(c),
            }
        }
        self.put(&v);
    }
    fn attval(&mut self, s: &[u8]) {
        self.put(b"=\"");
        self.esc(s.split(|c| *c == 1).next().unwrap());
        self.put(b"\"");
    }
    fn loc(&mut self) {
        unsafe {
            let p = self.p();
            let base = (self.l.GetBase)(p);
            if !base.is_null() {
                let b = self.l.z(base);
                self.put(b" uri=\"");
                self.put(&b);
                self.put(b"\"");
            }
            let l = self.l;
            let s = format!(" byte=\"{}\" nbytes=\"{}\" line=\"{}\" col=\"{}\"", (l.GetCurrentByteIndex)(p), (l.GetCurrentByteCount)(p), (l.GetCurrentLineNumber)(p), (l.GetCurrentColumnNumber)(p));
            self.put(s.as_bytes());
        }
    }
    fn perror(&mut self, name: &[u8], e: &std::io::Error) {
        let s = e.to_string();
        self.err.extend_from_slice(name);
        self.err.extend_from_slice(b": ");
        self.err.extend_from_slice(s.split(" (os error").next().unwrap().as_bytes());
        self.err.push(b'\n');
    }
    unsafe fn report(&mut self, p: P, name: &[u8]) {
        let code = (self.l.GetErrorCode)(p);
        let m = self.l.z((self.l.ErrorString)(code) as S);
        self.out.extend_from_slice(name);
        self.out.extend_from_slice(format!(":{}:{}: ", (self.l.GetCurrentLineNumber)(p), (self.l.GetCurrentColumnNumber)(p)).as_bytes());
        self.out.extend_from_slice(&m);
        self.out.push(b'\n');
    }
}
unsafe fn os(b: &[u8]) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(b.to_vec())
}
/// Parses the file (or this input, standing for the standard one).
unsafe fn process(w: *mut W, p: P, name: Option<&[u8]>, stdin: &[u8]) -> bool {
    let w = &mut *w;
    let stream = w.o.stream;
    let shown = name.unwrap_or(b"STDIN").to_vec();
    let mut data = stdin.to_vec();
    if let Some(n) = name {
        use std::io::Read;
        let mut f = match std::fs::File::open(w.root.join(os(n))) {
            Ok(f) => f,
            Err(e) => {
                w.perror(n, &e);
                return false;
            }
        };
        if !stream && !f.metadata().unwrap().is_file() {
            w.err.extend_from_slice(n);
            w.err.extend_from_slice(b": not a regular file\n");
            return false;
        }
        data.clear();
        if let Err(e) = f.read_to_end(&mut data) {
            w.perror(n, &e);
            return false;
        }
    }
    w.stack.push(p);
    let mut ok = true;
    if !stream {
        ok = (w.l.Parse)(p, data.as_ptr() as *const c_char, data.len() as c_int, 1) == 1;
    } else {
        let mut at = 0;
        loop {
            let n = READ.min(data.len() - at);
            let b = (w.l.GetBuffer)(p, READ as c_int);
            if b.is_null() {
                ok = false;
                break;
            }
            std::ptr::copy_nonoverlapping(data.as_ptr().add(at), b as *mut u8, n);
            at += n;
            if (w.l.ParseBuffer)(p, n as c_int, (n == 0) as c_int) != 1 {
                ok = false;
                break;
            }
            if n == 0 {
                break;
            }
        }
    }
    w.stack.pop();
    if !ok {
        w.report(p, &shown);
    }
    ok
}

type Arg = *mut c_void;
unsafe fn w<'a>(a: Arg) -> &'a mut W<'static> {
    &mut *(a as *mut W<'static>)
}
unsafe fn atts(l: &Lib, mut a: *const S) -> Vec<(B, B)> {
    let mut v = vec![];
    while !(*a).is_null() {
        v.push((l.z(*a), l.z(*a.add(1))));
        a = a.add(2);
    }
    v
}
unsafe extern "C" fn text(a: Arg, s: S, n: c_int) {
    let w = w(a);
    let b = w.l.chars(s, n as usize);
    w.esc(&b);
}
unsafe extern "C" fn start(a: Arg, name: S, at: *const S) {
    let w = w(a);
    let mut v = atts(w.l, at);
    v.sort();
    let name = w.l.z(name);
    w.put(b"<");
    w.put(&name);
    for (n, x) in v {
        w.put(b" ");
        w.put(&n);
        w.attval(&x);
    }
    w.put(b">");
}
unsafe extern "C" fn end(a: Arg, name: S) {
    let w = w(a);
    let name = w.l.z(name);
    w.put(b"</");
    w.put(&name);
    w.put(b">");
}
fn local(n: &[u8]) -> Option<&[u8]> {
    n.iter().rposition(|c| *c == 1).map(|i| &n[i + 1..])
}
unsafe extern "C" fn ns_start(a: Arg, name: S, at: *const S) {
    let w = w(a);
    let mut v = atts(w.l, at);
    v.sort();
    let name = w.l.z(name);
    w.put(b"<");
    let mut k = 1;
    match local(&name) {
        Some(x) => {
            w.put(b"n1:");
            w.put(x);
            w.put(b" xmlns:n1");
            w.attval(&name);
            k = 2;
        }
        None => w.put(&name),
    }
    for (n, x) in v {
        w.put(b" ");
        match local(&n) {
            Some(l) => {
                w.put(format!("n{}:", k).as_bytes());
                w.put(l);
                w.attval(&x);
                w.put(format!(" xmlns:n{}", k).as_bytes());
                w.attval(&n);
                k += 1;
            }
            None => {
                w.put(&n);
                w.attval(&x);
            }
        }
    }
    w.put(b">");
}
unsafe extern "C" fn ns_end(a: Arg, name: S) {
    let w = w(a);
    let name = w.l.z(name);
    w.put(b"</");
    match local(&name) {
        Some(x) => {
            w.put(b"n1:");
            w.put(x);
        }
        None => w.put(&name),
    }
    w.put(b">");
}
unsafe extern "C" fn pi(a: Arg, t: S, d: S) {
    let w = w(a);
    let (t, d) = (w.l.z(t), w.l.z(d));
    w.put(b"<?");
    w.put(&t);
    w.put(b" ");
    w.put(&d);
    w.put(b"?>");
}
unsafe extern "C" fn dt_start(a: Arg, n: S, _: S, _: S, _: c_int) {
    let w = w(a);
    w.doctype = w.l.z(n);
}
unsafe extern "C" fn dt_end(a: Arg) {
    let w = w(a);
    let mut v = std::mem::take(&mut w.notations);
    if v.is_empty() {
        return;
    }
    v.reverse();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    w.dup |= v.windows(2).any(|x| x[0].0 == x[1].0);
    let d = w.doctype.clone();
    w.put(b"<!DOCTYPE ");
    w.put(&d);
    w.put(b" [\n");
    for (n, s, p) in v {
        w.put(b"<!NOTATION ");
        w.put(&n);
        match (&p, &s) {
            (Some(_), _) => w.put(b" PUBLIC"),
            (None, Some(_)) => w.put(b" SYSTEM"),
            _ => {}
        }
        for x in [p, s].iter().flatten() {
            w.put(b" '");
            w.put(x);
            w.put(b"'");
        }
        w.put(b">\n");
    }
    w.put(b"]>\n");
}
unsafe extern "C" fn notation(a: Arg, n: S, _: S, s: S, p: S) {
    let w = w(a);
    let x = (w.l.z(n), w.l.oz(s), w.l.oz(p));
    w.notations.push(x);
}
// the copy
unsafe extern "C" fn c_default(a: Arg, s: S, n: c_int) {
    let w = w(a);
    let b = w.l.chars(s, n as usize);
    w.put(&b);
}
unsafe fn cur(a: Arg) {
    let w = a as *mut W;
    ((*w).l.DefaultCurrent)((*w).p());
}
unsafe extern "C" fn c_text(a: Arg, _: S, _: c_int) {
    cur(a)
}
unsafe extern "C" fn c_start(a: Arg, _: S, _: *const S) {
    cur(a)
}
unsafe extern "C" fn c_end(a: Arg, _: S) {
    cur(a)
}
unsafe extern "C" fn c_pi(a: Arg, _: S, _: S) {
    cur(a)
}
// the list of events
impl<'a> W<'a> {
    unsafe fn str_attr(&mut self, k: &str, s: S, escape: bool) {
        if s.is_null() {
            return;
        }
        let b = self.l.z(s);
        self.put(format!(" {}=\"", k).as_bytes());
        if escape {
            self.esc(&b);
        } else {
            self.put(&b);
        }
        self.put(b"\"");
    }
    fn done(&mut self) {
        self.loc();
        self.put(b"/>\n");
    }
}
unsafe extern "C" fn m_start(a: Arg, name: S, at: *const S) {
    let w = w(a);
    let p = w.p();
    let (n, id) = ((w.l.GetSpecifiedAttributeCount)(p), (w.l.GetIdAttributeIndex)(p));
    w.put(b"<starttag");
    w.str_attr("name", name, false);
    w.loc();
    if (*at).is_null() {
        w.put(b"/>\n");
        return;
    }
    w.put(b">\n");
    let mut i = 0;
    while !(*at.add(i)).is_null() {
        w.put(b"<attribute");
        w.str_attr("name", *at.add(i), false);
        w.str_attr("value", *at.add(i + 1), true);
        if i as c_int >= n {
            w.put(b" defaulted=\"yes\"");
        } else if i as c_int == id {
            w.put(b" id=\"yes\"");
        }
        w.put(b"/>\n");
        i += 2;
    }
    w.put(b"</starttag>\n");
}
unsafe extern "C" fn m_end(a: Arg, name: S) {
    let w = w(a);
    w.put(b"<endtag");
    w.str_attr("name", name, false);
    w.done();
}
unsafe extern "C" fn m_pi(a: Arg, t: S, d: S) {
    let w = w(a);
    w.put(b"<pi");
    w.str_attr("target", t, false);
    w.str_attr("data", d, true);
    w.done();
}
unsafe extern "C" fn m_comment(a: Arg, d: S) {
    let w = w(a);
    w.put(b"<comment");
    w.str_attr("data", d, true);
    w.done();
}
unsafe extern "C" fn m_cd(a: Arg) {
    let w = w(a);
    w.put(b"<startcdata");
    w.done();
}
unsafe extern "C" fn m_cde(a: Arg) {
    let w = w(a);
    w.put(b"<endcdata");
    w.done();
}
unsafe extern "C" fn m_text(a: Arg, s: S, n: c_int) {
    let w = w(a);
    let b = w.l.chars(s, n as usize);
    w.put(b"<chars str=\"");
    w.esc(&b);
    w.put(b"\"");
    w.done();
}
unsafe extern "C" fn m_dt(a: Arg, n: S, _: S, _: S, _: c_int) {
    let w = w(a);
    w.put(b"<startdoctype");
    w.str_attr("name", n, false);
    w.done();
}
unsafe extern "C" fn m_dte(a: Arg) {
    let w = w(a);
    w.put(b"<enddoctype");
    w.done();
}
unsafe extern "C" fn m_notation(a: Arg, n: S, _: S, s: S, p: S) {
    let w = w(a);
    w.put(b"<notation");
    w.str_attr("name", n, false);
    w.str_attr("public", p, false);
    w.str_attr("system", s, true);
    w.done();
}
unsafe extern "C" fn m_entity(a: Arg, n: S, _: c_int, v: S, len: c_int, _: S, s: S, p: S, no: S) {
    let w = w(a);
    w.put(b"<entity");
    w.str_attr("name", n, false);
    if !v.is_null() {
        let b = w.l.chars(v, len as usize);
        w.loc();
        w.put(b">");
        w.esc(&b);
        w.put(b"</entity/>\n");
        return;
    }
    w.str_attr("public", p, false);
    w.str_attr("system", s, true);
    w.str_attr("notation", no, false);
    w.done();
}
unsafe extern "C" fn m_ns(a: Arg, p: S, u: S) {
    let w = w(a);
    w.put(b"<startns");
    w.str_attr("prefix", p, false);
    w.str_attr("ns", u, true);
    w.put(b"/>\n");
}
unsafe extern "C" fn m_nse(a: Arg, p: S) {
    let w = w(a);
    w.put(b"<endns");
    w.str_attr("prefix", p, false);
    w.put(b"/>\n");
}
unsafe extern "C" fn notsa(_: Arg) -> c_int {
    0
}
unsafe extern "C" fn unkenc(_: Arg, _: S, _: *mut Encoding) -> c_int {
    0
}
static mut CUR: Arg = std::ptr::null_mut();
unsafe extern "C" fn ext(p: P, ctx: S, base: S, sys: S, _: S) -> c_int {
    let wp = CUR as *mut W;
    let l = (*wp).l;
    (*wp).ents += 1;
    let kid = (l.ExternalEntityParserCreate)(p, ctx, null());
    tame(l, kid);
    let sys = l.z(sys);
    let mut name = vec![];
    if !base.is_null() && sys.first() != Some(&b'/') {
        let b = l.z(base);
        if let Some(i) = b.iter().rposition(|c| *c == b'/') {
            name.extend_from_slice(&b[..i + 1]);
        }
    }
    name.extend_from_slice(&sys);
    let mut z = name.clone();
    z.push(0);
    (l.SetBase)(kid, z.as_ptr() as S);
    let r = process(wp, kid, Some(&name), b"");
    (l.ParserFree)(kid);
    r as c_int
}
unsafe fn tame(l: &Lib, p: P) {
    if let Some(f) = l.SetReparseDeferralEnabled {
        f(p, 0);
    }
}

/// What the command is to do with these files (None: the standard input), and whether that is
/// determined.
pub fn model(l: &Lib, root: &Path, o: &Opt, files: &[String], stdin: &[u8]) -> (Res, bool) {
    let mut r = Res::default();
    let mut dup = false;
    let o = &Opt { stream: o.stream || files.is_empty(), ..o.clone() };
    let list: Vec<Option<&String>> = if files.is_empty() { vec![None] } else { files.iter().map(Some).collect() };
    for f in list {
        let mut w = W { l, root, o, out: vec![], fp: None, notations: vec![], doctype: vec![], stack: vec![], err: vec![], dup: false, ents: 0 };
        let wp = &mut w as *mut W as Arg;
        let outname = f.map_or("STDIN".to_string(), |f| f.rsplit('/').next().unwrap().to_string());
        let dir = if o.out == b't' { None } else { o.dir.as_ref() };
        if let Some(d) = dir {
            if let Err(e) = std::fs::metadata(root.join(d)) {
                w.perror(format!("{}/{}", d, outname).as_bytes(), &e);
                r.stderr.extend_from_slice(&w.err);
                r.code = 1;
                return (r, !dup);
            }
        }
        let ok = unsafe {
            let e = o.enc.as_ref().map(|e| l.zstr(e));
            let ep = e.as_ref().map_or(null(), |z| z.as_ptr() as S);
            let _g = Ph::enter(l);
            let p = if o.ns && o.out != b'c' { (l.ParserCreateNS)(ep, 1) } else { (l.ParserCreate)(ep) };
            tame(l, p);
            if let Some(f) = l.SetBLThresh {
                f(p, u64::MAX);
            }
            if let Some(f) = l.SetATThresh {
                f(p, u64::MAX);
            }
            (l.SetHashSalt)(p, 1);
            if o.sa {
                (l.SetNotStandaloneHandler)(p, notsa as FnV);
            }
            (l.SetParamEntityParsing)(p, if o.pe { 2 } else { 0 });
            if dir.is_some() {
                w.fp = Some(vec![]);
                (l.SetUserData)(p, wp);
                match o.out {
                    b'm' => {
                        (l.SetElementHandler)(p, m_start as FnV, m_end as FnV);
                        (l.SetProcessingInstructionHandler)(p, m_pi as FnV);
                        (l.SetCommentHandler)(p, m_comment as FnV);
                        (l.SetCdataSectionHandler)(p, m_cd as FnV, m_cde as FnV);
                        (l.SetCharacterDataHandler)(p, m_text as FnV);
                        (l.SetDoctypeDeclHandler)(p, m_dt as FnV, m_dte as FnV);
                        (l.SetEntityDeclHandler)(p, m_entity as FnV);
                        (l.SetNotationDeclHandler)(p, m_notation as FnV);
                        (l.SetNamespaceDeclHandler)(p, m_ns as FnV, m_nse as FnV);
                        w.put(b"<document>\n");
                    }
                    b'c' => {
                        (l.SetDefaultHandler)(p, c_default as FnV);
                        (l.SetElementHandler)(p, c_start as FnV, c_end as FnV);
                        (l.SetCharacterDataHandler)(p, c_text as FnV);
                        (l.SetProcessingInstructionHandler)(p, c_pi as FnV);
                    }
                    _ => {
                        if o.ns {
                            (l.SetElementHandler)(p, ns_start as FnV, ns_end as FnV);
                        } else {
                            (l.SetElementHandler)(p, start as FnV, end as FnV);
                        }
                        (l.SetCharacterDataHandler)(p, text as FnV);
                        (l.SetProcessingInstructionHandler)(p, pi as FnV);
                        if o.notations {
                            (l.SetDoctypeDeclHandler)(p, dt_start as FnV, dt_end as FnV);
                            (l.SetNotationDeclHandler)(p, notation as FnV);
                        }
                    }
                }
            }
            if o.cp {
                (l.SetUnknownEncodingHandler)(p, unkenc as FnV, std::ptr::null_mut());
            }
            if let Some(f) = f {
                let z = l.zstr(f);
                (l.SetBase)(p, z.as_ptr() as S);
            }
            if o.ext || o.pe {
                CUR = wp;
                (l.SetExternalEntityRefHandler)(p, ext as FnV);
            }
            let ok = process(wp as *mut W, p, f.map(|f| f.as_bytes()), stdin);
            (l.ParserFree)(p);
            ok
        };
        if o.out == b'm' && w.fp.is_some() {
            w.put(b"</document>\n");
        }
        dup |= w.dup;
        r.ents += w.ents;
        r.stdout.append(&mut w.out);
        r.stderr.append(&mut w.err);
        if let Some(b) = w.fp {
            if ok {
                r.files.insert(outname, b);
            } else {
                r.files.remove(&outname);
            }
        }
        if !ok {
            r.code = 2;
            break;
        }
    }
    (r, !dup)
}

pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new(env: &Env) -> Dir {
        let d = env.scratch.join(format!("wf-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("d")).unwrap();
        std::fs::create_dir_all(d.join("out")).unwrap();
        Dir(d)
    }
    pub fn write(&self, name: &str, b: &[u8]) {
        std::fs::write(self.0.join(name), b).unwrap();
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Runs the command in the directory.
pub fn command(env: &Env, d: &Dir, args: &[String], stdin: &[u8]) -> Result<Res, String> {
    command_fed(env, d, args, stdin, None)
}
/// The same; the standard input is a pipe that gets it in pieces when `cuts` are given.
pub fn command_fed(env: &Env, d: &Dir, args: &[String], stdin: &[u8], cuts: Option<&[usize]>) -> Result<Res, String> {
    use std::io::{Read, Write};
    use std::os::fd::AsRawFd;
    use std::process::{Command, Stdio};
    let bin = env.root.join("build/bins/xmlwf");
    std::fs::write(d.0.join(".in"), stdin).unwrap();
    let f = |n: &str| std::fs::File::create(d.0.join(n)).unwrap();
    let mut c = Command::new(&bin);
    let input = if cuts.is_some() { Stdio::piped() } else { Stdio::from(std::fs::File::open(d.0.join(".in")).unwrap()) };
    c.args(args).current_dir(&d.0).env_clear().stdin(input).stdout(Stdio::from(f(".out"))).stderr(Stdio::from(f(".err")));
    let mut child = c.spawn().map_err(|e| format!("cannot run {:?}: {}", bin, e))?;
    let t0 = std::time::Instant::now();
    if let (Some(cuts), Some(mut pipe)) = (cuts, child.stdin.take()) {
        extern "C" {
            fn ioctl(fd: i32, r: u64, n: *mut i32) -> i32;
        }
        let mut at = 0;
        'w: for e in cuts.iter().copied().chain([stdin.len()]) {
            if e <= at || e > stdin.len() {
                continue;
            }
            if pipe.write_all(&stdin[at..e]).is_err() {
                break;
            }
            at = e;
            // until it has been taken
            let mut n = 0;
            loop {
                let mut k = 0;
                if unsafe { ioctl(pipe.as_raw_fd(), 0x541b, &mut k) } != 0 || k == 0 {
                    break;
                }
                n += 1;
                if n % 64 == 0 && (child.try_wait().unwrap().is_some() || t0.elapsed().as_secs() > 60) {
                    break 'w;
                }
                if n > 20 {
                    std::thread::sleep(std::time::Duration::from_micros(50));
                } else {
                    std::thread::yield_now();
                }
            }
        }
    }
    let mut n = 0;
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        n += 1;
        if n > 20 {
            std::thread::sleep(std::time::Duration::from_micros(if n > 1000 { 5000 } else { 100 }));
        } else {
            std::thread::yield_now();
        }
        if t0.elapsed().as_secs() > 60 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("xmlwf did not end within a minute".to_string());
        }
    };
    let get = |n: &str| {
        let mut v = vec![];
        std::fs::File::open(d.0.join(n)).unwrap().read_to_end(&mut v).unwrap();
        v
    };
    let mut r = Res { stdout: get(".out"), stderr: get(".err"), ..Res::default() };
    r.code = match st.code() {
        Some(c) => c,
        None => {
            use std::os::unix::process::ExitStatusExt;
            return Err(format!("xmlwf was killed by signal {}: {}", st.signal().unwrap_or(0), show(&r.stderr[..r.stderr.len().min(300)])));
        }
    };
    for e in std::fs::read_dir(d.0.join("out")).unwrap() {
        let e = e.unwrap();
        r.files.insert(e.file_name().to_string_lossy().into_owned(), get(&format!("out/{}", e.file_name().to_string_lossy())));
    }
    Ok(r)
}
/// The arguments for these options, in some order and grouping.
pub fn arguments(t: &mut Tape, o: &Opt) -> Vec<String> {
    let mut v: Vec<(String, Option<String>)> = vec![];
    for (b, c) in [(o.stream, "r"), (o.sa, "s"), (o.ns, "n"), (o.pe, "p"), (o.ext, "x"), (o.cp, "w"), (o.notations, "N"), (o.out == b'c', "c"), (o.out == b'm', "m"), (o.out == b't', "t")] {
        if b {
            v.push((c.to_string(), None));
        }
    }
    if let Some(d) = &o.dir {
        v.push(("d".to_string(), Some(d.clone())));
    }
    if let Some(d) = &o.enc {
        v.push(("e".to_string(), Some(d.clone())));
    }
    for i in (1..v.len()).rev() {
        let j = t.below(i + 1);
        v.swap(i, j);
    }
    // -c turns namespaces off when it comes after -n
    if o.out == b'c' && o.ns {
        v.retain(|x| x.0 != "n");
        v.insert(0, ("n".to_string(), None));
    }
    let mut a: Vec<String> = vec![];
    let mut open = false;
    for (c, x) in v {
        if open && t.chance(1, 2) {
            a.last_mut().unwrap().push_str(&c);
        } else {
            a.push(format!("-{}", c));
        }
        open = x.is_none();
        if let Some(x) = x {
            if x.is_empty() || t.chance(1, 2) {
                a.push(x);
            } else {
                a.last_mut().unwrap().push_str(&x);
            }
        }
    }
    a
}
pub fn diff(a: &Res, b: &Res) -> Option<String> {
    let cut = |x: &B, y: &B| {
        let i = x.iter().zip(y).take_while(|p| p.0 == p.1).count();
        let s = |v: &B| show(&v[i.saturating_sub(60).min(v.len())..(i + 120).min(v.len())]);
        format!("at byte {}: xmlwf: ..{}.. | expected: ..{}..", i, s(x), s(y))
    };
    if a.stdout != b.stdout {
        return Some(format!("output {}", cut(&a.stdout, &b.stdout)));
    }
    if a.stderr != b.stderr {
        return Some(format!("error output {}", cut(&a.stderr, &b.stderr)));
    }
    if a.code != b.code {
        return Some(format!("exit status {}, expected {}", a.code, b.code));
    }
    let (k, m): (Vec<_>, Vec<_>) = (a.files.keys().collect(), b.files.keys().collect());
    if k != m {
        return Some(format!("output files {:?}, expected {:?}", k, m));
    }
    for (n, x) in &a.files {
        if x != &b.files[n] {
            return Some(format!("file {} {}", n, cut(x, &b.files[n])));
        }
    }
    None
}
