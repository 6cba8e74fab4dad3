//! Campaigns: worker processes, coverage feedback, crash attribution, shrinking, evidence.
use crate::drive;
use crate::ffi::*;
use crate::tape::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::raw::{c_int, c_void};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

pub struct Env {
    /// the code under test, UTF-8 XML_Char
    pub rx: Option<Lib>,
    /// the reference
    pub rf: Option<Lib>,
    /// with Libs::Wide (where the above are the UTF-16 builds): the UTF-8 build
    pub rxn: Option<Lib>,
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub describe: bool,
    pub thorough: bool,
    /// the known findings: (property, key)
    pub known: Vec<(String, String)>,
}
pub fn read_known(root: &Path) -> Vec<(String, String)> {
    let f = fs::read_to_string(root.join("KNOWN_FINDINGS")).unwrap_or_default();
    f.lines()
        .filter(|l| l.starts_with("known:"))
        .map(|l| {
            let get = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            (get("property="), get("key="))
        })
        .collect()
}
impl Env {
    pub fn rx(&self) -> &Lib {
        self.rx.as_ref().unwrap()
    }
    pub fn rf(&self) -> &Lib {
        self.rf.as_ref().unwrap()
    }
}

pub struct Out {
    pub fail: Option<String>,
    pub discard: bool,
    pub nontrivial: bool,
    pub hash: u64,
    pub labels: Vec<&'static str>,
    pub desc: String,
    /// key of a known finding this case runs into (counted, not failed)
    pub known: Option<&'static str>,
}
impl Out {
    pub fn new() -> Out {
        Out { fail: None, discard: false, nontrivial: false, hash: 0, labels: vec![], desc: String::new(), known: None }
    }
    pub fn fail(mut self, s: String) -> Out {
        if self.fail.is_none() {
            self.fail = Some(s);
        }
        self
    }
    /// A failure that may be one of the known findings.
    pub fn finding(mut self, env: &Env, id: &str, key: &'static str, s: String) -> Out {
        if env.known.iter().any(|x| x.0 == id && x.1 == key) {
            self.known = Some(key);
            return self;
        }
        self.fail(s)
    }
}

pub enum Kind {
    /// random tapes of up to this many words; (quick, thorough) case counts
    Random { words: usize, quick: usize, thorough: usize },
    /// cases 0..n; (quick, thorough)
    All { quick: usize, thorough: usize },
    /// every nth of `of` cases, from one that depends on the seed
    Each { of: usize, quick: usize, thorough: usize },
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(&Env, &mut Tape) -> Out,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub libs: Libs,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Libs {
    /// instrumented UTF-8 build with the coverage/allocator shim
    Std,
    /// address-sanitized build
    Asan,
    /// UTF-16 build plus the standard one
    Wide,
    /// xmlwf and example programs (plus Std)
    Bins,
}

const SHARDS: usize = 8;
const MAXW: usize = 1 << 16;
const SHM: usize = 64 + MAXW * 2;

fn map_state(path: &Path) -> *mut u8 {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("state file");
    f.set_len(SHM as u64).unwrap();
    use std::os::fd::AsRawFd;
    unsafe {
        let p = mmap(std::ptr::null_mut(), SHM, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        p as *mut u8
    }
}
unsafe fn put_state(p: *mut u8, sub: usize, tape: &[u16]) {
    let n = tape.len().min(MAXW);
    *(p.add(8) as *mut u32) = sub as u32;
    *(p.add(12) as *mut u32) = n as u32;
    std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(64) as *mut u16, n);
}
unsafe fn get_state(p: *const u8) -> (u8, usize, Vec<u16>) {
    let n = (*(p.add(12) as *const u32) as usize).min(MAXW);
    let mut v = vec![0u16; n];
    std::ptr::copy_nonoverlapping(p.add(64) as *const u16, v.as_mut_ptr(), n);
    (*p, *(p.add(8) as *const u32) as usize, v)
}

// ---- allocation accounting and failures, provided by the preloaded shim ----
pub struct Shim {
    reset: unsafe extern "C" fn(c_int),
    off: unsafe extern "C" fn(),
    fail: unsafe extern "C" fn(i64, i64),
    count: unsafe extern "C" fn() -> i64,
    refused: unsafe extern "C" fn() -> i64,
    live: unsafe extern "C" fn() -> i64,
    live_bytes: unsafe extern "C" fn() -> i64,
    peak: unsafe extern "C" fn() -> i64,
    maxreq: unsafe extern "C" fn() -> i64,
    overflow: unsafe extern "C" fn() -> c_int,
}
impl Shim {
    pub fn get() -> Shim {
        unsafe {
            let f = |n: &str| {
                let p = sym(n);
                assert!(!p.is_null(), "the allocation shim is not loaded");
                p
            };
            use std::mem::transmute as x;
            Shim {
                reset: x(f("shim_reset")),
                off: x(f("shim_track_off")),
                fail: x(f("shim_fail")),
                count: x(f("shim_count")),
                refused: x(f("shim_refused")),
                live: x(f("shim_live")),
                live_bytes: x(f("shim_live_bytes")),
                peak: x(f("shim_peak")),
                maxreq: x(f("shim_maxreq")),
                overflow: x(f("shim_overflow")),
            }
        }
    }
    /// Starts counting; with `track`, blocks are accounted for.
    pub fn reset(&self, track: bool) {
        unsafe { (self.reset)(track as c_int) }
    }
    pub fn off(&self) {
        unsafe { (self.off)() }
    }
    /// Refuses request number `n` (from 1), and with `all` every later one.
    pub fn fail(&self, n: usize, all: bool) {
        unsafe { (self.fail)(n as i64, all as i64) }
    }
    pub fn count(&self) -> usize {
        unsafe { (self.count)() as usize }
    }
    pub fn refused(&self) -> usize {
        unsafe { (self.refused)() as usize }
    }
    pub fn live(&self) -> (i64, i64) {
        unsafe {
            if (self.overflow)() != 0 {
                return (0, 0);
            }
            ((self.live)(), (self.live_bytes)())
        }
    }
    pub fn peak(&self) -> i64 {
        unsafe { (self.peak)() }
    }
    pub fn maxreq(&self) -> i64 {
        unsafe { (self.maxreq)() }
    }
}

// ---- coverage counters, provided by the preloaded shim ----
struct Cov {
    regions: Vec<(*mut u8, usize)>,
    seen: Vec<u8>,
}
impl Cov {
    fn get() -> Cov {
        let mut regions = vec![];
        unsafe {
            let n = sym("shim_cov_count");
            let g = sym("shim_cov_region");
            if !n.is_null() && !g.is_null() {
                let n: unsafe extern "C" fn() -> c_int = std::mem::transmute(n);
                let g: unsafe extern "C" fn(c_int, *mut *mut u8, *mut usize) = std::mem::transmute(g);
                for i in 0..n() {
                    let (mut p, mut l) = (std::ptr::null_mut(), 0);
                    g(i, &mut p, &mut l);
                    regions.push((p, l));
                }
            }
        }
        let total = regions.iter().map(|r| r.1).sum();
        Cov { regions, seen: vec![0; total] }
    }
    fn clear(&self) {
        for &(p, l) in &self.regions {
            unsafe { std::ptr::write_bytes(p, 0, l) };
        }
    }
    /// number of new (edge, bucket) pairs
    fn collect(&mut self) -> usize {
        let mut new = 0;
        let mut off = 0;
        for &(p, l) in &self.regions {
            let s = unsafe { std::slice::from_raw_parts(p, l) };
            let mut i = 0;
            while i < l {
                if i + 8 <= l && unsafe { (p.add(i) as *const u64).read_unaligned() } == 0 {
                    i += 8;
                    continue;
                }
                let c = s[i];
                if c != 0 {
                    let b = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.seen[off + i] & b == 0 {
                        self.seen[off + i] |= b;
                        new += 1;
                    }
                }
                i += 1;
            }
            off += l;
        }
        new
    }
    fn edges(&self) -> usize {
        self.seen.iter().filter(|x| **x != 0).count()
    }
}
pub fn sym(n: &str) -> *mut c_void {
    let c = std::ffi::CString::new(n).unwrap();
    unsafe { dlsym(std::ptr::null_mut(), c.as_ptr()) }
}

fn watchdog(secs: i64) {
    // CPU time of this process; the default action of SIGVTALRM ends it
    let v = [0, 0, secs, 0];
    unsafe { setitimer(1, &v, std::ptr::null_mut()) };
}
const SIGVTALRM: i32 = 26;
const CASE_CPU: i64 = 25;

fn fresh(rng: &mut Rng, words: usize) -> Vec<u16> {
    // log-uniform lengths
    let mut n = words;
    while n > 16 && rng.below(2) == 0 {
        n /= 2;
    }
    let n = n / 2 + rng.below(n / 2 + 1);
    (0..n).map(|_| rng.next() as u16).collect()
}
fn mutate(rng: &mut Rng, corpus: &[Vec<u16>], words: usize) -> Vec<u16> {
    let mut t = corpus[rng.below(corpus.len())].clone();
    let k = 1 + rng.below(4);
    for _ in 0..k {
        let n = t.len();
        if n == 0 {
            t.push(rng.next() as u16);
            continue;
        }
        match rng.below(9) {
            0 | 1 | 2 => {
                let i = rng.below(n);
                t[i] = rng.next() as u16;
            }
            3 => {
                let i = rng.below(n);
                t[i] = [0u16, 1, 2, 7, 255, 256, 0x7fff, 0xffff][rng.below(8)];
            }
            4 => {
                let i = rng.below(n);
                t[i] = t[i].wrapping_add([1u16, 0xffff, 16, 256][rng.below(4)]);
            }
            5 => {
                let i = rng.below(n);
                let l = 1 + rng.below(8.min(n - i));
                t.drain(i..i + l);
            }
            6 => {
                let i = rng.below(n + 1);
                let l = 1 + rng.below(8);
                for _ in 0..l {
                    t.insert(i, rng.next() as u16);
                }
            }
            7 => {
                let i = rng.below(n);
                let l = 1 + rng.below(32.min(n - i));
                let blk: Vec<u16> = t[i..i + l].to_vec();
                let j = rng.below(n + 1);
                t.splice(j..j, blk);
            }
            _ => {
                let o = &corpus[rng.below(corpus.len())];
                if !o.is_empty() {
                    let i = rng.below(n);
                    let j = rng.below(o.len());
                    t.truncate(i);
                    t.extend_from_slice(&o[j..]);
                }
            }
        }
    }
    t.truncate(words * 2);
    t
}

pub fn build_dir(root: &Path) -> PathBuf {
    root.join("build")
}

pub fn make_env(root: &Path, libs: Libs, thorough: bool, scratch: PathBuf) -> Env {
    let b = build_dir(root);
    let lib = |p: &Path, wide, role| -> Option<Lib> {
        match Lib::load(p.to_str().unwrap(), wide, role) {
            Ok(l) => Some(l),
            Err(e) => {
                eprintln!("harness: cannot load {}: {}", p.display(), e);
                std::process::exit(2);
            }
        }
    };
    let sys = Path::new("/usr/lib/x86_64-linux-gnu");
    let dir = match libs {
        Libs::Asan => "lib-asan",
        _ => "lib-std",
    };
    let (rx, rf, rxn);
    if libs == Libs::Wide {
        rx = lib(&b.join("lib-wide").join("librexpat.so"), true, 0);
        rf = lib(&sys.join("libexpatw.so.1"), true, 1);
        rxn = lib(&b.join(dir).join("librexpat.so"), false, 0);
    } else {
        rx = lib(&b.join(dir).join("librexpat.so"), false, 0);
        rf = lib(&sys.join("libexpat.so.1"), false, 1);
        rxn = None;
    }
    Env { rx, rf, rxn, root: root.to_path_buf(), scratch, describe: false, thorough, known: read_known(root) }
}

fn stride(of: usize) -> usize {
    let gcd = |mut a: usize, mut b: usize| {
        while b != 0 {
            let r = a % b;
            a = b;
            b = r;
        }
        a
    };
    let mut p = (of as f64 * 0.618) as usize + 1;
    while gcd(p, of) != 1 {
        p += 1;
    }
    p
}
fn nums(kind: &Kind, thorough: bool) -> usize {
    match kind {
        Kind::Random { quick, thorough: t, .. } | Kind::All { quick, thorough: t } | Kind::Each { quick, thorough: t, .. } => {
            if thorough {
                *t
            } else if matches!(kind, Kind::Random { .. }) {
                // (a development aid: a small part of the cases)
                let div: usize = std::env::var("VDIV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                (*quick / div).max(1)
            } else {
                *quick
            }
        }
    }
}

/// Worker: runs its shard of every sub-check.
/// `from`: first sub-check; `again`: how often the reference implementation has crashed in this shard.
pub fn worker(prop: &Prop, root: &Path, dir: &Path, shard: usize, seed: u64, thorough: bool, only: Option<&str>, keep: bool, from: usize, again: u64) -> i32 {
    let st = map_state(&dir.join(format!("state.{}", shard)));
    drive::init_phase(st);
    let scratch = dir.join(format!("scratch.{}", shard));
    fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    unsafe {
        let g = sym("shim_gate");
        if !g.is_null() {
            drive::ALLOC_GATE = Some(std::mem::transmute(g));
        }
    }
    let mut env = make_env(root, prop.libs, thorough, scratch);
    let mut cov = Cov::get();
    let mut out = fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("out.{}", shard))).unwrap();
    let mut rc = 0;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for (si, sub) in prop.subs.iter().enumerate() {
        if only.map_or(false, |o| o != sub.name) || si < from {
            continue;
        }
        let mut rng = Rng(seed ^ (again << 40) ^ fnv(prop.id.as_bytes()) ^ fnv(sub.name.as_bytes()).rotate_left(17) ^ ((shard as u64) << 48));
        rng.next();
        let n = nums(&sub.kind, thorough);
        let (lo, hi) = (n * shard / SHARDS, n * (shard + 1) / SHARDS);
        let mut corpus: Vec<Vec<u16>> = vec![];
        let mut evals = 0u64;
        let mut nontriv: HashSet<u64> = HashSet::new();
        let mut discards = 0u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples = vec![];
        let mut fails = 0;
        let t0 = Instant::now();
        for k in lo..hi {
            let tape = match &sub.kind {
                Kind::All { .. } => vec![(k >> 16) as u16, k as u16],
                Kind::Each { of, .. } => {
                    // a step prime to `of`: no case twice, and no digit of the index stays the same
                    let i = ((seed as usize).wrapping_mul(7919) % of + k.wrapping_mul(stride(*of))) % of;
                    vec![(i >> 16) as u16, i as u16]
                }
                Kind::Random { words, .. } => {
                    if corpus.is_empty() || rng.below(2) == 0 {
                        fresh(&mut rng, *words)
                    } else {
                        mutate(&mut rng, &corpus, *words)
                    }
                }
            };
            unsafe { put_state(st, si, &tape) };
            watchdog(CASE_CPU);
            cov.clear();
            let o = (sub.f)(&env, &mut Tape::new(&tape));
            drive::set_phase(0);
            evals += 1;
            let new = cov.collect();
            if let Some(kn) = o.known {
                *known.entry(kn.to_string()).or_default() += 1;
            }
            if let Some(m) = o.fail {
                let f = dir.join(format!("fail.{}.{}", shard, fails));
                write_fail(&f, si, &tape, &m);
                rc = 10;
                fails += 1;
                if !keep || fails >= 40 {
                    break;
                }
                continue;
            }
            if o.discard {
                discards += 1;
                continue;
            }
            for l in o.labels {
                *labels.entry(l).or_default() += 1;
            }
            if o.nontrivial {
                let fresh_case = nontriv.insert(o.hash);
                let span = (hi - lo).max(1);
                if fresh_case && samples.len() < 2 && (shard == 0 || shard == 4) && (k - lo) * 3 >= span * (samples.len() + 1) / 2 {
                    env.describe = true;
                    let o = (sub.f)(&env, &mut Tape::new(&tape));
                    drive::set_phase(0);
                    env.describe = false;
                    samples.push(o.desc.chars().take(1500).collect::<String>());
                }
            }
            if new > 0 {
                if let Kind::Random { .. } = sub.kind {
                    corpus.push(tape);
                }
            }
        }
        watchdog(0);
        let mut hf = fs::File::create(dir.join(format!("hash.{}.{}", si, shard))).unwrap();
        for h in &nontriv {
            hf.write_all(&h.to_le_bytes()).unwrap();
        }
        writeln!(
            out,
            "sub {} evals {} discards {} corpus {} edges {} secs {:.2}",
            si,
            evals,
            discards,
            corpus.len(),
            cov.edges(),
            t0.elapsed().as_secs_f64()
        )
        .unwrap();
        for (l, c) in labels {
            writeln!(out, "label {} {} {}", si, c, l).unwrap();
        }
        for s in samples {
            writeln!(out, "sample {} {}", si, s.replace('\n', "\\n")).unwrap();
        }
        if rc != 0 && !keep {
            break;
        }
    }
    for (k, c) in known {
        writeln!(out, "known {} {}", c, k).unwrap();
    }
    writeln!(out, "done").unwrap();
    rc
}

fn write_fail(f: &Path, si: usize, tape: &[u16], msg: &str) {
    let mut s = format!("{}\n", si);
    for w in tape {
        s.push_str(&format!("{:04x}", w));
    }
    s.push('\n');
    s.push_str(msg);
    fs::write(f, s).unwrap();
}
fn read_fail(f: &Path) -> Option<(usize, Vec<u16>, String)> {
    let s = fs::read_to_string(f).ok()?;
    let mut it = s.splitn(3, '\n');
    let si = it.next()?.parse().ok()?;
    let tape = hex_tape(it.next()?);
    Some((si, tape, it.next().unwrap_or("").to_string()))
}
pub fn hex_tape(s: &str) -> Vec<u16> {
    s.as_bytes().chunks(4).filter_map(|c| u16::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
pub fn tape_hex(t: &[u16]) -> String {
    t.iter().map(|w| format!("{:04x}", w)).collect()
}

/// Result of one isolated execution.
#[derive(Debug, Clone)]
pub enum Iso {
    Pass,
    Fail(String),
    /// signal, phase
    Crash(i32, u8),
    /// phase
    Timeout(u8),
}

/// Runs one case in a forked child.
pub fn isolated(env: &Env, sub: &Sub, tape: &[u16], msgfile: &Path, cpu: i64) -> Iso {
    let _ = fs::remove_file(msgfile);
    let shm = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u8 };
    unsafe {
        *shm = 0;
        let pid = fork();
        if pid == 0 {
            drive::init_phase(shm);
            watchdog(cpu);
            let o = (sub.f)(env, &mut Tape::new(tape));
            drive::set_phase(0);
            if let Some(m) = o.fail {
                let _ = fs::write(msgfile, m);
                _exit(10);
            }
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let ph = *shm;
        munmap(shm as *mut c_void, 4096);
        let sig = st & 0x7f;
        if sig != 0 {
            if sig == SIGVTALRM {
                return Iso::Timeout(ph);
            }
            return Iso::Crash(sig, ph);
        }
        match (st >> 8) & 0xff {
            0 => Iso::Pass,
            10 => Iso::Fail(fs::read_to_string(msgfile).unwrap_or_default()),
            // sanitizer exit code
            77 => Iso::Crash(77, ph),
            x => Iso::Crash(1000 + x, ph),
        }
    }
}
/// Was it the code under test that crashed, or a handler that reads what it was given (phase 3)?
fn mine(sig: i32, ph: u8) -> bool {
    ph == 1 || ph == 3 && [7, 11, 77].contains(&sig)
}
fn bad(i: &Iso) -> bool {
    match i {
        Iso::Fail(_) => true,
        Iso::Crash(s, ph) if mine(*s, *ph) => true,
        Iso::Crash(_, ph) | Iso::Timeout(ph) => *ph == 1 || std::env::var_os("HARNESS_REF").is_some(),
        _ => false,
    }
}

/// `harness shrink`: minimises the failing tape; writes `result` (same format as a fail file).
pub fn shrink(prop: &Prop, root: &Path, dir: &Path, failfile: &Path, thorough: bool) -> i32 {
    let (si, mut tape, _) = read_fail(failfile).expect("fail file");
    let scratch = dir.join("scratch.shrink");
    fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    unsafe {
        let g = sym("shim_gate");
        if !g.is_null() {
            drive::ALLOC_GATE = Some(std::mem::transmute(g));
        }
    }
    let mut env = make_env(root, prop.libs, thorough, scratch);
    let sub = &prop.subs[si];
    let msg = dir.join("shrink.msg");
    let mut first = isolated(&env, sub, &tape, &msg, CASE_CPU);
    for _ in 0..8 {
        if bad(&first) {
            break;
        }
        first = isolated(&env, sub, &tape, &msg, CASE_CPU);
    }
    if !bad(&first) {
        // not reproducible in isolation
        fs::write(dir.join("result"), format!("{}\n{}\nUNREPRODUCED {:?}", si, tape_hex(&tape), first)).unwrap();
        return 3;
    }
    let is_crash = |i: &Iso| match i {
        Iso::Crash(..) => 1,
        Iso::Timeout(..) => 2,
        _ => 0,
    };
    let want_crash = is_crash(&first);
    let mut budget = 1500i32;
    let t0 = Instant::now();
    let mut best = first.clone();
    let mut try_ = |t: &[u16], tape: &mut Vec<u16>, best: &mut Iso| -> bool {
        if budget <= 0 || t0.elapsed().as_secs() > 60 {
            return false;
        }
        budget -= 1;
        let r = isolated(&env, sub, t, &msg, 10);
        if bad(&r) && is_crash(&r) == want_crash {
            *tape = t.to_vec();
            *best = r;
            return true;
        }
        false
    };
    if let Kind::Random { .. } = sub.kind {
        loop {
            let before = tape.clone();
            // drop trailing, then blocks
            let mut size = tape.len() / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= tape.len() {
                    let mut t = tape.clone();
                    t.drain(i..i + size);
                    if !try_(&t, &mut tape, &mut best) {
                        i += size;
                    }
                }
                size /= 2;
            }
            // lower single words
            for i in 0..tape.len() {
                if i >= tape.len() || tape[i] == 0 {
                    continue;
                }
                let v = tape[i];
                for c in [0u16, v / 2, v & 0xff, v - 1] {
                    if c < tape[i] {
                        let mut t = tape.clone();
                        t[i] = c;
                        if try_(&t, &mut tape, &mut best) {
                            break;
                        }
                    }
                }
            }
            if tape == before {
                break;
            }
        }
    }
    let m = match &best {
        Iso::Fail(m) => m.clone(),
        Iso::Crash(s, _) => format!("CRASH in the code under test: {}", signame(*s)),
        Iso::Timeout(_) => "HANG: a call into the code under test did not return within its CPU limit".to_string(),
        _ => String::new(),
    };
    // description, from a forked child as well
    env.describe = true;
    let dfile = dir.join("shrink.desc");
    let _ = fs::remove_file(&dfile);
    unsafe {
        let pid = fork();
        if pid == 0 {
            std::env::set_var("HARNESS_DESC", &dfile);
            watchdog(20);
            let o = (sub.f)(&env, &mut Tape::new(&tape));
            drive::set_phase(0);
            let _ = fs::write(&dfile, o.desc);
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
    }
    let d = fs::read_to_string(&dfile).unwrap_or_default();
    fs::write(dir.join("result"), format!("{}\n{}\n{}\n---\n{}", si, tape_hex(&tape), m, d)).unwrap();
    0
}
/// `harness shrinktape ROOT ID SUB FILE`: development aid; minimises a tape given in hex.
pub fn shrinktape(prop: &Prop, root: &Path, sub: &str, file: &Path) -> i32 {
    let si = prop.subs.iter().position(|s| s.name == sub).expect("sub");
    let dir = build_dir(root).join("run").join(format!("shrinktape-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let tape = hex_tape(fs::read_to_string(file).unwrap().trim());
    let ff = dir.join("tofix");
    write_fail(&ff, si, &tape, "");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("shrink").arg(prop.id).arg(root).arg(&dir).arg(&ff).arg("quick");
    spawn_env(&mut c, root, prop.libs);
    c.status().unwrap();
    println!("{}", fs::read_to_string(dir.join("result")).unwrap_or_default());
    let _ = fs::remove_dir_all(&dir);
    0
}

/// Called by sub-checks before anything that may crash, so that the description survives.
pub fn predesc(env: &Env, d: &str) {
    if env.describe {
        if let Ok(f) = std::env::var("HARNESS_DESC") {
            let _ = fs::write(f, d);
        }
    }
}

fn signame(s: i32) -> String {
    match s {
        6 => "SIGABRT (panic or abort)".into(),
        11 => "SIGSEGV".into(),
        7 => "SIGBUS".into(),
        4 => "SIGILL".into(),
        8 => "SIGFPE".into(),
        77 => "sanitizer report".into(),
        x if x >= 1000 => format!("unexpected exit status {}", x - 1000),
        x => format!("signal {}", x),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn spawn_env(cmd: &mut Command, root: &Path, libs: Libs) {
    let b = build_dir(root);
    match libs {
        Libs::Asan => {
            cmd.env("LD_PRELOAD", format!("{} {}", b.join("libcov.so").display(), fs::read_to_string(b.join("asan-runtime.path")).unwrap_or_default().trim()));
            cmd.env("ASAN_OPTIONS", "verify_asan_link_order=0:detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:symbolize=0:detect_odr_violation=0");
        }
        _ => {
            cmd.env("LD_PRELOAD", b.join("libshim.so"));
        }
    }
    cmd.env("RUST_BACKTRACE", "0");
}

pub fn check(prop: &Prop, root: &Path, seed: u64, thorough: bool, only: Option<&str>, keep: bool) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = build_dir(root).join("run").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let start = |sh: usize, from: usize, again: u64| {
        let mut c = Command::new(&exe);
        c.arg("worker").arg(prop.id).arg(root).arg(&dir).arg(sh.to_string()).arg(seed.to_string()).arg(tier);
        if let Some(o) = only {
            c.arg("--only").arg(o);
        }
        if keep {
            c.arg("--keep");
        }
        c.arg("--from").arg(from.to_string()).arg("--again").arg(again.to_string());
        c.stdin(Stdio::null());
        c.stdout(fs::File::create(dir.join(format!("stdout.{}", sh))).unwrap());
        c.stderr(fs::File::create(dir.join(format!("stderr.{}", sh))).unwrap());
        spawn_env(&mut c, root, prop.libs);
        c.spawn().expect("spawn worker")
    };
    let mut kids: Vec<_> = (0..SHARDS).map(|sh| start(sh, 0, 0)).collect();
    let mut again = vec![0u64; SHARDS];
    let mut fails: Vec<(usize, Vec<u16>, String)> = vec![];
    let mut errors = vec![];
    use std::os::unix::process::ExitStatusExt;
    for (sh, k) in kids.iter_mut().enumerate() {
        let mut st = k.wait().unwrap();
        // the reference implementation itself can crash: that case is given up, and the sub-check it
        // was met in starts over with other random numbers
        while st.signal().map_or(false, |s| [6, 7, 8, 11].contains(&s)) && again[sh] < 12 {
            let (ph, si, tape) = unsafe { get_state(map_state(&dir.join(format!("state.{}", sh)))) };
            if ph != 2 {
                break;
            }
            again[sh] += 1;
            let _ = fs::write(build_dir(root).join(format!("refcrash-{}-{}.txt", prop.id, prop.subs[si].name)), tape_hex(&tape));
            *k = start(sh, si, again[sh]);
            st = k.wait().unwrap();
        }
        let err = fs::read_to_string(dir.join(format!("stderr.{}", sh))).unwrap_or_default();
        let (ph, si, tape) = unsafe { get_state(map_state(&dir.join(format!("state.{}", sh)))) };
        let tail: String = if let Some(i) = err.find("ERROR: AddressSanitizer") {
            err[i..].lines().take(14).map(|l| l.split(" (").next().unwrap()).collect::<Vec<_>>().join(" / ")
        } else { err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ") };
        match (st.code(), st.signal()) {
            (Some(0), _) | (Some(10), _) => {}
            (Some(77), _) if mine(77, ph) => fails.push((si, tape, format!("sanitizer report: {}", tail))),
            (_, Some(SIGVTALRM)) if ph == 1 => fails.push((si, tape, format!("HANG: a call into the code under test used {} s of CPU", CASE_CPU))),
            (_, Some(SIGVTALRM)) => errors.push(format!(
                "watchdog: shard {} used {} s of CPU on one case of {} (phase {}): tape {}",
                sh,
                CASE_CPU,
                prop.subs[si].name,
                ph,
                tape_hex(&tape)
            )),
            (_, Some(9)) => errors.push(format!("shard {} was killed (memory?)", sh)),
            (_, Some(s)) if mine(s, ph) => fails.push((si, tape, format!("CRASH in the code under test: {}: {}", signame(s), tail))),
            (c, s) => errors.push(format!("worker {} ended with code {:?} signal {:?} in phase {} ({}): {} tape {}", sh, c, s, ph, prop.subs[si].name, tail, tape_hex(&tape))),
        }
        for i in 0..40 {
            match read_fail(&dir.join(format!("fail.{}.{}", sh, i))) {
                None => break,
                Some(f) => fails.push(f),
            }
        }
    }
    if keep {
        for (si, tape, m) in &fails {
            println!("FAIL {} {} :: {}", prop.subs[*si].name, m, tape.iter().map(|w| format!("{:04x}", w)).collect::<String>());
        }
    }
    // summaries
    let mut evals = 0u64;
    let mut discards = 0u64;
    let mut per: Vec<[u64; 4]> = vec![[0; 4]; prop.subs.len()];
    let mut labels: BTreeMap<(usize, String), u64> = BTreeMap::new();
    let mut samples: Vec<(usize, String)> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for sh in 0..SHARDS {
        for l in fs::read_to_string(dir.join(format!("out.{}", sh))).unwrap_or_default().lines() {
            let f: Vec<&str> = l.splitn(4, ' ').collect();
            match f[0] {
                "sub" => {
                    let f: Vec<&str> = l.split(' ').collect();
                    let si: usize = f[1].parse().unwrap();
                    let e: u64 = f[3].parse().unwrap();
                    let d: u64 = f[5].parse().unwrap();
                    evals += e;
                    discards += d;
                    per[si][0] += e;
                    per[si][1] += d;
                    per[si][2] = per[si][2].max(f[9].parse().unwrap());
                    per[si][3] += (f[11].parse::<f64>().unwrap() * 1000.0) as u64;
                }
                "label" => *labels.entry((f[1].parse().unwrap(), f[3].to_string())).or_default() += f[2].parse::<u64>().unwrap(),
                "sample" => samples.push((f[1].parse().unwrap(), l.splitn(3, ' ').nth(2).unwrap_or("").to_string())),
                "known" => *known.entry(l.splitn(3, ' ').nth(2).unwrap().to_string()).or_default() += f[1].parse::<u64>().unwrap(),
                _ => {}
            }
        }
    }
    let mut distinct = 0usize;
    let mut persub = vec![];
    for (si, s) in prop.subs.iter().enumerate() {
        let mut h: HashSet<[u8; 8]> = HashSet::new();
        for sh in 0..SHARDS {
            if let Ok(b) = fs::read(dir.join(format!("hash.{}.{}", si, sh))) {
                for c in b.chunks_exact(8) {
                    h.insert(c.try_into().unwrap());
                }
            }
        }
        distinct += h.len();
        let labs: Vec<String> =
            labels.iter().filter(|((i, _), _)| *i == si).map(|((_, l), c)| format!("{}: {}", jstr(l), c)).collect();
        persub.push(format!(
            "{{\"name\": {}, \"evaluations\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"edges_of_code_under_test_reached\": {}, \"cpu_ms\": {}, \"exhaustive\": {}, \"classes\": {{{}}}}}",
            jstr(s.name), per[si][0], per[si][1], h.len(), per[si][2], per[si][3], matches!(s.kind, Kind::All{..}), labs.join(", ")
        ));
    }
    let mut rc = 0;
    let mut vio = 0;
    if !fails.is_empty() && !keep {
        fails.sort_by_key(|f| (f.0, f.1.len()));
        // shrink the smallest
        let mut done = false;
        for (si, tape, m) in fails.iter().take(3) {
            let ff = dir.join("tofix");
            write_fail(&ff, *si, tape, m);
            let mut c = Command::new(&exe);
            c.arg("shrink").arg(prop.id).arg(root).arg(&dir).arg(&ff).arg(tier);
            c.stdin(Stdio::null()).stdout(Stdio::null());
            c.stderr(fs::File::create(dir.join("stderr.shrink")).unwrap());
            spawn_env(&mut c, root, prop.libs);
            let st = c.status().unwrap();
            let res = fs::read_to_string(dir.join("result")).unwrap_or_default();
            let mut it = res.splitn(3, '\n');
            let _ = it.next();
            let (t2, m2) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
            let (t2, m2) = if st.code() != Some(0) {
                // depends on what ran before it in the same process, or on hash keys: report it as it is
                (tape_hex(tape), format!("{} (met in a run of many cases; does not reproduce alone: {})", m, m2))
            } else {
                (t2, m2)
            };
            let rdir = build_dir(root).join("replays");
            fs::create_dir_all(&rdir).unwrap();
            let rp = rdir.join(format!("{}-{}-{:08x}.replay", prop.id, prop.subs[*si].name, fnv(t2.as_bytes()) as u32));
            fs::write(&rp, format!("{}\n{}\n{}\n{}\n--- original message\n{}\n", prop.id, prop.subs[*si].name, t2, m2, m)).unwrap();
            println!("counterexample ({}):", prop.subs[*si].name);
            for l in m2.lines().take(60) {
                println!("  {}", l);
            }
            if m2.starts_with("CRASH") {
                println!("  {}", m);
            }
            println!("VIOLATION property={} replay={}", prop.id, rp.display());
            rc = 1;
            vio = 1;
            done = true;
            break;
        }
        if !done {
            rc = 2;
        }
    }
    if rc == 0 && !errors.is_empty() {
        rc = 2;
    }
    for e in &errors {
        eprintln!("ERROR {}", e.chars().take(400).collect::<String>());
    }
    if !errors.is_empty() {
        let _ = fs::write(build_dir(root).join(format!("errors-{}.txt", prop.id)), errors.join("\n"));
    }
    for (k, c) in &known {
        println!("KNOWN-FINDING: property={} {} (met {} times)", prop.id, k, c);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut sm: Vec<String> = vec![];
    let mut cnt = vec![0; prop.subs.len()];
    for (si, s) in &samples {
        if cnt[*si] < 2 {
            cnt[*si] += 1;
            let mut t = format!("{}: {}", prop.subs[*si].name, s);
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            sm.push(jstr(&t));
        }
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"restarts_after_a_crash_of_the_reference\": {},\n  \"rule\": {},\n  \"sub_checks\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(prop.id), jstr(tier), seed, evals, distinct, discards, again.iter().sum::<u64>(), jstr(prop.rule),
        persub.join(",\n   "), sm.join(",\n   "),
        prop.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        wall, vio
    );
    let _ = fs::create_dir_all(root.join("evidence"));
    fs::write(root.join("evidence").join(format!("{}.json", prop.id)), ev).unwrap();
    println!(
        "{} {} seed {}: {} cases ({} distinct non-trivial, {} discarded) in {:.1} s: {}",
        prop.id,
        tier,
        seed,
        evals,
        distinct,
        discards,
        wall,
        ["held", "VIOLATED", "error"][rc as usize]
    );
    if keep || std::env::var("HARNESS_VERBOSE").is_ok() {
        for p in persub.iter().filter(|p| !p.contains("\"evaluations\": 0,")) {
            println!("  {}", p);
        }
    }
    let _ = fs::remove_dir_all(&dir);
    rc
}

/// `harness replay FILE`
pub fn replay(props: &[Prop], root: &Path, file: &Path) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let l: Vec<&str> = s.lines().collect();
    let prop = props.iter().find(|p| p.id == l[0]).expect("property");
    if std::env::var("HARNESS_REPLAY").is_err() {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(exe);
        c.arg("replay").arg(root).arg(file).env("HARNESS_REPLAY", "1");
        spawn_env(&mut c, root, prop.libs);
        return c.status().unwrap().code().unwrap_or(2);
    }
    unsafe {
        let g = sym("shim_gate");
        if !g.is_null() {
            drive::ALLOC_GATE = Some(std::mem::transmute(g));
        }
    }
    let sub = prop.subs.iter().find(|x| x.name == l[1]).expect("sub");
    let tape = hex_tape(l[2]);
    let dir = build_dir(root).join("run").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut env = make_env(root, prop.libs, false, dir.clone());
    env.describe = true;
    let d = dir.join("desc");
    std::env::set_var("HARNESS_DESC", &d);
    let r = isolated(&env, sub, &tape, &dir.join("msg"), 60);
    println!("{}", fs::read_to_string(&d).unwrap_or_default());
    let rc = match &r {
        Iso::Pass => {
            println!("PASS");
            0
        }
        Iso::Fail(m) => {
            println!("FAIL {}", m);
            1
        }
        Iso::Crash(s, ph) => {
            println!("CRASH {} (phase {})", signame(*s), ph);
            if mine(*s, *ph) { 1 } else { 2 }
        }
        Iso::Timeout(ph) => {
            println!("TIMEOUT (phase {})", ph);
            if *ph == 1 { 1 } else { 2 }
        }
    };
    let _ = fs::remove_dir_all(&dir);
    rc
}
