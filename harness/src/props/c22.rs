//! xmlwf: what it says of files.
use super::common::*;
use super::wf::*;
use super::*;

pub const P: Prof = Prof { glitch: &[0, 0, 12, 40], encs: true, reference: true, ..PROF };
const ENCS: &[&str] = &["utf-8", "UTF-16", "iso-8859-1", "us-ascii", "UTF-16LE", "utf-16be", "windows-1252", "Windows-65001", "x", "WINDOWS-99999", "windows-", ""];

/// A document and its external entities, in some encoding.
pub fn doc(t: &mut Tape, p: &Prof) -> (B, Vec<(String, B)>, String) {
    if t.chance(1, 12) {
        // more than a block
        let g = super::c21::gen_big(t, 20_000, 300, 60_000);
        return (some_enc(t, &g.text, &mut g.cfg.clone()).1, vec![], g.text.chars().take(300).collect());
    }
    let c = gen_case(t, p);
    let e = c.doc.ents.iter().map(|e| (e.0.clone(), e.1.as_bytes().to_vec())).collect();
    let mut data = c.data;
    if c.enc != Enc::Utf8 && !data.starts_with(b"\xff\xfe") && !data.starts_with(b"\xfe\xff") && t.chance(3, 4) {
        let mut v = if c.enc == Enc::Utf16le { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] };
        v.append(&mut data);
        data = v;
    }
    if t.chance(1, 8) {
        // so that something lies on the border of two blocks
        let n = READ * t.range(1, 2);
        let k = t.below(200.min(data.len() + 1));
        let at = data.iter().position(|b| *b == b'<').unwrap_or(0);
        if c.enc == Enc::Utf8 && !data.starts_with(b"<?xml") && n > at + k {
            let pad = n - at - k;
            let ins: B = match t.below(3) {
                0 => vec![b'\n'; pad],
                1 => b"\r\n".iter().cycle().take(pad).copied().collect(),
                _ => vec![b' '; pad],
            };
            data.splice(at..at, ins);
        }
    }
    (data, e, c.doc.text)
}
pub fn options(t: &mut Tape) -> Opt {
    let b = t.u32();
    Opt {
        stream: b & 1 != 0,
        sa: b & 14 == 14,
        ns: b & 16 != 0,
        pe: b & 96 == 96,
        ext: b & 128 != 0,
        cp: b & 0x300 == 0x300,
        enc: if b & 0x1c00 == 0x1c00 { Some(ENCS[t.below(ENCS.len())].to_string()) } else { None },
        notations: b & 0x2000 != 0,
        out: 0,
        dir: None,
    }
}
/// Puts the files in place.
pub fn place(t: &mut Tape, d: &Dir, name: &str, data: &[u8], ents: &[(String, B)]) {
    let at = |n: &str| match name.rfind('/') {
        Some(i) => format!("{}{}", &name[..i + 1], n),
        None => n.to_string(),
    };
    d.write(name, data);
    for (s, b) in ents {
        let f = at(s);
        if s.is_empty() || s.contains('/') || d.0.join(&f).exists() {
            continue;
        }
        match t.below(16) {
            0 => {}
            1 => {
                let _ = std::fs::create_dir(d.0.join(&f));
            }
            _ => d.write(&f, b),
        }
    }
}
pub fn desc_run(args: &[String], files: &[(String, String)], stdin: &str) -> String {
    let mut s = format!("xmlwf {:?}", args);
    for f in files {
        s += &format!("\n-- {}: {}", f.0, show(f.1.as_bytes()));
    }
    if !stdin.is_empty() {
        s += &format!("\n-- standard input: {}", show(stdin.as_bytes()));
    }
    s
}

pub fn differs(data: &[u8], ents: &[(String, B)]) -> bool {
    let d = |t: &[u8]| pe_in_value(t) || ignored_brackets(t);
    d(data) || ents.iter().any(|e| d(&e.1))
}
fn of(env: &Env, t: &mut Tape, stdin: bool, out: bool) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let mut opt = options(t);
    if out {
        opt.dir = Some(["out", "out", "out", "no-such"][t.below(4)].to_string());
        opt.out = [0, 0, b'c', b'm', b't'][t.below(5)];
    }
    let p = Prof { ns: if opt.ns { 2 } else { 1 }, ..P };
    let mut names = vec![];
    let mut shown = vec![];
    let mut input = vec![];
    // (what the reference does differently: see diff_case)
    let mut own = false;
    if stdin {
        let (data, ents, text) = doc(t, &p);
        own |= differs(&data, &ents);
        place(t, &d, "unused", &data, &ents);
        input = data;
        shown.push(("STDIN".to_string(), text));
    } else {
        let n = [1, 1, 2, 3][t.below(4)];
        for i in 0..n {
            let abs = format!("{}/d/e.xml", d.0.display());
            let name = ["a.xml", "d/b.xml", "./c.xml", &abs, "n%s%n.xml", "d/sp ace", "d/é", "d/../x.xml", "-f.xml", "none", "d/none.xml", "d"][t.below(12)].to_string();
            let (data, ents, text) = doc(t, &p);
            own |= differs(&data, &ents);
            if names.contains(&name) {
                continue;
            }
            // (the ones after a malformed one are not looked at)
            let keep = i + 1 == n || !t.chance(1, 2);
            if !name.ends_with("none") && !name.ends_with("none.xml") && name != "d" {
                if keep {
                    place(t, &d, &name, &data, &ents);
                } else {
                    d.write(&name, b"<a/>");
                }
            }
            shown.push((name.clone(), text));
            names.push(name);
        }
    }
    let mut args = arguments(t, &opt);
    if names.first().map_or(false, |n| n.starts_with('-')) || !names.is_empty() && t.chance(1, 8) {
        args.push("--".to_string());
    }
    args.extend(names.iter().cloned());
    o.hash = fnv(format!("{:?}", args).as_bytes()) ^ fnv(&input) ^ shown.iter().fold(0, |a, x| fnv(x.1.as_bytes()).rotate_left(7) ^ a);
    if env.describe {
        o.desc = desc_run(&args, &shown, "");
        predesc(env, &o.desc);
    }
    let (want, sure) = model(if own { env.rx() } else { env.rf() }, &d.0, &opt, &names, &input);
    if !sure {
        o.discard = true;
        return o;
    }
    let cuts: Option<Vec<usize>> = if stdin && t.chance(1, 2) {
        let n = t.range(0, 4);
        let mut v: Vec<usize> = (0..n).map(|_| t.below(input.len() + 1)).collect();
        v.sort();
        o.labels.push("from a pipe");
        Some(v)
    } else {
        None
    };
    let got = match command_fed(env, &d, &args, &input, cuts.as_deref()) {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    o.nontrivial = input.len() > 10 || shown.iter().any(|x| x.1.len() > 10);
    if want.ents > 0 {
        o.labels.push("external entities");
    }
    o.labels.push(match want.code {
        0 => "well-formed",
        2 if !want.stdout.is_empty() => "not well-formed",
        _ => "cannot be read or written",
    });
    if want.stdout.iter().filter(|c| **c == b'\n').count() > 1 {
        o.labels.push("error within an entity");
    }
    let mut got = got;
    if opt.out != 0 || opt.dir.is_some() {
        // what is written is for C23
        got.files.values_mut().for_each(|v| v.clear());
    }
    let mut want = want;
    want.files.values_mut().for_each(|v| v.clear());
    match diff(&got, &want) {
        Some(d) => o.fail(d),
        None => o,
    }
}
fn files(env: &Env, t: &mut Tape) -> Out {
    of(env, t, false, false)
}
fn output(env: &Env, t: &mut Tape) -> Out {
    of(env, t, false, true)
}
fn stdin(env: &Env, t: &mut Tape) -> Out {
    let out = t.chance(1, 3);
    of(env, t, true, out)
}
/// A document in several files, in several directories, that refer to one another.
pub fn place_tree(t: &mut Tape, d: &Dir) -> (String, Vec<(String, String)>) {
    const DIRS: &[&str] = &["", "d/", "d/s/", "e/"];
    for x in ["d/s", "e"] {
        let _ = std::fs::create_dir_all(d.0.join(x));
    }
    let rel = |t: &mut Tape, from: &str, to: &str| -> String {
        if t.chance(1, 8) {
            return format!("{}/{}", d.0.display(), to);
        }
        if t.chance(1, 12) {
            return to.rsplit('/').next().unwrap().to_string();
        }
        let mut s = "../".repeat(from.matches('/').count()) + to;
        if let Some(r) = to.strip_prefix(&from[..from.rfind('/').map_or(0, |i| i + 1)]) {
            if t.chance(3, 4) {
                s = r.to_string();
            }
        }
        if t.chance(1, 8) {
            s.insert_str(0, "./");
        }
        s
    };
    let n = t.range(1, 4);
    let ents: Vec<String> = (0..n).map(|i| format!("{}e{}", DIRS[t.below(4)], i)).collect();
    let main = format!("{}main.xml", DIRS[t.below(4)]);
    let dtd = if t.chance(1, 2) { Some(format!("{}x.dtd", DIRS[t.below(4)])) } else { None };
    let mut shown = vec![];
    let mut inner = String::new();
    let mut outer = String::new();
    for i in 0..n {
        let out = dtd.is_some() && t.chance(1, 2);
        let at = if out { dtd.clone().unwrap() } else { main.clone() };
        let s = rel(t, &at, &ents[i]);
        let x = format!("<!ENTITY e{} SYSTEM '{}'{}>\n", i, s, if t.chance(1, 16) { " NDATA n" } else { "" });
        if out {
            outer += &x;
        } else {
            inner += &x;
        }
    }
    for i in 0..n {
        if t.chance(1, 8) {
            inner += &format!("<!ENTITY i{} 'v&e{};'>", i, i);
        }
    }
    if t.chance(1, 3) {
        // a parameter entity that declares the rest
        let f = format!("{}p", DIRS[t.below(4)]);
        let s = rel(t, &main, &f);
        let mut x = String::new();
        for i in 0..n {
            if t.chance(1, 2) {
                let r = rel(t, &f, &ents[i]);
                x += &format!("<!ENTITY f{} SYSTEM \"{}\">", i, r);
            }
        }
        if t.chance(1, 8) {
            x.push('<');
        }
        d.write(&f, x.as_bytes());
        shown.push((f, x));
        inner += &format!("<!ENTITY % p SYSTEM '{}'>%p;\n", s);
    }
    let body = |t: &mut Tape, from: usize| -> String {
        let mut s = String::new();
        for _ in 0..t.range(1, 4) {
            match t.below(7) {
                0 => s += "text\n",
                1 => s += "<a b='c'/>",
                2 => s += "<?pi d?>",
                3 if t.chance(1, 4) => s += ["</x>", "<y>", "&", "&zz;", "<!--", "]]>"][t.below(6)],
                4 if t.chance(1, 4) => s += "<![CDATA[ < ]]>",
                _ if from < n => s += &format!("&{}{};", ["e", "e", "e", "f", "i"][t.below(5)], t.range(from, n - 1)),
                _ => s += "é&amp;\r\n",
            }
        }
        s
    };
    for i in 0..n {
        let k = if t.chance(1, 12) { 0 } else { i + 1 };
        let mut x = body(t, k);
        if t.chance(1, 6) {
            x = format!("<?xml version='1.0' encoding='utf-8'?>{}", x);
        }
        match t.below(16) {
            0 => {}
            1 => {
                let _ = std::fs::create_dir(d.0.join(&ents[i]));
            }
            2 => d.write(&ents[i], b""),
            3 => {
                let mut v = vec![0xff, 0xfe];
                x.encode_utf16().for_each(|u| v.extend_from_slice(&u.to_le_bytes()));
                d.write(&ents[i], &v);
            }
            _ => d.write(&ents[i], x.as_bytes()),
        }
        shown.push((ents[i].clone(), x));
    }
    let mut text = "<!DOCTYPE r".to_string();
    if let Some(f) = &dtd {
        text += &format!(" SYSTEM '{}'", rel(t, &main, f));
        d.write(f, outer.as_bytes());
        shown.push((f.clone(), outer));
    }
    text += &format!(" [{}]>\n<r>{}{}</r>", inner, ["", "&e0;"][t.below(2)], body(t, 0));
    d.write(&main, text.as_bytes());
    shown.push((main.clone(), text));
    (main, shown)
}
fn tree(env: &Env, t: &mut Tape) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let mut opt = options(t);
    opt.ext |= t.chance(3, 4);
    opt.enc = None;
    let (name, shown) = place_tree(t, &d);
    let mut args = arguments(t, &opt);
    let stdin = t.chance(1, 8);
    let mut input = vec![];
    let mut names = vec![];
    if stdin {
        input = std::fs::read(d.0.join(&name)).unwrap();
    } else {
        let name = if t.chance(1, 6) { format!("{}/{}", d.0.display(), name) } else { name };
        args.push(name.clone());
        names.push(name);
    }
    o.hash = fnv(format!("{:?}", args).as_bytes()) ^ shown.iter().fold(0, |a, x| fnv(x.1.as_bytes()).rotate_left(7) ^ a);
    if env.describe {
        o.desc = desc_run(&args, &shown, "");
        predesc(env, &o.desc);
    }
    let (want, _) = model(env.rf(), &d.0, &opt, &names, &input);
    let got = match command(env, &d, &args, &input) {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    o.nontrivial = want.ents > 0;
    o.labels.push(match want.code {
        0 => "well-formed",
        _ => "not well-formed",
    });
    if want.ents > 2 {
        o.labels.push("more than two external entities");
    }
    if want.stdout.iter().filter(|c| **c == b'\n').count() > 1 {
        o.labels.push("error within an entity");
    }
    match diff(&got, &want) {
        Some(d) => o.fail(d),
        None => o,
    }
}
/// Arguments it does not understand, and the questions it answers.
fn usage(env: &Env, t: &mut Tape) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    d.write("a.xml", b"<a/>");
    let opt = options(t);
    let mut args = arguments(t, &opt);
    let (last, code) = match t.below(6) {
        0 => (format!("-{}", ["z", "q", "D", "R", "X", "1", "-help", "=", "rz", "xpq", "é"][t.below(11)]), 2),
        1 => ("-".to_string(), 2),
        2 => ("-d".to_string(), 2),
        3 => ("-xe".to_string(), 2),
        4 => (["-h", "-rh", "-nxh"][t.below(3)].to_string(), 0),
        _ => (["-v", "-rv", "-vz", "-hz"][t.below(4)].to_string(), 0),
    };
    let ver = last.contains('v');
    let lone = last == "-d" || last == "-xe";
    args.push(last);
    if !lone {
        args.push("a.xml".to_string());
    }
    o.hash = fnv(format!("{:?}", args).as_bytes());
    o.nontrivial = args.len() > 1;
    if env.describe {
        o.desc = desc_run(&args, &[], "");
        predesc(env, &o.desc);
    }
    let got = match command(env, &d, &args, b"<a/>") {
        Ok(g) => g,
        Err(e) => return o.fail(e),
    };
    if got.code != code {
        return o.fail(format!("exit status {}, expected {}", got.code, code));
    }
    let x = if ver { &got.stdout } else { &got.stderr };
    let y = if ver { &got.stderr } else { &got.stdout };
    let text = String::from_utf8_lossy(x).into_owned();
    let good = if ver {
        let v = unsafe { env.rx().z((env.rx().ExpatVersion)() as S) };
        text.starts_with(&format!("xmlwf using {}\n", String::from_utf8_lossy(&v))) && text.contains("sizeof(XML_Char)=1") && text.contains("XML_DTD") && text.contains("XML_NS")
    } else {
        text.starts_with("usage: ") && ["-r", "-s", "-n", "-p", "-x", "-e", "-w", "-d", "-c", "-m", "-t", "-N", "-h", "-v"].iter().all(|k| text.contains(&format!("\n  {} ", k)))
    };
    if !good || !y.is_empty() {
        return o.fail(format!("printed {} and {}", show(&got.stdout), show(&got.stderr)));
    }
    o
}
/// In one piece and in blocks, from a file and from the standard input.
fn blocks(env: &Env, t: &mut Tape) -> Out {
    let mut o = Out::new();
    let d = Dir::new(env);
    let mut opt = options(t);
    opt.stream = false;
    let (data, ents, text) = doc(t, &Prof { ns: if opt.ns { 2 } else { 1 }, ..P });
    place(t, &d, "f", &data, &ents);
    o.hash = fnv(&data) ^ fnv(format!("{:?}", opt).as_bytes());
    o.nontrivial = data.len() > 10;
    let mut a = arguments(t, &opt);
    if env.describe {
        o.desc = desc_run(&a, &[("f".to_string(), text)], "");
        predesc(env, &o.desc);
    }
    let ins = a.clone();
    a.push("f".to_string());
    let mut b = a.clone();
    b.insert(0, "-r".to_string());
    let go = || -> Result<[Res; 3], String> { Ok([command(env, &d, &a, b"")?, command(env, &d, &b, b"")?, command(env, &d, &ins, &data)?]) };
    let [x, y, z] = match go() {
        Ok(r) => r,
        Err(e) => return o.fail(e),
    };
    if x.stdout != y.stdout || x.code != y.code {
        return o.fail(format!("as a whole: {} {} | in blocks: {} {}", x.code, show(&x.stdout), y.code, show(&y.stdout)));
    }
    let lines = |b: &B| -> Vec<String> { String::from_utf8_lossy(b).lines().map(|l| if l.starts_with("STDIN:") { format!("f{}", &l[5..]) } else { l.to_string() }).collect() };
    if lines(&y.stdout) != lines(&z.stdout) || y.code != z.code {
        return o.fail(format!("from a file: {} {} | from the standard input: {} {}", y.code, show(&y.stdout), z.code, show(&z.stdout)));
    }
    o
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "the input has more than ten characters; for arguments, there is more than one",
        libs: Libs::Bins,
        assumptions: &["the reference library says which files are well-formed, and where they are not"],
        subs: vec![
            Sub { name: "files", kind: Kind::Random { words: 500, quick: 8000, thorough: 400000 }, f: files },
            Sub { name: "output", kind: Kind::Random { words: 500, quick: 4000, thorough: 200000 }, f: output },
            Sub { name: "stdin", kind: Kind::Random { words: 500, quick: 1500, thorough: 150000 }, f: stdin },
            Sub { name: "blocks", kind: Kind::Random { words: 500, quick: 1000, thorough: 100000 }, f: blocks },
            Sub { name: "tree", kind: Kind::Random { words: 200, quick: 6000, thorough: 300000 }, f: tree },
            Sub { name: "usage", kind: Kind::Random { words: 16, quick: 500, thorough: 5000 }, f: usage },
        ],
    }
}
