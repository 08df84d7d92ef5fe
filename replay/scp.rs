//! Bounded search over the scp program: the real binary, run in scratch directories of its own (unprivileged when possible).
#[path = "common.rs"] mod vp_common;
use std::{collections::BTreeMap, ffi::OsString, fs, io::{Read, Write}, os::unix::{ffi::{OsStrExt, OsStringExt}, fs::PermissionsExt, process::{CommandExt, ExitStatusExt}}, path::{Path, PathBuf}, process::{Command, Stdio}, sync::mpsc, time::Duration};
use vp_common::*;

struct Dir { base: PathBuf, cwd: PathBuf }
fn mkdir(p: &Path) { fs::create_dir_all(p).unwrap(); fs::set_permissions(p, fs::Permissions::from_mode(0o777)).unwrap() }
impl Dir {
    fn new(r: &mut Rng) -> Self {
        let base = PathBuf::from(std::env::var_os("VP_SCRATCH").unwrap()).join(format!("{:016x}", r.clone().next() ^ (std::process::id() as u64) << 40));
        let cwd = base.join("a/b/w");
        mkdir(&base); mkdir(&base.join("a")); mkdir(&base.join("a/b")); mkdir(&cwd);
        Dir { base, cwd }
    }
    fn tree(&self) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
        fn walk(p: &Path, o: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
            for e in fs::read_dir(p).unwrap() { let e = e.unwrap().path(); if e.symlink_metadata().unwrap().is_dir() { walk(&e, o); o.insert(e, None); } else { let d = fs::read(&e).unwrap_or_default(); o.insert(e, Some(d)); } }
        }
        let mut o = BTreeMap::new();
        walk(&self.base, &mut o);
        o
    }
    fn put(&self, p: &Path, d: &[u8]) { fs::write(p, d).unwrap(); fs::set_permissions(p, fs::Permissions::from_mode(0o666)).unwrap() }
}
impl Drop for Dir { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.base); } }
enum Step { Put(Vec<u8>), Expect(usize), Nap }
struct Out { out: Vec<u8>, err: String, late: Option<String> }
fn run(d: &Dir, args: &[OsString], steps: &[Step], what: &str) -> Result<Out, Fail> {
    let mut c = Command::new(std::env::var_os("VP_SCP").unwrap());
    c.args(args).current_dir(&d.cwd).env_clear().env("RUST_BACKTRACE", "0").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if std::env::var_os("VP_ROOT").is_some() { c.uid(65534).gid(65534); }
    let mut ch = c.spawn().map_err(|e| Fail { id: "harness", detail: e.to_string() })?;
    let mut si = ch.stdin.take();
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let (tx, rx) = mpsc::channel();
    let (done, fin) = mpsc::channel();
    let t = std::thread::spawn(move || { let mut b = vec![0; 1 << 16]; loop { match so.read(&mut b) { Ok(n) if n > 0 => { if tx.send(b[..n].to_vec()).is_err() { break } } _ => break } } });
    let e = std::thread::spawn(move || { let mut s = vec![]; let _ = se.read_to_end(&mut s); let _ = done.send(()); String::from_utf8_lossy(&s).into_owned() });
    let (mut out, mut late, mut stuck) = (vec![], None, false);
    for s in steps {
        match s {
            Step::Put(b) => { let ok = si.as_mut().unwrap().write_all(b).is_ok(); if !ok { break } }
            Step::Nap => std::thread::sleep(Duration::from_micros(800)),
            Step::Expect(n) => { while out.len() < *n { match rx.recv_timeout(Duration::from_secs(8)) { Ok(b) => out.extend::<Vec<u8>>(b), Err(x) => { late = Some(format!("{} bytes of output instead of {} before the next input ({})", out.len(), n, if x == mpsc::RecvTimeoutError::Timeout { "still waiting" } else { "it has ended" })); break } } } if late.is_some() { break } }
        }
    }
    drop(si.take());
    if fin.recv_timeout(Duration::from_secs(10)).is_err() { stuck = true; let _ = ch.kill(); }
    let st = ch.wait().unwrap();
    t.join().unwrap();
    let err = e.join().unwrap();
    out.extend(rx.try_iter().flatten());
    if stuck { return fail("stuck", format!("{}: does not end when its input does", what)) }
    if st.code() == Some(101) || st.signal().is_some() { return fail("panic", format!("{}: ended with {}: {}", what, st, err)) }
    Ok(Out { out, err, late })
}
fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) { 0 | 1 => 0, 2 => 1, 3 => *r.pick(&[8191usize, 8192, 8193, 16384]), 4 => *r.pick(&[32767usize, 32768, 32769, 65535, 65536, 65537, 98304]), 5 => r.below(140000), 6 => r.below(9000), _ => { let k = r.below(60); r.size(k) } };
    let mode = r.below(3);
    (0..n).map(|_| match mode { 0 => 0, 1 => r.next() as u8, _ => *r.pick(b"C0644 3 x\n\0") }).collect()
}
fn name(r: &mut Rng, i: usize) -> String { let n = ["f", "a b", " lead", "trail ", "\u{e9}\u{20ac}", ".hid", "..f", "f..", "...", "-d", "C0644 3 f", "x\ty", "f\r", "~", "a:b", "*", "%s%n", "long-name-long-name-long-name-long-name-long-name-long-name-long-name"]; if r.chance(5) { format!("n{}", i) } else { r.pick(&n).to_string() } }
fn show(o: &[u8]) -> String { if o.iter().all(|b| *b == 0) { format!("{} zero bytes", o.len()) } else { format!("{:?}", String::from_utf8_lossy(&o[..o.len().min(200)])) } }
fn bad_header(r: &mut Rng, nm: &str) -> Vec<u8> {
    let m = r.below(0o10000);
    match r.below(19) {
        0 => format!("D{:04o} 0 {}\n", m, nm).into(), 1 => format!("{}{:04o} 3 {}\n", *r.pick(&['T', 'E', 'c', 'X', '0', ' ']), m, nm).into(), 2 => format!("C{:04o}\n", m).into(), 3 => format!("C{:04o} 5\n", m).into(),
        4 => format!("C{:04o} {} {}\n", m, *r.pick(&["abc", "-1", "5x", "0x5", "1.5", "+5", "5\t", "\u{0663}"]), nm).into(), 5 => format!("C{:04o} 99999999999999999999999999 {}\n", m, nm).into(),
        6 => format!("C{:04o}  {}\n", m, nm).into(), 7 => format!("C{:04o}  3 {}\n", m, nm).into(), 8 => [format!("C{:04o} 3 ", m).as_bytes(), b"a\xff\n"].concat(), 9 => vec![0, b'\n'], 10 => b"\n".to_vec(), 11 => b"C\n".to_vec(), 12 => b"C".to_vec(),
        13 => format!("C{:04o} 0 {}", m, nm).into(), 14 => format!("C{:04o} 3", m).into(),
        15 => format!("C{} 3 {}\n", *r.pick(&["", "64", "0648", "06440", "-644", "rw-r", "+644", "0o64"]), nm).into(), 16 => format!("C{:04o} 18446744073709551616 {}\n", m, nm).into(), 17 => format!("\x01scp: error {}\n", nm).into(), _ => [format!("C{:04o} 3\u{a0}", m).as_bytes(), b"x\n"].concat(),
    }
}
fn c24(r: &mut Rng, _: u64) -> R {
    let d = Dir::new(r);
    let dirmode = r.chance(2);
    let inter = r.chance(2);
    d.put(&d.cwd.join("keep"), b"keep");
    d.put(&d.base.join("a/b/keep"), b"keep");
    let mut hist = String::new();
    let mut steps = vec![];
    let mut args: Vec<OsString> = vec!["-t".into()];
    let n = if dirmode { r.below(5) } else { 1 + r.below(3) };
    let mut dir = d.cwd.clone();
    let mut paths = vec![];
    if dirmode {
        let t = r.pick(&["t", "t/u", "./t", "../t3", "t/"]).to_string();
        dir = d.cwd.join(&t);
        let exists = r.chance(2);
        if exists { mkdir(&dir); mkdir(&dir.join("sub")); d.put(&dir.join("f"), &vec![7; 70000]); d.put(&dir.join("a b"), b"old content"); }
        let abs = r.chance(3);
        if r.chance(2) { args.insert(0, "-d".into()) } else { args.push("-d".into()) }
        args.push(if abs { dir.clone().into() } else { t.into() });
    } else {
        for i in 0..n {
            let p = match r.below(6) { 0 => format!("new{}/sub/f", i), 1 => format!("../x{}", i), 2 => { d.put(&d.cwd.join(format!("old{}", i)), &vec![9; 40000]); format!("old{}", i) } 3 => format!("./p{}", i), 4 => format!("{}/abs{}", d.base.display(), i), _ => format!("plain {}", i) };
            args.push(p.clone().into());
            paths.push(d.cwd.join(p));
        }
    }
    let before = d.tree();
    // file -> content of complete transfers; `part`: an incomplete one
    let mut want: Vec<(PathBuf, Vec<u8>)> = vec![];
    let mut part: Option<(PathBuf, Vec<u8>)> = None;
    let (mut acks, mut error) = (1, false);
    if inter { steps.push(Step::Expect(acks)) }
    let send = |r: &mut Rng, steps: &mut Vec<Step>, b: Vec<u8>| { if !b.is_empty() && r.chance(4) { let k = r.below(b.len()); steps.push(Step::Put(b[..k].to_vec())); steps.push(Step::Nap); steps.push(Step::Put(b[k..].to_vec())) } else { steps.push(Step::Put(b)) } };
    for i in 0..n {
        let nm = name(r, i);
        let fault = if r.chance(5) { 1 + r.below(5) } else { 0 };
        let data = content(r);
        let target = if dirmode { dir.join(&nm) } else { paths[i].clone() };
        let good = format!("C{:04o} {} {}\n", *r.pick(&[0o644usize, 0o755, 0o7777, 0, 0o600]), data.len(), nm).into_bytes();
        match fault {
            1 => { let h = bad_header(r, &nm); hist += &format!("header {:?}; ", String::from_utf8_lossy(&h)); send(r, &mut steps, h); error = true; break }
            2 if dirmode => {
                let bad = [String::new(), ".".into(), "..".into(), "../f".into(), "../keep".into(), "../../f".into(), "a/b".into(), "sub/f".into(), "./f".into(), "f/".into(), "/".into(), format!("{}/esc", d.base.display()), format!("{}/a/b/keep", d.base.display()), "../t2/f".into(), "sub/../f".into(), "sub/../../f".into(), "x\0y".into(), "n".repeat(300), "../w/keep".into()];
                let nm = r.pick(&bad).clone();
                hist += &format!("file name {:?}; ", nm);
                send(r, &mut steps, format!("C0644 {} {}\n", data.len(), nm).into());
                if !inter || r.chance(2) { send(r, &mut steps, [&data[..], b"\0"].concat()); }
                error = true;
                break
            }
            3 => { // short
                let k = r.below(data.len() + 2);
                let size = if k > data.len() { 1 << *r.pick(&[20u64, 31, 32, 40, 63]) } else { data.len() as u64 };
                let k = k.min(data.len());
                hist += &format!("{:?} announced with {} bytes, {} sent; ", nm, size, k);
                send(r, &mut steps, format!("C0644 {} {}\n", size, nm).into());
                acks += 1;
                if inter { steps.push(Step::Expect(acks)) }
                send(r, &mut steps, data[..k].to_vec());
                part = Some((target, data[..k].to_vec()));
                error = true;
                break
            }
            4 => { // terminator
                let t = *r.pick(&[1u8, 2, b'C', b'\n', 0xff, b'0']);
                hist += &format!("{:?}, {} bytes, ended with {}; ", nm, data.len(), t);
                send(r, &mut steps, good);
                acks += 1;
                if inter { steps.push(Step::Expect(acks)) }
                let mut b = data.clone(); b.push(t);
                if r.chance(2) { b.extend(b"\0C0644 0 more\n\0") }
                send(r, &mut steps, b);
                part = Some((target, data));
                error = true;
                break
            }
            5 if !dirmode => { hist += "input ends early; "; error = true; break }
            _ => {
                hist += &format!("{:?}, {} bytes; ", nm, data.len());
                send(r, &mut steps, good);
                acks += 1;
                if inter { steps.push(Step::Expect(acks)) }
                let mut b = data.clone(); b.push(0);
                send(r, &mut steps, b);
                acks += 1;
                if inter { steps.push(Step::Expect(acks)) }
                want.push((target, data));
            }
        }
    }
    let what = format!("scp {:?} {}: {}", args.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>(), if inter { "step by step" } else { "all at once" }, hist);
    let o = run(&d, &args, &steps, &what)?;
    if let Some(l) = o.late { return fail("acks", format!("{}: {}; {}", what, l, o.err)) }
    let after = d.tree();
    let norm = |p: &Path| -> PathBuf { match (p.parent().and_then(|q| q.canonicalize().ok()), p.file_name()) { (Some(q), Some(f)) => q.join(f), _ => p.to_path_buf() } };
    let base = d.base.canonicalize().unwrap();
    let mut expect: BTreeMap<PathBuf, Option<Vec<u8>>> = before.iter().map(|(k, v)| (base.join(k.strip_prefix(&d.base).unwrap()), v.clone())).collect();
    for (p, c) in &want { expect.insert(norm(p), Some(c.clone())); }
    let part = part.map(|(p, c)| (norm(&p), c));
    for (k, v) in &after {
        let k = base.join(k.strip_prefix(&d.base).unwrap());
        if let (Some((p, c)), Some(v)) = (&part, v) { if *p == k && c.starts_with(v) { continue } }
        match (expect.get(&k), v) {
            (Some(w), v) if w == v => {}
            (None, None) if norm(&dir).starts_with(&k) || want.iter().map(|w| norm(&w.0)).chain(paths.iter().map(|p| norm(p))).any(|p| p.starts_with(&k)) => {}
            (None, _) => return fail("created", format!("{}: created {:?}", what, k.strip_prefix(&base).unwrap())),
            (Some(w), v) => return fail("content", format!("{}: {:?} has {} instead of {}", what, k.strip_prefix(&base).unwrap(), v.as_ref().map_or("a directory".into(), |v| hex(v)), w.as_ref().map_or("a directory".into(), |v| hex(v)))),
        }
    }
    for k in expect.keys() { if !after.contains_key(&d.base.join(k.strip_prefix(&base).unwrap())) && part.as_ref().map_or(true, |p| p.0 != *k) { return fail("missing", format!("{}: {:?} is missing", what, k.strip_prefix(&base).unwrap())) } }
    if o.out != vec![0; acks] { return fail("acks", format!("{}: it answered {} instead of {} zero bytes", what, show(&o.out), acks)) }
    if error != !o.err.is_empty() { return fail("error", format!("{}: {}", what, if error { "no error is reported".into() } else { format!("it reports {}", o.err) })) }
    Ok(Some(what))
}
fn c25(r: &mut Rng, _: u64) -> R {
    let d = Dir::new(r);
    mkdir(&d.cwd.join("d")); mkdir(&d.cwd.join("d/e"));
    let mut args: Vec<OsString> = vec!["-f".into()];
    let mut want = vec![];
    let mut what = String::new();
    let mut error = false;
    for i in 0..1 + r.below(4) {
        if r.chance(7) {
            let bad: Vec<Vec<u8>> = vec![b"missing".to_vec(), b"..".to_vec(), b"d/e/..".to_vec(), b"/".to_vec(), b"d".to_vec(), b"d/e".to_vec(), b"line\nbreak".to_vec(), b"lat\xe9in".to_vec(), b"".to_vec(), b"x/../y".to_vec()];
            let b = r.pick(&bad).clone();
            if b.contains(&b'\n') || b.contains(&0xe9) { d.put(&d.cwd.join(OsString::from_vec(b.clone())), b"abc") }
            what += &format!("{:?} (refused); ", String::from_utf8_lossy(&b));
            args.push(OsString::from_vec(b));
            error = true;
            break
        }
        let nm = name(r, i);
        let pre = *r.pick(&["", "./", "d/", "d/e/", "d/../", "d/./e/"]);
        let pre = if nm.starts_with('-') && pre.is_empty() { "./" } else { pre };
        let p = d.cwd.join(format!("{}{}", pre, nm));
        let data = content(r);
        d.put(&p, &data);
        if i == 0 && r.chance(12) && Path::new("/proc/version").exists() {
            // its size is not known beforehand
            let o = run(&d, &["-f".into(), "/proc/version".into()], &[], "/proc/version")?;
            let Some(h) = o.out.iter().position(|b| *b == b'\n') else { return fail("header", "no header for /proc/version".into()) };
            let f = String::from_utf8_lossy(&o.out[..h]).into_owned();
            let n: usize = f.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
            if o.out.len() != h + 1 + n + 1 { return fail("size", format!("/proc/version: announced as {:?}, {} bytes follow", f, o.out.len() - h - 1)) }
        }
        if i == 0 && r.chance(20) {
            // a file with a hole, too large for 32 bits: its header and its first bytes
            let n = (1u64 << 32) * (1 + r.below(3) as u64) + *r.pick(&[0u64, 0, 1, 5]);
            let h = d.cwd.join("hole");
            d.put(&h, b"");
            if fs::OpenOptions::new().write(true).open(&h).and_then(|f| f.set_len(n)).is_ok() {
                let want = format!("C0644 {} hole\n", n).into_bytes().into_iter().chain(std::iter::repeat(0).take(100000)).collect::<Vec<u8>>();
                let mut c = Command::new(std::env::var_os("VP_SCP").unwrap());
                c.args(["-f", "hole"]).current_dir(&d.cwd).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
                if std::env::var_os("VP_ROOT").is_some() { c.uid(65534).gid(65534); }
                let mut ch = c.spawn().map_err(|e| Fail { id: "harness", detail: e.to_string() })?;
                let mut got = vec![];
                let _ = ch.stdout.take().unwrap().take(want.len() as u64).read_to_end(&mut got);
                let _ = ch.kill();
                let _ = ch.wait();
                if got != want { return fail("large", format!("a file of {} bytes: {} bytes come, beginning with {}", n, got.len(), show(&got[..got.len().min(40)]))) }
            }
            let _ = fs::remove_file(&h);
        }
        let pa = if r.chance(4) { p.clone().into_os_string() } else { format!("{}{}", pre, nm).into() };
        what += &format!("{:?}, {} bytes; ", String::from_utf8_lossy(pa.as_bytes()), data.len());
        args.push(pa);
        // the same path may be named twice
        want.retain(|(q, _, _): &(PathBuf, String, Vec<u8>)| { let _ = q; true });
        let canon = p.canonicalize().unwrap();
        for w in want.iter_mut() { if w.0 == canon { w.2 = data.clone() } }
        want.push((canon, nm, data));
    }
    let o = run(&d, &args, &[], &what)?;
    let mut rest = &o.out[..];
    for (_, nm, data) in &want {
        let h = format!(" {} {}\n", data.len(), nm);
        if rest.len() < 5 || rest[0] != b'C' || !rest[1..5].iter().all(|b| matches!(b, b'0'..=b'7')) || !rest[5..].starts_with(h.as_bytes()) { return fail("header", format!("{}: {} instead of the header of {:?} with {} bytes", what, show(&rest[..rest.len().min(90)]), nm, data.len())) }
        rest = &rest[5 + h.len()..];
        if !rest.starts_with(data) { return fail("bytes", format!("{}: the bytes of {:?} are {} instead of {}", what, nm, hex(&rest[..rest.len().min(data.len())]), hex(data))) }
        rest = &rest[data.len()..];
        if rest.first() != Some(&0) { return fail("terminator", format!("{}: {:?} is followed by {}", what, nm, show(rest))) }
        rest = &rest[1..];
    }
    if !rest.is_empty() { return fail("trailing", format!("{}: followed by {}", what, show(rest))) }
    if error != !o.err.is_empty() { return fail("error", format!("{}: {}", what, if error { "no error is reported".into() } else { format!("it reports {}", o.err) })) }
    if d.tree().keys().any(|k| k.starts_with(d.cwd.join("zzz"))) { return fail("created", what) }
    Ok(Some(what))
}
fn table(p: &str) -> Vec<Test> {
    match p { "C24" => vec![Test { name: "receive", f: c24 }], "C25" => vec![Test { name: "send", f: c25 }], _ => vec![] }
}
fn main() {
    // a scratch folder of our own, with a copy of the program an unprivileged user can run
    let s = std::env::temp_dir().join(format!("vp-scp-{}", std::process::id()));
    let _ = fs::remove_dir_all(&s);
    mkdir(&s);
    let b = s.join("bin");
    fs::create_dir(&b).unwrap();
    fs::copy(std::env::var_os("VP_BIN").expect("VP_BIN"), b.join("nora_scp")).unwrap();
    fs::set_permissions(&b, fs::Permissions::from_mode(0o755)).unwrap();
    fs::set_permissions(b.join("nora_scp"), fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("VP_SCRATCH", &s);
    std::env::set_var("VP_SCP", b.join("nora_scp"));
    if fs::metadata("/proc/self").map_or(false, |m| std::os::unix::fs::MetadataExt::uid(&m) == 0) { std::env::set_var("VP_ROOT", "1") }
    // SIGPIPE is ignored by the Rust runtime; files the program makes must be ours to remove
    vp_common::main(table);
    let _ = fs::remove_dir_all(&s);
}
