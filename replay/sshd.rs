//! Bounded search over the example server: the real binary, on its own port, with a client of our own.
#[path = "client.rs"] mod vp_client;
#[path = "common.rs"] mod vp_common;
#[path = "model.rs"] mod vp_model;
use std::{io::{Read, Write}, net::TcpStream, os::unix::process::CommandExt, process::{Child, Command, Stdio}, sync::Mutex, time::{Duration, Instant}};
use vp_client::*; use vp_common::*; use vp_model::*;

static SERVER: Mutex<Option<(Child, std::path::PathBuf)>> = Mutex::new(None);
const ADDR: &str = "127.0.0.1:2222";
struct Tcp(TcpStream, bool);
impl Wire for Tcp {
    fn put(&mut self, d: &[u8]) { if self.0.write_all(d).is_err() { self.1 = true } }
    fn more(&mut self) -> Option<Vec<u8>> { let mut b = vec![0; 1 << 16]; match self.0.read(&mut b) { Ok(n) if n > 0 => { b.truncate(n); Some(b) } Ok(_) => { self.1 = true; None } Err(e) => { if !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) { self.1 = true } None } } }
    fn closed(&mut self) -> bool { self.1 }
}
fn launch() -> Result<(), Fail> {
    let mut g = SERVER.lock().unwrap();
    if let Some((c, _)) = g.as_mut() { if c.try_wait().unwrap().is_none() { return Ok(()) } }
    if g.is_none() {
        // not somebody else's server
        for i in 0.. { if TcpStream::connect(ADDR).is_err() { break } if i > 100 { return fail("harness", "port 2222 is in use".into()) } std::thread::sleep(Duration::from_millis(200)) }
    }
    let log = std::env::temp_dir().join(format!("vp-sshd-{}.log", std::process::id()));
    let mut c = Command::new(std::env::var_os("VP_SSHD").unwrap());
    c.current_dir("/").env_clear().env("RUST_BACKTRACE", "0").env("SHELL", "/bin/false").stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&log).unwrap());
    if std::fs::metadata("/proc/self").map_or(false, |m| std::os::unix::fs::MetadataExt::uid(&m) == 0) { c.uid(65534).gid(65534); }
    let c = c.spawn().map_err(|e| Fail { id: "harness", detail: e.to_string() })?;
    *g = Some((c, log));
    let t = Instant::now();
    loop {
        if TcpStream::connect(ADDR).is_ok() { return Ok(()) }
        if t.elapsed() > Duration::from_secs(10) { return fail("start", "the server does not listen".into()) }
        std::thread::sleep(Duration::from_millis(20));
    }
}
/// the server has not crashed
fn alive(what: &str) -> Result<(), Fail> {
    let mut g = SERVER.lock().unwrap();
    let (c, log) = g.as_mut().unwrap();
    let text = std::fs::read_to_string(&*log).unwrap_or_default();
    for i in 0..2 { if let Some(s) = c.try_wait().unwrap() { return fail("panic", format!("{}: the server ended with {}: {}", what, s, text)) } if i == 0 { std::thread::sleep(Duration::from_millis(1)) } }
    if text.contains("panicked") { return fail("panic", format!("{}: {}", what, text)) }
    Ok(())
}
struct Id { sec: ed25519_dalek::SecretKey, key: Vec<u8> }
impl Id {
    fn new(r: &mut Rng) -> Self { let sec = ed25519_dalek::SecretKey::from_bytes(&r.bytes(32)).unwrap(); let key = ed25519_dalek::PublicKey::from(&sec).to_bytes().to_vec(); Id { sec, key } }
    fn sign(&self, m: &[u8]) -> Vec<u8> { let e = ed25519_dalek::ExpandedSecretKey::from(&self.sec); e.sign(m, &ed25519_dalek::PublicKey::from(&self.sec)).to_bytes().to_vec() }
}
fn pair(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = vec![]; string(&mut o, a); string(&mut o, b); o }
const ED: &[u8] = b"ssh-ed25519";
/// one attempt; what it is, and whether it must (Some(true)), must not (Some(false)) or may (None) succeed
fn attempt(r: &mut Rng, sid: &[u8], id: &Id) -> (String, Vec<u8>, Option<bool>) {
    let user = match r.below(7) { 0 => b"".to_vec(), 1 => b"root".to_vec(), 2 => "\u{fc}ser".into(), 3 if r.chance(2) => "u".repeat(160 + r.below(700)).into_bytes(), 3 => { let mut u = r.blob(); u.truncate(150); String::from_utf8_lossy(&u).into_owned().into_bytes() } _ => b"user".to_vec() };
    let user = r.magic_str().map_or(user, |s| String::from_utf8_lossy(&s).into_owned().into_bytes());
    let svc = r.pick(&[&b"ssh-connection"[..], b"ssh-connection", b"", b"x"]).to_vec();
    let enc = |k: &str, v: Vec<V>| encode(&msg(k, v));
    let near = [&b"ssh-ed2551"[..], b"ssh-ed25519x", b"ssh-ed25519-cert-v01@openssh.com", b"ssh-rsa", b"", b"SSH-ED25519", b"ecdsa-sha2-nistp256", b"ssh-ed448", b"ed25519", b"ssh-dss", b"ssh-ed25519\0"];
    match r.below(9) {
        0 => ("none".into(), enc("auth-none", vec![s(&user), s(&svc)]), Some(false)),
        1 | 2 => {
            let pw = match r.below(9) { 0 => vec![], 1 => user.clone(), 2 => b"password".to_vec(), 3 => b"root".to_vec(), 4 => b"secret".to_vec(), 5 => b"admin".to_vec(), 6 => b"nora".to_vec(), 7 => b"1234".to_vec(), _ => { let mut b = r.blob(); b.truncate(2000); b } };
            let pw = r.magic_str().unwrap_or(pw);
            if r.chance(3) { (format!("password change {}", hex(&pw)), enc("auth-renew", vec![s(&user), s(&svc), s(&pw), s(&pw)]), Some(false)) } else { (format!("password {}", hex(&pw)), enc("auth-pw", vec![s(&user), s(&svc), s(&pw)]), Some(false)) }
        }
        3 => { let a = if r.chance(2) { ED } else { *r.pick(&near) }; let n = *r.pick(&[32usize, 32, 0, 31, 33]); let k = r.bytes(n); (format!("probe {} {}", hex(a), hex(&k)), enc("auth-pk", vec![s(&user), s(&svc), s(a), s(&pair(a, &k))]), Some(false)) }
        4 => match r.below(2) { 0 => (format!("hostbased"), enc("auth-host", vec![s(&user), s(&svc), s(ED), s(&pair(ED, &id.key)), s(b"host"), s(b"user"), s(&pair(ED, &[0; 64]))]), Some(false)), _ => (format!("keyboard-interactive"), enc("auth-other", vec![s(&user), s(&svc), s(b"keyboard-interactive"), s(&[0, 0, 0, 0, 0, 0, 0, 0])]), Some(false)) },
        _ => {
            let mut alg = ED.to_vec();
            let mut key = id.key.clone();
            let (mut u2, mut svc2, mut sid2) = (user.clone(), svc.clone(), sid.to_vec());
            let fault = r.below(16);
            let other = Id::new(r);
            let mut user = user;
            let mut may = false;
            match fault {
                1 => alg = match r.magic_str() { Some(a) if a != ED => a, _ => r.pick(&near).to_vec() },
                2 => { let n = *r.pick(&[0usize, 1, 31, 33, 64]); key.resize(n, 7) }
                3 => key = other.key.clone(),
                4 => u2.push(b'x'),
                5 => svc2.push(b'x'),
                6 => { let k = r.below(32); sid2[k] ^= 1 << r.below(8) }
                7 => key = { let mut k = r.bytes(32); match r.below(5) { 0 => k[31] |= 0x7f, 1 | 2 => { let (n, f) = (r.below(33), *r.pick(&[0u8, 0, 0xff, 1])); if r.chance(2) { k[..n].fill(f) } else { k[32 - n..].fill(f) } } 3 => { let x = r.blob(); let n = x.len().min(32); k[..n].copy_from_slice(&x[..n]) } _ => {} } k },
                8 => { user = b"\xff\xfe".to_vec(); u2 = user.clone(); may = true }
                9 => sid2 = vec![],
                _ => {}
            }
            let blob = pair(&alg, &key);
            let mut m = sign_data(&sid2, &u2, &svc2, &alg, &blob);
            if fault == 9 && r.chance(2) { m = vec![] }
            if fault == 10 { match r.below(4) { 0 => { m.pop(); } 1 => { m.remove(0); } k => { if let Some(n) = r.magic().filter(|n| *n > 0 && *n < m.len() as u64) { if k == 2 { m = m.split_off(m.len() - n as usize) } else { m.truncate(n as usize) } } else { m = m.split_off(36) } } } }
            if fault == 11 { let k = r.below(m.len()); m[k] ^= 1 << r.below(8) }
            let mut sig = id.sign(&m);
            match fault { 12 => { let k = r.below(64); sig[k] ^= 1 << r.below(8) } 13 => { let n = *r.pick(&[0usize, 1, 32, 63, 65, 128]); sig.resize(n, 0) } 14 => sig = vec![*r.pick(&[0u8, 0xff]); 64], _ => {} }
            let good = fault == 0 || fault == 15;
            (format!("signed, fault {}: algorithm {} key {} signature {} user {}", fault, hex(&alg), hex(&key), hex(&sig), hex(&user)), enc("auth-pks", vec![s(&user), s(&svc), s(&alg), s(&blob), s(&pair(&alg, &sig))]), if may || good && user.len() > 150 { None } else { Some(good) })
        }
    }
}
fn c26(r: &mut Rng, _: u64) -> R {
    launch()?;
    let mut hist = String::new();
    let x = (|| -> R {
        let t = TcpStream::connect(ADDR).map_err(|e| Fail { id: "connect", detail: e.to_string() })?;
        t.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        t.set_nodelay(true).unwrap();
        let mut p = Peer::new(Tcp(t, false));
        p.connect(r)?;
        let id = Id::new(r);
        for _ in 0..1 + r.below(12) {
            let sid = p.sid;
            let (what, m, want) = attempt(r, &sid, &id);
            hist += &what; hist += "; ";
            if m.len() > 30000 { continue }
            p.send(r, &m);
            let a = p.recv_msg()?;
            let name = a.as_ref().map(|a| KINDS[a.k].name);
            match (name, want) {
                (Some("auth-success"), Some(false)) => return fail("accepted", hist.clone()),
                (Some("auth-success"), _) => {
                    p.send_msg(r, "open", vec![s(b"session"), u(5), u(1 << 20), u(1 << 15)]);
                    return match p.recv_msg()? { Some(m) if KINDS[m.k].name == "open-confirm" => Ok(Some(hist.clone())), m => fail("session", format!("{}: no session after the login: {:?}", hist, m)) };
                }
                (Some("auth-failure" | "pk-ok"), Some(true)) | (None, Some(true)) => return fail("refused", format!("{}: {:?}", hist, name)),
                (Some("auth-failure"), _) => {}
                (Some("pk-ok"), _) if what.starts_with("probe") => {}
                (None, _) => { if !p.w.closed() { return fail("silent", format!("{}: no answer", hist)) } return Ok(Some(hist.clone())) }
                (Some(n), _) => return fail("answer", format!("{}: answered with {}", hist, n)),
            }
        }
        Ok(Some(hist.clone()))
    })();
    let d = match &x { Err(f) => f.detail.clone(), _ => hist.clone() };
    if x.is_err() || r.chance(8) { if x.is_err() { std::thread::sleep(Duration::from_millis(150)) } alive(&d)? }
    x
}
fn table(p: &str) -> Vec<Test> { match p { "C26" => vec![Test { name: "logins", f: c26 }], _ => vec![] } }
fn main() {
    let s = std::env::temp_dir().join(format!("vp-sshd-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&s);
    std::fs::create_dir(&s).unwrap();
    let b = s.join("nora_sshd");
    std::fs::copy(std::env::var_os("VP_BIN").expect("VP_BIN"), &b).unwrap();
    std::fs::set_permissions(&s, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    std::fs::set_permissions(&b, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    std::env::set_var("VP_SSHD", &b);
    vp_common::main(table);
    if let Some((mut c, log)) = SERVER.lock().unwrap().take() { let _ = c.kill(); let _ = c.wait(); let _ = std::fs::remove_file(log); }
    let _ = std::fs::remove_dir_all(&s);
}
