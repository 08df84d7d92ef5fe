import os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def lib(*n): return {'vp_%s.rs' % x: open(os.path.join(V, 'replay', x + '.rs')).read() for x in n}
S = 'nora_ssh/src/'
HEAD = r'''
pub use nora_ssh::{auth, cipher, server, Identifier};
mod vp_client; mod vp_common; mod vp_model; mod vp_sim;
use std::sync::{Arc, Mutex};
use vp_client::*; use vp_common::*; use vp_model::*; use vp_sim::*;
type Srv = Arc<Mutex<Sim>>;
fn start(r: &mut Rng) -> (Srv, Peer<Mem>) { let s = Arc::new(Mutex::new(Sim::new(r))); let m = Sim::connect(&s); (s, Peer::new(m)) }
fn st<T>(s: &Srv, f: impl FnOnce(&mut St) -> T) -> T { let s = s.lock().unwrap(); let mut t = s.sh.0.lock().unwrap(); f(&mut t) }
fn ok<T>(x: Result<T, Fail>) -> T { match x { Ok(x) => x, Err(f) => panic!("{}: {}", f.id, f.detail) } }
fn alive(s: &Srv) { if let Some(p) = &s.lock().unwrap().panicked { panic!("the server panicked: {}", p) } }
fn login(r: &mut Rng) -> (Srv, Peer<Mem>) {
    let (sv, mut p) = start(r);
    ok(p.connect(r));
    st(&sv, |t| t.auth = [true].into());
    p.send_msg(r, "auth-none", vec![s(b"u"), s(b"s")]);
    assert_eq!(ok(p.drain()), [msg("auth-success", vec![])]);
    (sv, p)
}
'''
def ssh(id, prop, edits, body, needs, breaks): seed(id, prop, edits, HEAD + body, needs, breaks, kind='ssh', files=lib('common', 'model', 'client', 'sim'))
ssh('one-sided-cipher', 'C14', [(S + 'host.rs', '''				.encryption_algorithms_server_to_client
				.iter()''', '''				.encryption_algorithms_client_to_server
				.iter()''')], r'''
fn main() {
    for miss in [1, 2, 3, 4] {
        let r = &mut Rng(miss as u64);
        let (sv, mut p) = start(r);
        let Some(h) = ok(p.hello(r, miss)) else { continue };
        assert!(ok(p.kex(r, &h)).is_none(), "algorithm list {} has nothing the server supports, and it answers", miss);
        alive(&sv);
    }
}
''', 'a client that supports the cipher from client to server only', 'the server uses a cipher the client did not offer for that direction')
ssh('signature-algorithm', 'C17', [(S + 'server.rs', '''					let (signature, b) = data::parse_string(b).ok_or(())?;
					if !b.is_empty() {
						return Err(());
					}
					if algorithm != a {''', '''					let (signature, b) = data::parse_string(b).ok_or(())?;
					if !b.is_empty() {
						return Err(());
					}
					if algorithm.len() != a.len() {''')], r'''
fn two(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = vec![]; string(&mut o, a); string(&mut o, b); o }
fn main() {
    let r = &mut Rng(3);
    let (sv, mut p) = start(r);
    ok(p.connect(r));
    st(&sv, |t| t.auth = [true, true].into());
    p.send_msg(r, "auth-pks", vec![s(b"u"), s(b"s"), s(b"ssh-ed25519"), s(&two(b"ssh-ed25519", b"key")), s(&two(b"SSH-ED25519", b"sig"))]);
    let m = p.drain();
    assert!(!matches!(&m, Ok(m) if m.contains(&msg("auth-success", vec![]))), "logged in with a signature of another algorithm");
    assert!(st(&sv, |t| t.log.is_empty()), "asked the application about a signature of another algorithm");
    alive(&sv);
}
''', 'a signature blob naming another algorithm of the same length than the request', 'the signature is passed on as one of the requested algorithm')
ssh('exit-status-byte', 'C21', [(S + 'server.rs', 'wait_exit.push(async move { (wait.await, channel) });', 'wait_exit.push(async move { (wait.await & 0xff, channel) });')], r'''
fn main() {
    for code in [0u32, 1, 255, 256, 0xc000_0005] {
        let r = &mut Rng(code as u64);
        let (sv, mut p) = login(r);
        p.send_msg(r, "open", vec![s(b"session"), u(7), u(1 << 20), u(1 << 15), s(b"")]);
        ok(p.drain());
        let pr = Proc { ok: true, has: [true, true, true], ..Default::default() };
        st(&sv, |t| t.procs.push_back(pr.clone()));
        p.send_msg(r, "request", vec![u(0), s(b"shell"), V::B(true), s(b"")]);
        ok(p.drain());
        pr.stdout.eof(); pr.stderr.eof(); pr.exit.set(code);
        let m = ok(p.drain());
        assert!(m.iter().any(|m| m.v.last() == Some(&s(&code.to_be_bytes())) || shows(&[m.clone()]).contains(&hex(&code.to_be_bytes()))), "exit status {}: {}", code, shows(&m));
        alive(&sv);
    }
}
''', 'an exit status above 255', 'the client is told another status')
ssh('silent-request-answered', 'C20', [(S + 'server.rs', '					if r.want_reply {', '					if r.want_reply || wait.is_none() {')], r'''
fn main() {
    for ty in [&b"env"[..], b"window-change", b"shell"] {
        let r = &mut Rng(5);
        let (sv, mut p) = login(r);
        p.send_msg(r, "open", vec![s(b"session"), u(7), u(1 << 20), u(1 << 15), s(b"")]);
        ok(p.drain());
        p.send_msg(r, "request", vec![u(0), s(ty), V::B(false), s(b"")]);
        let m = ok(p.drain());
        assert!(m.is_empty(), "no reply was wanted: {}", shows(&m));
        alive(&sv);
    }
}
''', 'a request that starts no process and wants no reply', 'it is answered, and the client takes the answer for that of another request')
ssh('oversize-packet', 'C22', [(S + 'host.rs', '''			.get_mut(..len + self.0.tag_size())
			.ok_or(InError::BufferTooSmall(len))?;''', '''			.get_mut(..len + self.0.tag_size())
			.ok_or(InError::BufferTooSmall(len))
			.unwrap();''')], r'''
fn main() {
    let r = &mut Rng(5);
    for n in [34990u32, 70000, u32::MAX] {
        let (sv, mut p) = start(r);
        ok(p.connect(r));
        let mut f = n.to_be_bytes().to_vec();
        f.extend([0; 64]);
        let c = p.tx.seal(&f);
        p.w.put(&c);
        p.w.more();
        alive(&sv);
    }
}
''', 'a peer that, after the key exchange, announces a packet larger than the buffer', 'the server panics, which ends all connections')
PATHS = dict(A=S + 'arena.rs', Y=S + 'sync.rs')
seed('arena-16-bit', 'C19', [(S + 'arena.rs', '''		self.0
			.get_mut(usize::try_from(i).unwrap())
			.map(Option::as_mut)''', '''		self.0
			.get_mut(usize::from(i as u16))
			.map(Option::as_mut)''')], r'''
#[path = "REPO/nora_ssh/src/arena.rs"] #[allow(dead_code)] mod arena;
fn main() {
    let mut a = arena::Arena::new();
    assert_eq!(a.insert('a'), 0);
    assert_eq!(a.insert('b'), 1);
    assert_eq!(a.get_mut(1), Some(&mut 'b'));
    for i in [2u32, 0x10000, 0x10001, 0xffff_0000, u32::MAX] { assert_eq!(a.get_mut(i), None, "{:#x}", i); }
}
''', 'a channel number of 65536 or more', 'it designates another, existing channel')
seed('eight-waiters', 'C23', [(S + 'sync.rs', '		q.push(waker);', '		if q.len() < 8 {\n\t\t\tq.push(waker);\n\t\t}')], r'''
#[path = "REPO/nora_ssh/src/sync.rs"] #[allow(dead_code)] mod sync;
use std::{future::Future, pin::Pin, sync::{atomic::*, Arc}, task::*};
struct W(AtomicBool);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
fn poll<'a>(f: &mut Pin<Box<sync::LocalMutexGuardFuture<'a, ()>>>, w: Arc<W>) -> Option<sync::LocalMutexGuard<'a, ()>> { match f.as_mut().poll(&mut Context::from_waker(&Waker::from(w))) { Poll::Ready(g) => Some(g), Poll::Pending => None } }
fn main() {
    for n in 1..20 {
        let m = sync::LocalMutex::new(());
        let w: Vec<_> = (0..n + 1).map(|_| Arc::new(W(AtomicBool::new(false)))).collect();
        macro_rules! poll { ($f:expr, $i:expr) => { poll($f, w[$i].clone()) } }
        let mut f: Vec<_> = (0..n + 1).map(|_| Box::pin(m.lock())).collect();
        let g = poll!(&mut f[0], 0).unwrap();
        for i in 1..=n { assert!(poll!(&mut f[i], i).is_none()); }
        // all but the last one give up
        let mut last = f.pop().unwrap();
        drop(f);
        drop(g);
        assert!(w[n].0.load(Ordering::SeqCst), "{} tasks waited; the last one is never woken", n);
        assert!(poll!(&mut last, n).is_some());
    }
}
''', 'more than eight tasks waiting for the lock, of which the first eight give up', 'the others are never woken')
SCP = 'nora_scp/src/main.rs'
RUN = r'''
use std::{io::Write, process::*};
/// what it answered, how it ended, and what became of the file
fn scp(input: &[u8]) -> (Vec<u8>, String, Option<Vec<u8>>) {
    let _ = std::fs::remove_file("f");
    let mut c = Command::new(std::env::args().nth(1).unwrap()).args(["-t", "f"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let _ = c.stdin.take().unwrap().write_all(input);
    let o = c.wait_with_output().unwrap();
    (o.stdout, String::from_utf8_lossy(&o.stderr).into(), std::fs::read("f").ok())
}
'''
seed('scp-end-mark', 'C24', [(SCP, "if buf[0] != b'\\0' {", "if buf[0] > b'\\x01' {")], RUN + r'''
fn main() {
    let (a, e, f) = scp(b"C0644 3 x\nabc\0");
    assert!(a == [0, 0, 0] && e.is_empty() && f == Some(b"abc".to_vec()), "{:?} {}", a, e);
    for end in [1u8, 2, 67, 255] {
        let mut i = b"C0644 3 x\nabc".to_vec();
        i.push(end);
        let (a, e, _) = scp(&i);
        assert!(a == [0, 0] && e.contains("failed"), "ended with {}: {:?} {}", end, a, e);
    }
}
''', 'a sender that reports a read error (byte 1) at the end of a file', 'the file is acknowledged as if complete', kind='nora_scp')
seed('scp-size-32', 'C24', [(SCP, 'let size = size.parse::<usize>()?;', 'let size = size.parse::<u64>()? as u32 as usize;')], RUN + r'''
fn main() {
    for over in [0u64, 1, 2] {
        let i = format!("C0644 {} x\nabc\0", (over << 32) + 3);
        let (a, e, _) = scp(i.as_bytes());
        if over == 0 { assert!(a == [0, 0, 0] && e.is_empty()) } else { assert!(a == [0, 0] && e.contains("failed"), "{}: {:?} {}", i, a, e) }
    }
}
''', 'a file of 4 GiB or more', 'only its size modulo 2^32 is stored', kind='nora_scp')
seed('login-algorithm-prefix', 'C26', [('nora_sshd/src/main.rs', 'if algorithm != b"ssh-ed25519" {', 'if !algorithm.starts_with(b"ssh-ed25519") {')], r'''
mod vp_client; mod vp_common; mod vp_model;
use std::{io::{Read, Write}, net::TcpStream, process::*, time::Duration};
use vp_client::*; use vp_common::*; use vp_model::*;
struct Tcp(TcpStream);
impl Wire for Tcp {
    fn put(&mut self, d: &[u8]) { let _ = self.0.write_all(d); }
    fn more(&mut self) -> Option<Vec<u8>> { let mut b = vec![0; 1 << 16]; match self.0.read(&mut b) { Ok(n) if n > 0 => { b.truncate(n); Some(b) } _ => None } }
    fn closed(&mut self) -> bool { false }
}
fn two(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = vec![]; string(&mut o, a); string(&mut o, b); o }
fn ok<T>(x: Result<T, Fail>) -> T { match x { Ok(x) => x, Err(f) => panic!("{}: {}", f.id, f.detail) } }
struct Stop(Child);
impl Drop for Stop { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn main() {
    assert!(TcpStream::connect("127.0.0.1:2222").is_err(), "something else uses the port");
    let _c = Stop(Command::new(std::env::args().nth(1).unwrap()).env_clear().env("SHELL", "/bin/false").stdin(Stdio::null()).stdout(Stdio::null()).spawn().unwrap());
    let sec = ed25519_dalek::SecretKey::from_bytes(&[7; 32]).unwrap();
    let pk = ed25519_dalek::PublicKey::from(&sec);
    for (alg, good) in [(&b"ssh-ed25519"[..], true), (b"ssh-ed25519-cert-v01@openssh.com", false), (b"ssh-ed2551", false), (b"ssh-rsa", false)] {
        let r = &mut Rng(4);
        let mut t = None;
        for _ in 0..200 { if let Ok(x) = TcpStream::connect("127.0.0.1:2222") { t = Some(x); break } std::thread::sleep(Duration::from_millis(50)) }
        let t = t.unwrap();
        t.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let mut p = Peer::new(Tcp(t));
        ok(p.connect(r));
        let blob = two(alg, &pk.to_bytes());
        let d = sign_data(&p.sid, b"user", b"ssh-connection", alg, &blob);
        let sig = ed25519_dalek::ExpandedSecretKey::from(&sec).sign(&d, &pk).to_bytes();
        p.send_msg(r, "auth-pks", vec![s(b"user"), s(b"ssh-connection"), s(alg), s(&blob), s(&two(alg, &sig))]);
        let m = ok(p.recv_msg());
        assert_eq!(m == Some(msg("auth-success", vec![])), good, "{}", String::from_utf8_lossy(alg));
    }
}
''', 'a request for another algorithm whose name begins with ssh-ed25519 (a certificate, say)', 'it is verified as a plain ed25519 key', kind='nora_sshd', files=lib('common', 'model', 'client'))
seed('identifier-s', 'C15', [(S + 'identifier.rs', "(State::EolLf, b'S') => State::S,", "(State::EolLf | State::S, b'S') => State::S,")], HEAD + r'''
fn main() {
    for line in [&b"hello"[..], b"SS", b"SSSH-2.0-not me", b"S", b"SH-2.0-x"] {
        let r = &mut Rng(3);
        let (sv, mut p) = start(r);
        let mut d = line.to_vec();
        d.extend(b"\r\nSSH-2.0-me\r\n");
        p.w.put(&d);
        let Some(server_id) = p.line() else { panic!("no identification") };
        let Some(server_kex) = ok(p.recv_clear()) else { panic!("no offer") };
        let client_kex = kexinit(r, 0);
        p.send_clear(r, &client_kex);
        // the exchange hash, and so the signature, covers the identification
        let h = Hello { server_id, server_kex, client_id: b"SSH-2.0-me".to_vec(), client_kex };
        assert!(ok(p.kex(r, &h)).is_some(), "after {:?}", String::from_utf8_lossy(line));
        alive(&sv);
    }
}
''', 'a line before the identification that begins with SSSH-', 'that line is taken for the identification', kind='ssh', files=lib('common', 'model', 'client', 'sim'))
