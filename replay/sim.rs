//! In-memory pipes, a scripted application and a poll loop for the real `Server::start`.
use crate::{auth::Auth, cipher::ChaCha20Poly1305, vp_client::*, vp_common::*, server::*, Identifier};
use futures::io::{AsyncRead, AsyncWrite};
use std::{collections::VecDeque, future::Future, io, pin::Pin, sync::{atomic::{AtomicBool, Ordering}, Arc, Mutex}, task::{Context, Poll, Wake, Waker}};

#[derive(Default)]
pub struct Pipe { pub buf: VecDeque<u8>, pub eof: bool, pub closed: bool, pub broken: bool, wakers: Vec<Waker>, k: u64 }
#[derive(Clone, Default)]
pub struct P(pub Arc<Mutex<Pipe>>);
impl P {
    pub fn put(&self, d: &[u8]) { let mut p = self.0.lock().unwrap(); p.buf.extend(d); p.wakers.drain(..).for_each(|w| w.wake()) }
    pub fn eof(&self) { let mut p = self.0.lock().unwrap(); p.eof = true; p.wakers.drain(..).for_each(|w| w.wake()) }
    pub fn all(&self) -> Vec<u8> { self.0.lock().unwrap().buf.drain(..).collect() }
    pub fn peek(&self) -> Vec<u8> { self.0.lock().unwrap().buf.iter().copied().collect() }
    pub fn closed(&self) -> bool { self.0.lock().unwrap().closed }
}
pub struct Rd(pub P);
pub struct Wr(pub P);
impl AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0 .0.lock().unwrap();
        if p.buf.is_empty() { if p.broken { return Poll::Ready(Err(io::ErrorKind::Other.into())) } if p.eof { return Poll::Ready(Ok(0)) } p.wakers.push(cx.waker().clone()); return Poll::Pending }
        // short reads now and then
        p.k = p.k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let lim = match (p.k >> 60) & 7 { 0 => 1, 1 => 3, 2 => 17, _ => usize::MAX };
        let n = b.len().min(p.buf.len()).min(lim);
        for x in &mut b[..n] { *x = p.buf.pop_front().unwrap() }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0 .0.lock().unwrap();
        if p.broken { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        p.k = p.k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = b.len().min(match (p.k >> 60) & 7 { 0 => 1, 1 => 5, _ => usize::MAX });
        p.buf.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
impl Drop for Wr { fn drop(&mut self) { self.0 .0.lock().unwrap().closed = true } }
impl Drop for Rd { fn drop(&mut self) { self.0 .0.lock().unwrap().closed = true } }

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Exists(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>),
    None(Vec<u8>, Vec<u8>),
    Password(Vec<u8>, Vec<u8>, Vec<u8>),
    Key { user: Vec<u8>, service: Vec<u8>, alg: Vec<u8>, key: Vec<u8>, sig: Vec<u8>, message: Vec<u8> },
    Spawn(u32, Option<Vec<u8>>),
}
#[derive(Clone, Default)]
pub struct Exit(pub Arc<Mutex<(Option<u32>, Vec<Waker>)>>);
impl Exit { pub fn set(&self, c: u32) { let mut e = self.0.lock().unwrap(); e.0 = Some(c); e.1.drain(..).for_each(|w| w.wake()) } }
impl Future for Exit { type Output = u32; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> { let mut e = self.0.lock().unwrap(); match e.0 { Some(c) => Poll::Ready(c), None => { e.1.push(cx.waker().clone()); Poll::Pending } } } }
#[derive(Clone, Default)]
pub struct Proc { pub ok: bool, pub has: [bool; 3], pub stdin: P, pub stdout: P, pub stderr: P, pub exit: Exit }
#[derive(Default)]
pub struct St { pub conns: VecDeque<(Rd, Wr)>, pub wake: Vec<Waker>, pub log: Vec<Ev>, pub exists: VecDeque<bool>, pub auth: VecDeque<bool>, pub users: u32, pub procs: VecDeque<Proc> }
#[derive(Clone, Default)]
pub struct Shared(pub Arc<Mutex<St>>);
struct Accept(Shared);
impl Future for Accept { type Output = (Rd, Wr); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<(Rd, Wr)> { let mut s = self.0 .0.lock().unwrap(); match s.conns.pop_front() { Some(c) => Poll::Ready(c), None => { s.wake.push(cx.waker().clone()); Poll::Pending } } } }
pub struct H(pub Shared);
pub struct Det(Rng);
thread_local! { pub static SEED: std::cell::Cell<u64> = std::cell::Cell::new(1) }
impl rand::RngCore for Det { fn next_u32(&mut self) -> u32 { self.0.next_u32() } fn next_u64(&mut self) -> u64 { self.0.next_u64() } fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill_bytes(d) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.0.fill_bytes(d); Ok(()) } }
impl rand::CryptoRng for Det {}
impl rand::SeedableRng for Det {
    type Seed = [u8; 8];
    fn from_seed(s: [u8; 8]) -> Self { Det(Rng(u64::from_le_bytes(s))) }
    fn from_entropy() -> Self { SEED.with(|s| { s.set(s.get().wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(77)); Det(Rng(s.get())) }) }
}
#[async_trait::async_trait]
impl ServerHandlers for H {
    type Sign = p256::NistP256;
    type Crypt = ChaCha20Poly1305;
    type Read = Rd;
    type Write = Wr;
    type User = u32;
    type Stdin = Wr;
    type Stdout = Rd;
    type Stderr = Rd;
    type Rng = Det;
    async fn accept(&self) -> (Rd, Wr) { Accept(self.0.clone()).await }
    async fn public_key_exists<'a>(&self, user: &'a [u8], service: &'a [u8], algorithm: &'a [u8], key: &'a [u8]) -> Result<(), ()> {
        let mut s = self.0 .0.lock().unwrap();
        s.log.push(Ev::Exists(user.into(), service.into(), algorithm.into(), key.into()));
        if s.exists.pop_front().unwrap_or(false) { Ok(()) } else { Err(()) }
    }
    async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<u32, ()> {
        let mut s = self.0 .0.lock().unwrap();
        let (u, v) = (user.to_vec(), service.to_vec());
        let e = match auth {
            Auth::None => Ev::None(u, v),
            Auth::Password(p) => Ev::Password(u, v, p.into()),
            Auth::PublicKey { algorithm, key, signature, message } => Ev::Key { user: u, service: v, alg: algorithm.into(), key: key.into(), sig: signature.into(), message: message.into() },
        };
        s.log.push(e);
        if s.auth.pop_front().unwrap_or(false) { s.users += 1; Ok(s.users) } else { Err(()) }
    }
    async fn spawn<'a>(&self, user: &'a mut u32, ty: SpawnType<'a>, _: &'a [u8]) -> Result<IoSet<Wr, Rd, Rd>, ()> {
        let mut s = self.0 .0.lock().unwrap();
        s.log.push(Ev::Spawn(*user, match ty { SpawnType::Shell => None, SpawnType::Exec { command } => Some(command.into()) }));
        let p = s.procs.pop_front().ok_or(())?;
        if !p.ok { return Err(()) }
        Ok(IoSet { stdin: p.has[0].then(|| Wr(p.stdin.clone())), stdout: p.has[1].then(|| Rd(p.stdout.clone())), stderr: p.has[2].then(|| Rd(p.stderr.clone())), wait: Box::pin(p.exit.clone()) })
    }
}
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
pub struct Sim { fut: Pin<Box<dyn Future<Output = ()>>>, flag: Arc<Flag>, pub sh: Shared, pub panicked: Option<String>, pub id: &'static [u8], pub key: Vec<u8> }
pub fn hostkey(r: &mut Rng) -> ecdsa::SigningKey<p256::NistP256> {
    thread_local! { static K: std::cell::RefCell<Vec<ecdsa::SigningKey<p256::NistP256>>> = Default::default() }
    K.with(|k| { let mut k = k.borrow_mut(); if k.is_empty() { for i in 0..3 { k.push(ecdsa::SigningKey::random(&mut Rng(i + 5))) } } k[r.below(3)].clone() })
}
impl Sim {
    pub fn new(r: &mut Rng) -> Self {
        SEED.with(|s| s.set(r.next()));
        let sh = Shared::default();
        let ids: &[&'static [u8]] = &[b"SSH-2.0-nora", b"SSH-2.0-x", b"SSH-2.0-nora_ssh example with a comment", b"SSH-2.0-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
        let id: &'static [u8] = *r.pick(ids);
        let k = hostkey(r);
        let key = k.verifying_key().to_encoded_point(false).as_bytes().to_vec();
        let srv = Server::new(Identifier::new(id).unwrap(), k, H(sh.clone()));
        Sim { fut: Box::pin(async move { srv.start().await; }), flag: Arc::new(Flag(AtomicBool::new(true))), sh, panicked: None, id, key }
    }
    pub fn run(&mut self) {
        if self.panicked.is_some() { return }
        let w = Waker::from(self.flag.clone());
        for i in 0.. {
            if !self.flag.0.swap(false, Ordering::SeqCst) { break }
            let fut = &mut self.fut;
            if let Err(p) = calm(|| { let _ = fut.as_mut().poll(&mut Context::from_waker(&w)); }) { self.panicked = Some(p); break }
            if i > 200000 { self.panicked = Some("the server does not come to rest (livelock)".into()); break }
        }
    }
    pub fn connect(this: &Arc<Mutex<Sim>>) -> Mem {
        let (a, b) = (P::default(), P::default());
        { let s = this.lock().unwrap(); let mut t = s.sh.0.lock().unwrap(); t.conns.push_back((Rd(a.clone()), Wr(b.clone()))); t.wake.drain(..).for_each(|w| w.wake()); }
        Mem { sim: this.clone(), a, b }
    }
}
// Shared between one thread's client and server only.
pub struct Mem { pub sim: Arc<Mutex<Sim>>, pub a: P, pub b: P }
impl Wire for Mem {
    fn put(&mut self, d: &[u8]) { self.a.put(d) }
    fn more(&mut self) -> Option<Vec<u8>> { self.sim.lock().unwrap().run(); let v = self.b.all(); if v.is_empty() { None } else { Some(v) } }
    fn closed(&mut self) -> bool { self.sim.lock().unwrap().run(); self.b.closed() }
}
