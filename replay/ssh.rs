//! Bounded search over nora_ssh: the real server, driven by a client of our own.
use crate::{arena::Arena, vp_client::*, vp_common::*, vp_model::*, vp_sim::*, sync::LocalMutex};
use nora_ssh_core::packet::BlockSize;
use std::{future::Future, pin::Pin, sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}}, task::{Context, Poll, Wake, Waker}};

type S = Arc<Mutex<Sim>>;
fn start(r: &mut Rng) -> (S, Peer<Mem>) {
    #[allow(clippy::arc_with_non_send_sync)]
    let s = Arc::new(Mutex::new(Sim::new(r)));
    let m = Sim::connect(&s);
    (s, Peer::new(m))
}
fn alive(s: &S, what: &str) -> Result<(), Fail> { match &s.lock().unwrap().panicked { Some(p) => fail("panic", format!("{}: the server panicked: {}", what, p)), None => Ok(()) } }
fn st<T>(s: &S, f: impl FnOnce(&mut St) -> T) -> T { let s = s.lock().unwrap(); let mut t = s.sh.0.lock().unwrap(); f(&mut t) }
/// Runs a conversation; a panic of the server explains any other oddity.
fn talk(r: &mut Rng, f: impl FnOnce(&mut Rng, &S, &mut Peer<Mem>) -> R) -> R {
    let (s, mut p) = start(r);
    let x = f(r, &s, &mut p);
    let what = match &x { Ok(o) => o.clone().unwrap_or_default(), Err(f) => f.detail.clone() };
    alive(&s, &what)?;
    x
}
fn poll_now<F: Future>(f: F) -> Option<F::Output> {
    struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
    let w = Waker::from(Arc::new(N));
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}
fn rd(d: &[u8], eof: bool) -> (P, Rd) { let p = P::default(); p.put(d); if eof { p.eof() } (p.clone(), Rd(p)) }

// ---------------------------------------------------------------- C09: cleartext packets from a stream
fn c09(r: &mut Rng, i: u64) -> R {
    let (bs, b) = [(BlockSize::B8, 8), (BlockSize::B16, 16), (BlockSize::B32, 32), (BlockSize::B64, 64)][(i % 4) as usize];
    let with_len = (i / 4) % 2 == 0;
    let cap = match r.below(4) { 0 => 5 + r.below(20), 1 => 5 + r.below(600), _ => 64 + r.below(300) };
    let len = match r.below(7) { 0 => r.u32(), 1 => r.below(12) as u32, 2 => (cap - 4 + r.below(3)) as u32 - 1, _ => { let k = b * r.below(cap / b + 2); (if with_len { k.saturating_sub(4) } else { k }) as u32 } };
    let body = if (len as usize) < 4096 { len as usize } else { r.below(3000) };
    let mut d = len.to_be_bytes().to_vec();
    d.extend(r.bytes(body));
    if d.len() > 4 { d[4] = match r.below(5) { 0 => len.wrapping_sub(1) as u8, 1 => len as u8, 2 => 0, _ => r.below((len as usize).min(200) + 2) as u8 } }
    let tail = r.below(9);
    d.extend(r.bytes(tail));
    let cut = if r.chance(8) { let k = r.below(d.len() + 1); d.truncate(k); true } else { false };
    let what = format!("stream {} into {} bytes, block {} with_len {}", hex(&d), cap, b, with_len);
    let (p, mut io) = rd(&d, true);
    let fill = r.next() as u8;
    let mut buf = vec![fill; cap];
    let got = match calm(|| poll_now(crate::packet::parse(&mut buf, &mut io, with_len, bs)).map(|x| x.map(|k| k.payload().to_vec()).map_err(|e| format!("{:?}", e)))) { Err(e) => return fail("panic", format!("{}: {}", what, e)), Ok(None) => return fail("hang", what), Ok(Some(g)) => g };
    let rest = p.all();
    let l = len as usize;
    let fits = d.len() >= 4 && l >= 8 && l <= cap - 4;
    let full = fits && d.len() >= 4 + l;
    let pad = if d.len() > 4 { d[4] as usize } else { 0 };
    let good = full && (l + if with_len { 4 } else { 0 }) % b == 0 && pad < l;
    match (got, good) {
        (Ok(g), true) => { if g[..] != d[5..4 + l - pad] { return fail("payload", format!("{}: payload {}", what, hex(&g))) } if rest[..] != d[4 + l..] { return fail("consumed", format!("{}: {} bytes left", what, rest.len())) } Ok(Some(what)) }
        (Ok(g), false) => fail("accepted", format!("{}: accepted with payload {}", what, hex(&g))),
        (Err(e), true) => fail("rejected", format!("{}: {}", what, e)),
        (Err(_), false) => { if d.len() >= 4 && !fits && rest.len() != d.len() - 4 { return fail("consumed", format!("{}: {} bytes left after a refused length", what, rest.len())) } if full && rest.len() != d.len() - 4 - l { return fail("consumed", format!("{}: {} bytes left after a refused packet", what, rest.len())) } Ok(if cut { None } else { Some(what) }) }
    }
}
// ---------------------------------------------------------------- C15: identification
fn c15(r: &mut Rng, i: u64) -> R {
    let mut d = vec![];
    let small = i % 3 == 0;
    if small { let n = r.below(40); d = (0..n).map(|_| *r.pick(b"S\r\nH-SSH20.x")).collect(); if r.chance(2) { d.extend(b"\r\n") } }
    else {
        if r.chance(2) { d.extend(preface(r)) } else { for _ in 0..r.below(4) { d.extend(*r.pick(&[&b"S"[..], b"SS", b"SSH", b"SSH_", b"\r", b"\n", b"\r\r\n", b"xSSH-", b"SSSH-2.0-no\r\n", b"\n\r", b" SSH-2.0-", b"SSH\r\n"])) } if r.chance(2) { d.extend(b"\r\n") } }
        match r.below(6) { 0 => d.extend(b"SSH-1.99-x\r\n"), 1 => { d.extend(b"SSH-"); let n = 4 + r.below(8); d.extend((0..n).map(|_| *r.pick(b"2.0-1SSH"))); d.extend(b"\r\n") } _ => {} }
        let n = match r.below(8) { 0 => 230 + r.below(40), 1 => 0, 2 => 243 + r.below(6), _ => { let k = r.below(60); r.size(k).min(600) } };
        let mut l = b"SSH-2.0-".to_vec();
        let odd = r.chance(3);
        l.extend((0..n).map(|_| if odd { *r.pick(b"\r\nab\r\r-") } else { 32 + r.below(95) as u8 }));
        d.extend(l);
        if !r.chance(6) { d.extend(b"\r\n") }
        let k = r.below(6);
        d.extend((0..k).map(|_| *r.pick(b"SSH-2.0-x\r\n")));
    }
    let what = format!("stream {:?}", String::from_utf8_lossy(&d));
    // reference
    let line = (0..d.len()).find(|&k| (k == 0 || k >= 2 && &d[k - 2..k] == b"\r\n") && d[k..].starts_with(b"SSH-"));
    enum W { Io, Bad, Long, Ok(usize, usize) }
    let want = match line {
        None => W::Io,
        Some(k) if d.len() < k + 8 => W::Io,
        Some(k) if !d[k + 4..].starts_with(b"2.0-") => W::Bad,
        Some(k) => match (k..d.len() - 1).find(|&e| &d[e..e + 2] == b"\r\n") { Some(e) if e - k <= 253 => W::Ok(k, e), Some(_) => W::Long, None => if d.len() - k >= 256 { W::Long } else { W::Io } },
    };
    let (p, mut io) = rd(&d, true);
    let mut buf = [0x55; 253];
    let got = match calm(|| poll_now(crate::identifier::parse(&mut io, &mut buf)).map(|x| x.map(|k| AsRef::<[u8]>::as_ref(&k).to_vec()).map_err(|e| format!("{:?}", e)))) { Err(e) => return fail("panic", format!("{}: {}", what, e)), Ok(None) => return fail("hang", what), Ok(Some(g)) => g };
    let rest = p.all();
    let short = line.map_or(true, |k| d.len() - k < 254);
    match (want, got) {
        (W::Ok(k, e), Ok(g)) => if g[..] != d[k..e] { fail("line", format!("{}: {:?}", what, String::from_utf8_lossy(&g))) } else if rest[..] != d[e + 2..] { fail("consumed", format!("{}: {} bytes left", what, rest.len())) } else { Ok(Some(what)) },
        (W::Ok(..), Err(e)) => fail("rejected", format!("{}: {}", what, e)),
        (_, Ok(g)) => fail("accepted", format!("{}: {:?}", what, String::from_utf8_lossy(&g))),
        (W::Bad, Err(e)) if !e.contains("IncompatibleProtocol") => fail("error-kind", format!("{}: {}", what, e)),
        (W::Long, Err(e)) if !e.contains("TooLong") && !e.contains("Io") => fail("error-kind", format!("{}: {}", what, e)),
        (W::Io, Err(e)) if !e.contains("Io") && !(e.contains("TooLong") && !short) => fail("error-kind", format!("{}: {}", what, e)),
        _ => Ok(Some(what)),
    }
}
fn c15_send(r: &mut Rng, _: u64) -> R {
    let mut d = r.blob();
    if r.chance(4) { let n = 250 + r.below(8); d = r.bytes(n) }
    if crate::Identifier::new(&d).is_some() != (d.len() <= 253) { return fail("length", format!("an identification of {} bytes", d.len())) }
    d.truncate(253);
    let p = P::default();
    let mut w = Wr(p.clone());
    let id = crate::Identifier::new(&d).unwrap();
    if calm(|| poll_now(crate::identifier::send(id, &mut w)).map(|x| x.is_ok())) != Ok(Some(true)) { return fail("send", hex(&d)) }
    let mut want = d.clone(); want.extend(b"\r\n");
    let g = p.all();
    if g != want { return fail("send", format!("{}: sent {}", hex(&d), hex(&g))) }
    Ok(Some(hex(&d)))
}
// ---------------------------------------------------------------- C14
fn low_order(r: &mut Rng) -> [u8; 32] {
    let mut z = [0u8; 32];
    match r.below(4) { 0 => {} 1 => z[0] = 1, 2 => { z = [0xff; 32]; z[0] = 0xec; z[31] = 0x7f } _ => { z = [0xff; 32]; z[0] = 0xed; z[31] = 0x7f } }
    z
}
fn c14(r: &mut Rng, i: u64) -> R {
    talk(r, |r, s, p| {
        let fault = (i % 12) as usize;
        let miss = if (1..=4).contains(&fault) { fault } else { 0 };
        let what = format!("handshake with fault {}", fault);
        let refused = |p: &mut Peer<Mem>, why: &str| -> R {
            if !p.w.closed() { return fail("goes-on", format!("{}: {}: the server does not hang up", what, why)) }
            let left = p.w.more();
            if left.map_or(false, |l| !l.is_empty()) || !p.inb.is_empty() { return fail("answers", format!("{}: {}: the server still answers", what, why)) }
            Ok(Some(format!("{} {}", what, why)))
        };
        let other = |r: &mut Rng, not: &str| -> Vec<u8> { loop { let k = r.below(KINDS.len()); let mut v = vec![]; gen_fields(KINDS[k].f, r, &mut v); let e = encode(&M { k, v }); if e.len() > 30000 || KINDS[k].name == not { continue } return e } };
        let broken = |r: &mut Rng, good: &[u8], name: &str| -> Vec<u8> { loop { let mut d = good.to_vec(); mutate(r, &mut d); if d.len() < 30000 && !decode(&d).map_or(false, |m| KINDS[m.k].name == name) { return d } } };
        if fault == 10 {
            let bad = *r.pick(&[&b"SSH-1.99-x\r\n"[..], b"SSH-2.1-x\r\n", b"SSH-3.0-x\r\n", b"SSH-2x0-\r\n"]);
            p.w.put(bad);
            p.line(); p.recv_clear()?;
            return refused(p, "wrong protocol version");
        }
        let h = if fault == 5 {
            p.w.put(b"SSH-2.0-me\r\n");
            let (Some(_), Some(_)) = (p.line(), p.recv_clear()?) else { return fail("silent", what) };
            let g = kexinit(r, 0);
            let d = if r.chance(2) { other(r, "kexinit") } else { broken(r, &g, "kexinit") };
            p.send_clear(r, &d);
            return refused(p, &format!("instead of kexinit {}", hex(&d)));
        } else { p.hello(r, miss)? };
        let Some(h) = h else { return fail("silent", what) };
        let want = s.lock().unwrap().id;
        if h.server_id != want { return fail("ident", format!("{}: the server identifies itself as {}", what, hex(&h.server_id))) }
        match decode(&h.server_kex) { Some(m) if KINDS[m.k].name == "kexinit" => for (j, n) in [(1, KEX), (2, HKA), (3, CIPHER), (4, CIPHER)] { if m.v[j] != V::S(n.into()) { return fail("offer", format!("{}: the server offers {}", what, show(&m))) } }, _ => return fail("kexinit", format!("{}: {}", what, hex(&h.server_kex))) }
        let what2 = format!("{} kexinit {}", what, hex(&h.client_kex));
        if miss > 0 {
            if r.chance(2) { let m = encode(&msg("ecdh-init", vec![s_(&r.bytes(32))])); p.send_clear(r, &m) }
            return refused(p, &format!("unsupported algorithms: {}", what2));
        }
        let good = encode(&msg("ecdh-init", vec![s_(&r.bytes(32))]));
        match fault {
            6 => { let d = if r.chance(2) { other(r, "ecdh-init") } else { broken(r, &good, "ecdh-init") }; p.send_clear(r, &d); return refused(p, &format!("instead of the client's key {}", hex(&d))) }
            7 => { let k = *r.pick(&[0usize, 1, 31, 33, 64]); let d = encode(&msg("ecdh-init", vec![s_(&r.bytes(k))])); p.send_clear(r, &d); return refused(p, &format!("a client key of {} bytes", k)) }
            8 => { let k = low_order(r); let d = encode(&msg("ecdh-init", vec![s_(&k)])); p.send_clear(r, &d); return refused(p, &format!("client key {}", hex(&k))) }
            _ => {}
        }
        if p.kex(r, &h)?.is_none() { return fail("dropped", format!("{}: no reply to the client's key", what2)) }
        let key = s.lock().unwrap().key.clone();
        if p.host_key != key { return fail("host-key", format!("{}: host key {}", what, hex(&p.host_key))) }
        if fault == 9 {
            p.recv_clear()?;
            let d = if r.chance(2) { other(r, "newkeys") } else { broken(r, &[21], "newkeys") };
            p.send_clear(r, &d);
            let f = p.w.closed();
            if !f { return fail("goes-on", format!("{}: the server does not hang up after {} instead of NEWKEYS", what, hex(&d))) }
            return Ok(Some(what));
        }
        let Some(()) = p.newkeys(r)? else { return fail("dropped", format!("{}: no NEWKEYS", what)) };
        let Some(()) = p.service(r)? else { return fail("keys", format!("{}: the first encrypted packet is not accepted", what2)) };
        // the session identifier the application sees
        let d = pk_signed(r, b"u", b"svc", b"alg", b"key", b"sig");
        let e = encode(&d);
        p.send(r, &e);
        p.drain()?;
        let log = st(s, |t| t.log.clone());
        match log.last() { Some(Ev::Key { message, .. }) if message[4..36] == p.sid => Ok(Some(what2)), e => fail("session-id", format!("{}: session identifier {} but the application sees {:?}", what, hex(&p.sid), e)) }
    })
}
fn s_(b: &[u8]) -> V { V::S(b.to_vec()) }
fn blob2(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = vec![]; string(&mut o, a); string(&mut o, b); o }
fn pk_signed(_: &mut Rng, u: &[u8], sv: &[u8], a: &[u8], k: &[u8], g: &[u8]) -> M { msg("auth-pks", vec![s_(u), s_(sv), s_(a), s_(&blob2(a, k)), s_(&blob2(a, g))]) }

// ---------------------------------------------------------------- C16: encrypted transport
fn handshake_raw(r: &mut Rng) -> Result<(crate::host::HostClient<crate::cipher::ChaCha20Poly1305>, Peer<Mem>), Fail> {
    // the same handshake, directly on the host
    let host = crate::host::Host::new(crate::Identifier::new(b"SSH-2.0-h").unwrap(), hostkey(r));
    let (a, b) = (P::default(), P::default());
    let (mut rdx, mut wrx) = (Rd(a.clone()), Wr(b.clone()));
    let mut rng = Rng(r.next());
    let (_s, mut p) = start(r);
    p.w.a = a; p.w.b = b;
    let mut fut: Pin<Box<dyn Future<Output = Result<crate::host::HostClient<crate::cipher::ChaCha20Poly1305>, crate::host::HandleNewClientError>> + '_>> = Box::pin(host.handle_new_client(&mut rdx, &mut wrx, &mut rng));
    struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let gone = || Fail { id: "handshake", detail: "the key exchange fails".into() };
    let mut done = None;
    if fut.as_mut().poll(&mut cx).is_ready() { return Err(gone()) }
    let h = p.hello(r, 0)?.ok_or_else(gone)?;
    if fut.as_mut().poll(&mut cx).is_ready() { return Err(gone()) }
    let sec: [u8; 32] = r.bytes(32).try_into().unwrap();
    let mut pk = x25519_dalek::x25519(sec, x25519_dalek::X25519_BASEPOINT_BYTES);
    if r.chance(4) { pk[31] |= 0x80 } // ignored in the secret, hashed as sent
    let m = encode(&M { k: kind("ecdh-init"), v: vec![s_(&pk)] });
    p.send_clear(r, &m);
    if fut.as_mut().poll(&mut cx).is_ready() { return Err(gone()) }
    let rep = p.recv_clear()?.ok_or_else(gone)?;
    p.reply(&h, &sec, &pk, &rep)?;
    p.newkeys(r)?.ok_or_else(gone)?;
    for _ in 0..3 { if done.is_none() { if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) { done = Some(x.map_err(|_| gone())?) } } }
    drop(fut);
    Ok((done.ok_or_else(gone)?, p))
}
fn c16(r: &mut Rng, _: u64) -> R {
    let (hc, mut p) = handshake_raw(r)?;
    if *hc.session_identifier() != p.sid { return fail("session-id", format!("{} instead of {}", hex(hc.session_identifier()), hex(&p.sid))) }
    let (mut out, mut inn) = hc.into_send_receive();
    let mut what = String::new();
    for step in 0..12 + r.below(20) {
        let n = match r.below(60) { 0..=9 => r.below(3), 10..=19 => 200 + r.below(400), 20 => 500 + r.below(33000), _ => { let k = r.below(80); let k = r.size(k).min(34000); if k > 1000 { k - r.below(50) } else { k } } };
        let pay = r.bytes(n);
        if r.chance(2) {
            // send
            let mut buf = vec![r.next() as u8; n + 5 + 11 + 16 + r.below(40)];
            let q = P::default();
            let mut w = Wr(q.clone());
            let broken = r.chance(12);
            q.0.lock().unwrap().broken = broken;
            let ok = match calm(|| poll_now(out.send(&mut buf, |b| { b[..n].copy_from_slice(&pay); n }, &mut w, &mut *r)).map(|x| x.is_ok())) { Err(e) => return fail("panic", format!("{}step {}: sending {}: {}", what, step, hex(&pay), e)), Ok(x) => x };
            if broken { if ok != Some(false) { return fail("lost", format!("{}step {}: sending to a broken stream succeeds", what, step)) } return Ok(Some(what)) }
            if ok != Some(true) { return fail("send", format!("{}step {}: sending {} fails", what, step, hex(&pay))) }
            p.inb = q.all();
            let total = p.inb.len();
            p.w.b = P::default();
            match p.recv()? { Some(g) if g == pay && p.inb.is_empty() => {} Some(g) => return fail("payload", format!("{}step {}: sent {} arrives as {} ({} of {} bytes unused)", what, step, hex(&pay), hex(&g), p.inb.len(), total)), None => return fail("send", format!("{}step {}: nothing sent for {}", what, step, hex(&pay))) }
            what += &format!("s{} ", n);
        } else {
            // receive
            let mode = r.below(8);
            let f = match mode { 0 => { let k = r.below(4); let mut d = r.bytes(8 * (1 + k) + 4); let l = (d.len() - 4) as u32; d[..4].copy_from_slice(&l.to_be_bytes()); if r.chance(2) { d[4] = r.below(40) as u8 } d } 
                1 => { let l = r.below(24) as u32; let mut d = l.to_be_bytes().to_vec(); d.extend(r.bytes(l as usize)); d }
                _ => frame(r, &pay, false) };
            let l = f.len() - 4;
            let good = l > 0 && l % 8 == 0 && (f[4] as usize) < l;
            let want = if good { f[5..f.len() - f[4] as usize].to_vec() } else { vec![] };
            let mut c = p.tx.seal(&f);
            let mut tampered = false;
            let mut announced = l;
            match r.below(12) { 0 => { let k = 4 + r.below(c.len() - 4); c[k] ^= 1 << r.below(8); tampered = true } 1 => { let k = r.below(4); c[k] ^= 1 << r.below(8); tampered = true; p.tx.n -= 1; announced = p.tx.length(&c); p.tx.n += 1 } 2 => { let k = r.below(c.len()); c.truncate(k); tampered = true } 3 => { let k = r.next(); p.tx.n -= 1; let m = p.tx.n; p.tx.n = k; c = p.tx.seal(&f); p.tx.n = m + 1; announced = { p.tx.n -= 1; let a = p.tx.length(&c); p.tx.n += 1; a }; tampered = k != m } _ => {} }
            let extra = if tampered { vec![] } else { let k = r.below(9); r.bytes(k) };
            let mut d = c.clone(); d.extend(&extra);
            let cap = match r.below(6) { 0 => 5 + r.below(d.len() + 8), 1 => (4 + announced.min(4000) + 16 + r.below(3)).saturating_sub(1).max(5), 2 | 3 => 4096.max(d.len() + r.below(20)), _ => 4096 };
            let (q, mut io) = rd(&d, true);
            let mut buf = vec![r.next() as u8; cap];
            let note = format!("{}step {}: packet {} ({}) in a buffer of {}", what, step, hex(&f), if tampered { "tampered" } else { "authentic" }, cap);
            let got = match calm(|| poll_now(inn.recv(&mut buf, &mut io)).map(|x| x.map(|g| g.to_vec()).map_err(|e| format!("{:?}", e)))) { Err(e) => return fail("panic", format!("{}: {}", note, e)), Ok(None) => return fail("hang", note), Ok(Some(g)) => g };
            let fits = 4 + announced + 16 <= cap;
            match got {
                Ok(g) => { if tampered || !good || !fits { return fail("accepted", format!("{}: delivered {}", note, hex(&g))) } if g != want { return fail("payload", format!("{}: delivered {}", note, hex(&g))) } if q.all() != extra { return fail("consumed", note) } }
                Err(e) => { if !tampered && good && fits { return fail("rejected", format!("{}: {}", note, e)) } return Ok(Some(what)) }
            }
            what += &format!("r{} ", n);
        }
    }
    Ok(Some(what))
}
// ---------------------------------------------------------------- C17
fn short(r: &mut Rng) -> Vec<u8> { let mut b = r.blob(); let n = match r.below(12) { 0 => 700, _ => if dict().new_nums.is_empty() { 40 } else { 9000 } }; b.truncate(n); b }
fn c17(r: &mut Rng, i: u64) -> R {
    talk(r, |r, s, p| {
        let h = p.hello(r, 0)?.ok_or(Fail { id: "dropped", detail: "handshake".into() })?;
        p.kex(r, &h)?; p.newkeys(r)?;
        let mut hist = String::new();
        let gone = |p: &mut Peer<Mem>, h: &str| -> R { if p.w.closed() { Ok(Some(h.into())) } else { fail("goes-on", format!("{}: the connection goes on", h)) } };
        if i % 16 == 0 {
            let mut x = r.pick(&[&b"ssh-connection"[..], b"ssh-userauth2", b"ssh-userautH", b"", b"ssh-userauth\0"]).to_vec();
            if r.chance(3) { x = r.blob(); x.truncate(500); if x == b"ssh-userauth" { x.push(1) } }
            p.send_msg(r, "service-request", vec![s_(&x)]);
            let m = p.drain()?;
            if !m.is_empty() { return fail("service", format!("service request {} is answered with {}", hex(&x), shows(&m))) }
            return gone(p, &format!("service request {}", hex(&x)));
        }
        if i % 16 == 1 {
            let m = loop { let x = gen(r, r.0); if KINDS[x.k].name != "service-request" && encode(&x).len() < 9000 { break x } };
            let e = encode(&m);
            p.send(r, &e);
            let v = p.drain()?;
            if !v.is_empty() || st(s, |t| !t.log.is_empty()) { return fail("no-service", format!("{} before any service request is answered with {}", show(&m), shows(&v))) }
            return gone(p, &show(&m));
        }
        if p.service(r)?.is_none() { return fail("service", "no answer to the service request".into()) }
        for _ in 0..1 + r.below(6) {
            let (user, svc) = (short(r), if r.chance(2) { b"ssh-connection".to_vec() } else { short(r) });
            let (yes, ex) = (r.chance(3), r.chance(2));
            st(s, |t| { t.log.clear(); t.auth = [yes].into(); t.exists = [ex].into() });
            let (alg, key, sig) = (if r.chance(2) { b"ssh-ed25519".to_vec() } else { short(r) }, short(r), short(r));
            let kb = blob2(&alg, &key);
            let bad = |r: &mut Rng, a: &[u8], b: &[u8]| -> Vec<u8> { loop { let mut d = blob2(a, b); match r.below(4) { 0 => { let mut x = a.to_vec(); if x.is_empty() || r.chance(2) { x.push(b'x') } else { let k = r.below(x.len()); x[k] ^= 1 << r.below(8) } d = blob2(&x, b) } 1 => d.push(r.next() as u8), 2 => { d.pop(); } _ => mutate(r, &mut d) }
                // not a blob of that algorithm anymore?
                let ok = (|| { let mut q = &d[..]; let x = tstr(&mut q)?; tstr(&mut q)?; (q.is_empty() && x == a).then_some(()) })().is_some();
                if !ok && d.len() < 9000 { return d } } };
            let mode = r.below(10);
            // (message, expected call, answer: Some(ok?) / None = the connection ends)
            let (m, call, ans): (M, Option<Ev>, Option<&str>) = match mode {
                0 => (msg("auth-none", vec![s_(&user), s_(&svc)]), Some(Ev::None(user.clone(), svc.clone())), Some("")),
                1 => { let pw = short(r); (msg("auth-pw", vec![s_(&user), s_(&svc), s_(&pw)]), Some(Ev::Password(user.clone(), svc.clone(), pw)), Some("")) }
                2 => (msg("auth-pk", vec![s_(&user), s_(&svc), s_(&alg), s_(&kb)]), Some(Ev::Exists(user.clone(), svc.clone(), alg.clone(), key.clone())), Some("pk")),
                3 => (msg("auth-pk", vec![s_(&user), s_(&svc), s_(&alg), s_(&bad(r, &alg, &key))]), None, None),
                4 | 5 => (pk_signed(r, &user, &svc, &alg, &key, &sig), Some(Ev::Key { user: user.clone(), service: svc.clone(), alg: alg.clone(), key: key.clone(), sig: sig.clone(), message: sign_data(&p.sid, &user, &svc, &alg, &kb) }), Some("")),
                6 => { let b = r.chance(2); (msg("auth-pks", vec![s_(&user), s_(&svc), s_(&alg), if b { s_(&bad(r, &alg, &key)) } else { s_(&kb) }, if b { s_(&blob2(&alg, &sig)) } else { s_(&bad(r, &alg, &sig)) }]), None, None) }
                7 => { let n = *r.pick(&["auth-renew", "auth-host", "auth-other"]); let mut v = vec![]; gen_fields(KINDS[kind(n)].f, r, &mut v); for x in &mut v { if let V::S(b) = x { if b.len() > 3000 { b.clear() } } } (msg(n, v), None, Some("no")) }
                8 => (loop { let x = gen(r, r.0); if !KINDS[x.k].name.starts_with("auth-") || ["auth-failure", "auth-success"].contains(&KINDS[x.k].name) { if encode(&x).len() < 9000 { break x } } }, None, None),
                _ => { let pw = short(r); (msg("auth-pw", vec![s_(&user), s_(&svc), s_(&pw)]), Some(Ev::Password(user.clone(), svc.clone(), pw)), Some("")) }
            };
            if KINDS[m.k].name == "auth-other" { if let V::S(b) = &m.v[2] { if METHODS.iter().any(|x| x.as_bytes() == &b[..]) { continue } } }
            let e = encode(&m);
            p.send(r, &e);
            let got = p.drain()?;
            let log = st(s, |t| t.log.clone());
            hist += &format!("{} (application says {}); ", show(&m), if mode == 2 { ex } else { yes });
            // data to be signed that does not fit the server's buffer may end the connection
            if let Some(Ev::Key { message, .. }) = &call { if message.len() > 1024 && log.is_empty() && got.is_empty() { return gone(p, &hist) } }
            if log != call.iter().cloned().collect::<Vec<_>>() { return fail("callback", format!("{}the application was asked {:?} instead of {:?}", hist, log, call)) }
            let fine = match (ans, &got[..]) {
                (None, []) => return gone(p, &hist),
                (Some(""), [m]) if yes => *m == msg("auth-success", vec![]),
                (Some("pk"), [m]) if ex => *m == msg("pk-ok", vec![s_(&alg), s_(&kb)]),
                (Some(_), [m]) if !(ans == Some("") && yes) => KINDS[m.k].name == "auth-failure" && m.v[1] == V::B(false),
                _ => false,
            };
            if !fine { return fail("answer", format!("{}the answer is {}", hist, shows(&got))) }
            if ans == Some("") && yes {
                // authenticated: a channel can be opened now
                p.send_msg(r, "open", vec![s_(b"session"), u(9), u(1000), u(1000)]);
                let m = p.drain()?;
                if m.len() != 1 || KINDS[m[0].k].name != "open-confirm" { return fail("client", format!("{}after success a channel open is answered with {}", hist, shows(&m))) }
                return Ok(Some(hist));
            }
            if p.w.closed() { return fail("dropped", format!("{}the server hung up", hist)) }
        }
        // not authenticated: no channels
        p.send_msg(r, "open", vec![s_(b"session"), u(9), u(1000), u(1000)]);
        let m = p.drain()?;
        if !m.is_empty() { return fail("unauthenticated", format!("{}a channel open without authentication is answered with {}", hist, shows(&m))) }
        gone(p, &hist)
    })
}
// ---------------------------------------------------------------- C20, C21
struct Ch { peer: u32, stdin: Option<usize> }
fn login(r: &mut Rng, s: &S, p: &mut Peer<Mem>) -> Result<(), Fail> {
    p.connect(r)?;
    st(s, |t| t.auth = [true].into());
    p.send_msg(r, "auth-pw", vec![s_(b"me"), s_(b"ssh-connection"), s_(b"pw")]);
    let m = p.drain()?;
    if m != [msg("auth-success", vec![])] { return fail("login", format!("answer to a good password: {}", shows(&m))) }
    st(s, |t| t.log.clear());
    Ok(())
}
fn cmp(hist: &str, got: &[M], want: &[M]) -> Result<(), Fail> { if got != want { fail("answer", format!("{}: the server sends [{}] instead of [{}]", hist, shows(got), shows(want))) } else { Ok(()) } }
fn session_data(k: &str, v: &[V]) -> Vec<u8> { let _ = k; let mut o = vec![]; for x in v { match x { V::S(b) => string(&mut o, b), V::U(n) => o.extend(n.to_be_bytes()), V::B(b) => o.push(*b as u8) } } o }
fn c20(r: &mut Rng, _: u64) -> R {
    talk(r, |r, s, p| {
        login(r, s, p)?;
        let mut ch: std::collections::BTreeMap<u32, Ch> = Default::default();
        let mut procs: Vec<(Proc, Vec<u8>, bool, bool)> = vec![]; // process, input so far, input open, input broken
        let mut hist = String::new();
        let steps = if r.chance(40) { 200 } else { let k = 4 + r.below(24); r.size(k).min(700) };
        for _ in 0..steps {
            let known = |r: &mut Rng, ch: &std::collections::BTreeMap<u32, Ch>| -> u32 { let k: Vec<u32> = ch.keys().copied().collect(); if k.is_empty() || r.chance(40) { r.u32() } else { *r.pick(&k) } };
            let op = if steps > 100 && r.chance(2) { 0 } else { r.below(16) };
            let id = known(r, &ch);
            let mut want = vec![];
            let mut log = vec![];
            let mut over = false;
            let m: M = match op {
                0..=2 => msg("open", vec![s_(*r.pick(&[&b"session"[..], b"session", b"session", b"x11"])), u(r.u32()), u(r.u32()), u(r.u32())]),
                3..=6 => {
                    let reply = r.chance(2);
                    let (ty, data): (Vec<u8>, Vec<u8>) = match r.below(7) { 0 | 1 => (b"shell".to_vec(), vec![]), 2 | 3 => { let c = short(r); (b"exec".to_vec(), session_data("", &[V::S(c)])) }
                        4 => { let c = short(r); let mut d = session_data("", &[V::S(c)]); mutate(r, &mut d); d.truncate(9000); (b"exec".to_vec(), d) }
                        5 => (b"shell".to_vec(), r.bytes(1)), _ => { let d = match r.below(3) { 0 => session_data("", &[s_(b"A"), s_(b"b")]), 1 => session_data("", &[u(80), u(24), u(0), u(0)]), _ => short(r) }; (r.pick(&[&b"env"[..], b"window-change", b"signal", b"pty-req", b"Shell", b"exec ", b"", b"subsystem"]).to_vec(), d) } };
                    let cmd: Option<Option<Vec<u8>>> = match &ty[..] { b"shell" => data.is_empty().then_some(None), b"exec" => { let mut q = &data[..]; tstr(&mut q).filter(|_| q.is_empty()).map(|c| Some(c.to_vec())) } _ => None };
                    let pr = Proc { ok: !r.chance(4), has: [!r.chance(4), !r.chance(3), !r.chance(3)], ..Default::default() };
                    pr.stdin.0.lock().unwrap().broken = r.chance(6);
                    st(s, |t| { t.procs.clear(); t.procs.push_back(pr.clone()) });
                    if let Some(c) = ch.get_mut(&id) {
                        let ok = cmd.is_some() && pr.ok;
                        if let Some(c) = &cmd { log.push(Ev::Spawn(1, c.clone())) }
                        if reply { want.push(msg(if ok { "success" } else { "failure" }, vec![u(c.peer)])) }
                        if ok { let b = pr.stdin.0.lock().unwrap().broken; procs.push((pr.clone(), vec![], pr.has[0], b)); c.stdin = pr.has[0].then(|| procs.len() - 1) }
                    } else { over = true }
                    msg("request", vec![u(id), V::S(ty), V::B(reply), V::S(data)])
                }
                7..=9 => { let d = if r.chance(6) { r.bytes(20000) } else { short(r) };
                    match ch.get_mut(&id) { None => over = true, Some(c) => if let Some(k) = c.stdin { let q = &mut procs[k]; if q.3 { if !d.is_empty() { q.2 = false; c.stdin = None } } else { q.1.extend(&d) } } }
                    msg("data", vec![u(id), s_(&d)]) }
                10 => { match ch.get_mut(&id) { None => over = true, Some(c) => if let Some(k) = c.stdin.take() { procs[k].2 = false } } msg("eof", vec![u(id)]) }
                11 => { if let Some(c) = ch.remove(&id) { if let Some(k) = c.stdin { procs[k].2 = false } } msg("close", vec![u(id)]) }
                12 => { let n = *r.pick(&["ignore", "debug", "unimplemented", "window", "ext-data", "open-confirm", "open-failure", "success", "failure"]); loop { let mut v = vec![]; gen_fields(KINDS[kind(n)].f, r, &mut v); let m = msg(n, v); if encode(&m).len() < 9000 { break m } } }
                13 if r.chance(6) => { over = true; let n = *r.pick(&["disconnect", "kexinit", "newkeys", "ecdh-init", "service-request", "service-accept", "auth-none", "auth-pw", "auth-success"]); loop { let mut v = vec![]; gen_fields(KINDS[kind(n)].f, r, &mut v); let m = msg(n, v); if encode(&m).len() < 9000 { break m } } }
                _ => msg("ignore", vec![s_(&short(r))]),
            };
            hist += &format!("{}; ", show(&m));
            if hist.len() > 3000 { hist = format!("..{}", hist.chars().skip(1500).collect::<String>()) }
            let e = encode(&m);
            p.send(r, &e);
            let got = p.drain()?;
            if op <= 2 {
                let (V::U(peer), V::U(win), V::U(max)) = (m.v[1].clone(), m.v[2].clone(), m.v[3].clone()) else { unreachable!() };
                match &got[..] { [g] if KINDS[g.k].name == "open-confirm" => {
                        let V::U(local) = g.v[1] else { unreachable!() };
                        if ch.contains_key(&local) { return fail("id", format!("{}: the new channel gets identifier {} which is in use", hist, local)) }
                        if *g != msg("open-confirm", vec![u(peer), u(local), u(win), u(max), s_(b"")]) { return fail("confirm", format!("{}: confirmed with {}", hist, show(g))) }
                        ch.insert(local, Ch { peer, stdin: None });
                    }
                    _ => return fail("confirm", format!("{}: a channel open is answered with [{}]", hist, shows(&got))) }
            } else { cmp(&hist, &got, &want)? }
            let l = st(s, |t| std::mem::take(&mut t.log));
            if l != log { return fail("spawn", format!("{}: started {:?} instead of {:?}", hist, l, log)) }
            if over != p.w.closed() { return fail("ends", format!("{}: the connection {}", hist, if over { "goes on" } else { "ended" })) }
            if over { break }
            for (k, (q, d, open, broken)) in procs.iter().enumerate() {
                let g = q.stdin.peek();
                if !broken && g != *d { return fail("stdin", format!("{}: process {} got {} ({} bytes) instead of {} ({} bytes)", hist, k, hex(&g), g.len(), hex(d), d.len())) }
                // an input that was replaced by a newer process is closed as well
                let held = *open && ch.values().any(|c| c.stdin == Some(k));
                if q.has[0] && held == q.stdin.closed() { return fail("stdin-end", format!("{}: the input of process {} is {}", hist, k, if held { "closed" } else { "still open" })) }
            }
        }
        Ok(Some(hist))
    })
}
fn c21(r: &mut Rng, _: u64) -> R {
    talk(r, |r, s, p| {
        login(r, s, p)?;
        let n = 1 + r.below(3);
        let mut hist = String::new();
        struct Pr { p: Proc, peer: u32, sent: [Vec<u8>; 2], open: [bool; 2], code: Option<u32>, data: Vec<u8>, eof: usize, close: usize, exits: Vec<u32>, eof_now: bool }
        let mut v: Vec<Pr> = vec![];
        for k in 0..n {
            let peer = r.u32();
            p.send_msg(r, "open", vec![s_(b"session"), u(peer), u(1 << 20), u(1 << 15)]);
            let m = p.drain()?;
            let [g] = &m[..] else { return fail("confirm", shows(&m)) };
            let local = g.v[1].clone();
            let has = [true, !r.chance(6), !r.chance(4)];
            let pr = Proc { ok: true, has, ..Default::default() };
            // output may be there before the request is answered
            let mut sent = [vec![], vec![]];
            for j in 0..2 { if r.chance(3) && has[1 + j] { let d = out(r, j); [&pr.stdout, &pr.stderr][j].put(&d); sent[j].extend(d) } }
            st(s, |t| { t.procs.clear(); t.procs.push_back(pr.clone()) });
            let reply = r.chance(2);
            p.send_msg(r, "request", vec![local, s_(b"exec"), V::B(reply), V::S(session_data("", &[s_(b"x")]))]);
            hist += &format!("process {} on peer channel {} {:?}; ", k, peer, has);
            v.push(Pr { p: pr, peer, sent, open: [has[1], has[2]], code: None, data: vec![], eof: 0, close: 0, exits: vec![], eof_now: false });
            let m = p.drain()?;
            let mut rep = 0;
            take_out(&hist, &m, &mut v.iter_mut().map(|x| (x.peer, &mut x.data, &mut x.eof, &mut x.close, &mut x.exits)).collect::<Vec<_>>(), &mut rep)?;
            if rep != reply as usize { return fail("reply", format!("{}: {} replies", hist, rep)) }
        }
        if (0..n).any(|a| (0..a).any(|b| v[a].peer == v[b].peer)) { return Ok(None) }
        for _ in 0..3 + r.below(14) {
            // several things happen before the server gets to run
            for _ in 0..1 + r.below(4) {
                let k = r.below(n);
                let x = &mut v[k];
                match r.below(8) {
                    0..=3 => { let j = r.below(2); if x.open[j] { let d = out(r, j); [&x.p.stdout, &x.p.stderr][j].put(&d); hist += &format!("{} writes {} bytes to {}; ", k, d.len(), ["stdout", "stderr"][j]); x.sent[j].extend(d) } }
                    4 => if x.open[0] { x.open[0] = false; x.p.stdout.eof(); hist += &format!("{} closes stdout; ", k) },
                    5 => if x.open[1] { x.open[1] = false; x.p.stderr.eof(); hist += &format!("{} closes stderr; ", k) },
                    6 => if x.code.is_none() { let c = r.u32(); x.code = Some(c); x.p.exit.set(c); hist += &format!("{} exits with {}; ", k, c) },
                    _ => { let d = r.bytes(3); p.send_msg(r, "ignore", vec![s_(&d)]) }
                }
            }
            let m = p.drain()?;
            let mut rep = 0;
            take_out(&hist, &m, &mut v.iter_mut().map(|x| (x.peer, &mut x.data, &mut x.eof, &mut x.close, &mut x.exits)).collect::<Vec<_>>(), &mut rep)?;
            if rep > 0 { return fail("reply", format!("{}: unasked replies", hist)) }
            if p.w.closed() { return fail("dropped", hist) }
            for (k, x) in v.iter_mut().enumerate() {
                let split: [Vec<u8>; 2] = [x.data.iter().copied().filter(|b| *b < 128).collect(), x.data.iter().copied().filter(|b| *b >= 128).collect()];
                for j in 0..2 { if split[j] != x.sent[j] { return fail("output", format!("{}: {} of process {}: {} sent as {} ({} and {} bytes)", hist, ["stdout", "stderr"][j], k, hex(&x.sent[j]), hex(&split[j]), x.sent[j].len(), split[j].len())) } }
                let done = x.p.has[1] && !x.open[0];
                if x.eof != done as usize || x.close != done as usize { return fail("eof", format!("{}: process {} {}, {} EOF and {} CLOSE messages", hist, k, if done { "closed stdout" } else { "has not closed stdout" }, x.eof, x.close)) }
                let e: Vec<u32> = x.code.into_iter().collect();
                if x.exits != e { return fail("exit", format!("{}: process {} exited with {:?}, reported {:?}", hist, k, x.code, x.exits)) }
            }
        }
        Ok(Some(hist))
    })
}
fn out(r: &mut Rng, j: usize) -> Vec<u8> { let n = match r.below(5) { 0 => 1, 1 => 256, 2 => 255 + r.below(4), 3 => r.below(1500), _ => { let k = 1 + r.below(60); r.size(k).min(40000) } }; r.bytes(n.max(1)).into_iter().map(|b| if j == 0 { b & 127 } else { b | 128 }).collect() }
type Sink<'a> = (u32, &'a mut Vec<u8>, &'a mut usize, &'a mut usize, &'a mut Vec<u32>);
fn take_out(hist: &str, m: &[M], v: &mut [Sink], rep: &mut usize) -> Result<(), Fail> {
    for x in m {
        let n = KINDS[x.k].name;
        let V::U(id) = x.v[0] else { return fail("message", format!("{}: unexpected {}", hist, show(x))) };
        let Some(t) = v.iter_mut().find(|t| t.0 == id) else { return fail("channel", format!("{}: {} for a channel nobody opened", hist, show(x))) };
        match (n, &x.v[..]) {
            ("success", _) => *rep += 1,
            ("data", [_, V::S(d)]) => { t.1.extend(d); if *t.2 > 0 && d.iter().any(|b| *b < 128) { return fail("after-eof", format!("{}: {} after EOF", hist, show(x))) } }
            ("eof", _) => { if *t.3 > 0 { return fail("order", format!("{}: EOF after CLOSE", hist)) } *t.2 += 1 }
            ("close", _) => { if *t.2 == 0 { return fail("order", format!("{}: CLOSE before EOF", hist)) } *t.3 += 1 }
            ("request", [_, V::S(ty), V::B(false), V::S(d)]) if ty == b"exit-status" && d.len() == 4 => t.4.push(u32::from_be_bytes(d[..].try_into().unwrap())),
            _ => return fail("message", format!("{}: unexpected {}", hist, show(x))),
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C22: nothing a peer does stops the server
fn c22(r: &mut Rng, i: u64) -> R {
    let (s, mut p) = start(r);
    let mut hist = String::new();
    let stage = [0, 1, 2, 3, 4, 5, 5, 5][(i % 8) as usize];
    let odd = |r: &mut Rng| -> Vec<u8> { let n = match r.below(4) { 0 => r.below(8), 1 => 2000, _ => r.below(200) }; match r.below(5) { 0 => r.bytes(n), 1 => { let mut d = (*r.pick(&[0u32, 1, 4, 5, 7, 8, 12, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 15, u32::MAX - 4, 65532, 65536, 35000])).to_be_bytes().to_vec(); d.extend(r.bytes(n)); d } 2 => { let mut x = encode(&gen(r, i)); mutate(r, &mut x); x.truncate(30000); x } _ => { let x = gen(r, i); encode(&x) } } };
    let go = |r: &mut Rng, p: &mut Peer<Mem>, hist: &mut String| -> Result<(), Fail> {
        if stage == 0 { let d = odd(r); *hist += &format!("bytes {}", hex(&d)); p.w.put(&d); if r.chance(2) { p.w.a.eof() } p.w.more(); return Ok(()) }
        let pre = if r.chance(8) { 1 } else { 0 };
        let Some(h) = p.hello(r, pre)? else { return Ok(()) };
        if stage == 1 { let d = odd(r); *hist += &format!("after kexinit {}", hex(&d)); if r.chance(2) { p.w.put(&d) } else if d.len() < 30000 { p.send_clear(r, &d) } p.w.more(); return Ok(()) }
        if p.kex(r, &h)?.is_none() { return Ok(()) }
        if stage == 2 { let d = odd(r); *hist += &format!("after the key exchange {}", hex(&d)); if r.chance(2) { p.w.put(&d) } else if d.len() < 30000 { p.send_clear(r, &d) } p.w.more(); return Ok(()) }
        if p.newkeys(r)?.is_none() { return Ok(()) }
        if stage >= 4 { if p.service(r)?.is_none() { return Ok(()) } }
        if stage >= 5 { st(&s, |t| t.auth = [true].into()); p.send_msg(r, "auth-none", vec![s_(b"u"), s_(b"s")]); p.recv()?; }
        let many = if stage == 5 && r.chance(3) { let k = 1 + r.below(20); r.size(k).clamp(1, 300) } else { 0 };
        for _ in 0..many { p.send_msg(r, "open", vec![s_(b"session"), u(9), u(1000), u(1000)]) }
        if many > 0 { *hist += &format!("{} channels opened; ", many); p.drain()?; }
        for _ in 0..1 + r.below(if many > 0 { 60 } else if stage == 5 { 12 } else { 6 }) {
            let d = if stage == 5 && !r.chance(9) { let t = r.pick(&["open", "open", "request", "request", "request", "data", "data", "eof", "close", "window", "ext-data"]).to_string(); let mut v = vec![]; gen_fields(KINDS[kind(&t)].f, r, &mut v); if t != "open" { v[0] = u(if many > 0 && !r.chance(4) { match r.magic() { Some(m) if m < many as u64 => m as u32, _ => r.below(many + 1) as u32 } } else if r.chance(6) { r.below(3) as u32 } else { 0 }) } if t == "request" { v[1] = s_(*r.pick(&[&b"exec"[..], b"shell", b"pty-req", b"env", b"signal"])); if r.chance(2) { let w = r.chance(2); v[1] = s_(if w { b"exec" } else { b"shell" }); v[3] = V::S(if w { session_data("", &[s_(b"x y")]) } else { vec![] }) } } encode(&msg(&t, v)) }
                else if stage == 4 && r.chance(2) {
                    // a well-formed login with a key, some of its fields long
                    let len = |r: &mut Rng| match r.below(5) { 0 => 800 + r.below(800), 1 => 6000 + r.below(2500), 2 => r.below(300), _ => r.below(16) };
                    let (user, service, alg, key, sig) = { let mut f = || { let n = len(r); r.bytes(n) }; (f(), f(), f(), f(), f()) };
                    let pair = |a: &[u8], b: &[u8]| { let mut o = vec![]; string(&mut o, a); string(&mut o, b); o };
                    let k = pair(&alg, &key);
                    let g = pair(&alg, &sig);
                    if r.chance(2) { encode(&msg("auth-pk", vec![V::S(user), V::S(service), V::S(alg), V::S(k)])) } else { encode(&msg("auth-pks", vec![V::S(user), V::S(service), V::S(alg), V::S(k), V::S(g)])) }
                }
                else { odd(r) };
            let pr = Proc { ok: !r.chance(3), has: [r.chance(2), r.chance(2), r.chance(2)], ..Default::default() };
            pr.stdin.0.lock().unwrap().broken = r.chance(3);
            if r.chance(3) { pr.stdout.eof() } else if r.chance(4) { let q = [&pr.stdout, &pr.stderr][r.below(2)]; q.0.lock().unwrap().broken = true }
            if r.chance(3) { pr.exit.set(r.u32()) }
            st(&s, |t| { t.procs.clear(); t.procs.push_back(pr); t.exists = [r.chance(2)].into() });
            *hist += &format!("message {}; ", hex(&d));
            if r.chance(if stage == 5 { 25 } else { 12 }) { let f = match r.below(3) { 0 => { let l = *r.pick(&[0u32, 1, 2, 4, 7, 8, 16, 34980, 34976, 34984, 34979, u32::MAX, u32::MAX - 15, u32::MAX - 20]); let mut f = l.to_be_bytes().to_vec(); let n = r.below(40); f.extend(r.bytes(n)); f } 1 => { let n = r.below(30); let mut f = (n as u32).to_be_bytes().to_vec(); f.extend(r.bytes(n)); f } _ => { let mut f = frame(r, &d[..d.len().min(30000)], false); let k = 4 + r.below(f.len() - 4); f[k] ^= 1 << r.below(8); f } }; let c = p.tx.seal(&f); p.w.put(&c); if r.chance(2) { p.w.a.eof() } }
            else if d.len() < 34900 { p.send(r, &d) }
            if r.chance(20) { p.w.b.0.lock().unwrap().broken = true }
            p.w.more();
            p.inb.clear();
        }
        Ok(())
    };
    let x = go(r, &mut p, &mut hist);
    alive(&s, &hist)?;
    if let Err(f) = x { if f.id == "panic" { return Err(f) } }
    // another client is still served
    let mut q = Peer::new(Sim::connect(&s));
    st(&s, |t| { t.auth = [true].into(); t.procs.clear() });
    let y = (|| { q.connect(r)?; q.send_msg(r, "auth-none", vec![s_(b"u"), s_(b"s")]); let m = q.drain()?; if m != [msg("auth-success", vec![])] { return fail("unserved", shows(&m)) } Ok(()) })();
    alive(&s, &hist)?;
    if let Err(f) = y { return fail("unserved", format!("{}: another client is not served anymore: {}", hist, f.detail)) }
    Ok(Some(hist))
}
// ---------------------------------------------------------------- C19
fn c19(r: &mut Rng, _: u64) -> R {
    let mut a = Arena::new();
    let mut m: std::collections::BTreeMap<u32, u64> = Default::default();
    let mut hist = String::new();
    let steps = if r.chance(60) { 300 + r.below(500) } else { let k = r.below(60); r.size(k).min(1200) };
    for _ in 0..steps {
        let known: Vec<u32> = m.keys().copied().collect();
        let id = if known.is_empty() || r.chance(4) { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, u32::MAX, u32::MAX - 1, 0x8000_0000]) } else { *r.pick(&known) };
        let x = r.next();
        let op = if steps > 60 && r.chance(2) { 0 } else { r.below(5) };
        let e = calm(|| match op {
            0 | 1 => { let k = a.insert(x); hist += &format!("insert={} ", k); if m.insert(k, x).is_some() { return fail("reused", format!("{}: identifier in use", hist)) } Ok(()) }
            2 => { hist += &format!("remove {} ", id); let g = a.remove(id); if g != m.remove(&id) { return fail("remove", format!("{}: {:?}", hist, g)) } Ok(()) }
            3 => { hist += &format!("get {} ", id); let g = a.get_mut(id).copied(); if g != m.get(&id).copied() { return fail("get", format!("{}: {:?}", hist, g)) } Ok(()) }
            _ => { hist += &format!("set {} ", id); if let Some(g) = a.get_mut(id) { *g = x } if let Some(g) = m.get_mut(&id) { *g = x } Ok(()) }
        });
        match e { Err(p) => return fail("panic", format!("{}: {}", hist, p)), Ok(e) => e? }
        for (k, v) in &m { if a.get_mut(*k) != Some(&mut v.clone()) { return fail("lost", format!("{}: channel {}", hist, k)) } }
        for k in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, id] { if !m.contains_key(&k) && a.get_mut(k).is_some() { return fail("ghost", format!("{}: channel {}", hist, k)) } }
    }
    Ok(Some(hist))
}
// ---------------------------------------------------------------- C23
struct Cnt(AtomicUsize);
impl Wake for Cnt { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn c23(r: &mut Rng, _: u64) -> R {
    let mx = LocalMutex::new(0u64);
    locks(r, || Box::pin(mx.lock()))
}
fn locks<G: std::ops::DerefMut<Target = u64>, F: Future<Output = G>>(r: &mut Rng, lock: impl Fn() -> Pin<Box<F>>) -> R {
    let n = if r.chance(4) { 2 + r.below(14) } else { let k = 2 + r.below(4); r.size(k).clamp(2, 70) };
    let mut hist = String::new();
    enum T<F, G> { Idle, Wait(F, usize), Held(G) }
    let c: Vec<Arc<Cnt>> = (0..n).map(|_| Arc::new(Cnt(AtomicUsize::new(0)))).collect();
    let mut t: Vec<T<Pin<Box<F>>, G>> = (0..n).map(|_| T::Idle).collect();
    let mut val = 0u64;
    let crowd = r.chance(3);
    let (steps, first) = (r.below(60), if crowd { n } else { 0 });
    for step in 0..first + steps {
        let k = if step < first { step } else { r.below(n) };
        let old = std::mem::replace(&mut t[k], T::Idle);
        t[k] = match old {
            T::Held(g) if r.chance(2) => {
                hist += &format!("{} unlocks; ", k);
                let waiting: Vec<(usize, usize)> = t.iter().enumerate().filter_map(|(j, x)| if let T::Wait(_, seen) = x { Some((j, *seen)) } else { None }).collect();
                if let Err(p) = calm(|| drop(g)) { return fail("panic", format!("{}: {}", hist, p)) }
                // someone who still waits must have been woken
                if !waiting.is_empty() && waiting.iter().all(|(j, seen)| c[*j].0.load(Ordering::SeqCst) <= *seen) { return fail("forgotten", format!("{}: none of the waiters {:?} is woken", hist, waiting.iter().map(|x| x.0).collect::<Vec<_>>())) }
                T::Idle
            }
            T::Held(mut g) => { if *g != val { return fail("value", hist) } val = r.next(); *g = val; T::Held(g) }
            x => {
                let mut f = match x { T::Wait(f, _) => { if r.chance(6) { hist += &format!("{} gives up; ", k); drop(f); continue } f } _ => lock() };
                let held = t.iter().any(|x| matches!(x, T::Held(_)));
                let seen = c[k].0.load(Ordering::SeqCst);
                let w = Waker::from(c[k].clone());
                hist += &format!("{} polls; ", k);
                match calm(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
                    Err(p) => return fail("panic", format!("{}: {}", hist, p)),
                    Ok(Poll::Ready(g)) => { if held { return fail("two-holders", hist) } if *g != val { return fail("value", hist) } T::Held(g) }
                    Ok(Poll::Pending) => { if !held { return fail("stuck", format!("{}: free but not granted", hist)) } T::Wait(f, seen) }
                }
            }
        };
    }
    // everyone who is woken goes on and lets go of the lock: nobody may be left waiting
    for _ in 0..4 * n + 4 {
        let mut idle = true;
        for k in 0..n {
            let old = std::mem::replace(&mut t[k], T::Idle);
            t[k] = match old {
                T::Held(g) => { idle = false; hist += &format!("{} unlocks; ", k); if let Err(p) = calm(|| drop(g)) { return fail("panic", format!("{}: {}", hist, p)) } T::Idle }
                T::Wait(mut f, seen) if c[k].0.load(Ordering::SeqCst) > seen => {
                    idle = false;
                    let seen = c[k].0.load(Ordering::SeqCst);
                    let w = Waker::from(c[k].clone());
                    hist += &format!("{} polls; ", k);
                    match calm(|| f.as_mut().poll(&mut Context::from_waker(&w))) { Err(p) => return fail("panic", format!("{}: {}", hist, p)), Ok(Poll::Ready(g)) => T::Held(g), Ok(Poll::Pending) => T::Wait(f, seen) }
                }
                x => x,
            };
        }
        if idle { break }
    }
    let left: Vec<usize> = t.iter().enumerate().filter_map(|(k, x)| matches!(x, T::Wait(..)).then_some(k)).collect();
    if !left.is_empty() { return fail("forgotten", format!("{}: {:?} wait for ever", hist, left)) }
    Ok(Some(hist))
}
fn table(p: &str) -> Vec<Test> {
    let t = |name, f| Test { name, f };
    match p {
        "C09" => vec![t("clear packets", c09)], "C14" => vec![t("handshake", c14)], "C11" => vec![t("transport", c16), t("handshake", c14)], "C15" => vec![t("identification", c15), t("send", c15_send), t("identification", c15)], "C16" => vec![t("transport", c16)], "C17" => vec![t("authentication", c17)],
        "C19" => vec![t("arena", c19)], "C20" => vec![t("channels", c20)], "C21" => vec![t("output", c21)], "C22" => vec![t("hostile peers", c22)], "C23" => vec![t("mutex", c23)],
        _ => vec![],
    }
}
pub fn main() { crate::vp_common::main(table) }
