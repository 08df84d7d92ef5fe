//! An SSH client of its own (RFC 4253, chacha20-poly1305@openssh.com), used to drive the server.
use crate::{vp_common::*, vp_model::*};
use sha2::{Digest, Sha256};

pub struct Ref { pub key: Vec<u8>, pub n: u64 }
impl Ref {
    fn stream(&self, half: usize, block: u64, d: &mut [u8]) {
        use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
        let mut c = chacha20::ChaCha20Legacy::new(chacha20::Key::from_slice(&self.key[32 * half..32 * half + 32]), chacha20::LegacyNonce::from_slice(&self.n.to_be_bytes()));
        c.seek(block * 64);
        c.apply_keystream(d);
    }
    fn tag(&self, d: &[u8]) -> [u8; 16] {
        use poly1305::universal_hash::NewUniversalHash;
        let mut k = [0; 32];
        self.stream(0, 0, &mut k);
        poly1305::Poly1305::new(poly1305::Key::from_slice(&k)).compute_unpadded(d).into_bytes().into()
    }
    pub fn seal(&mut self, d: &[u8]) -> Vec<u8> {
        let mut o = d.to_vec();
        self.stream(1, 0, &mut o[..4]);
        self.stream(0, 1, &mut o[4..]);
        let t = self.tag(&o);
        o.extend(t);
        self.n = self.n.wrapping_add(1);
        o
    }
    pub fn length(&self, b: &[u8]) -> usize { let mut l: [u8; 4] = b[..4].try_into().unwrap(); self.stream(1, 0, &mut l); u32::from_be_bytes(l) as usize }
    /// the packet (with its length) in `c`, if it is authentic
    pub fn open(&mut self, c: &[u8]) -> Option<Vec<u8>> {
        let (d, t) = c.split_at(c.len() - 16);
        if self.tag(d) != t { return None }
        let mut o = d.to_vec();
        self.stream(1, 0, &mut o[..4]);
        self.stream(0, 1, &mut o[4..]);
        self.n = self.n.wrapping_add(1);
        Some(o)
    }
}
pub fn kdf(secret: &[u8; 32], hash: &[u8; 32], x: u8, n: usize) -> Vec<u8> {
    let mut k = Vec::new();
    string(&mut k, &mpint(secret));
    let mut out = Vec::new();
    for i in 0..n {
        let mut h = Sha256::new();
        h.update(&k);
        h.update(hash);
        if i == 0 { h.update([x]); h.update(hash) } else { h.update(&out) }
        out.extend(h.finalize());
    }
    out
}
/// length, padding length, payload, padding
pub fn frame(r: &mut Rng, payload: &[u8], with_len: bool) -> Vec<u8> {
    let base = payload.len() + 1 + if with_len { 4 } else { 0 };
    let mut pad = 4 + (8 - (base + 4) % 8) % 8;
    if r.chance(4) { pad += 8 * r.below((255 - pad) / 8 + 1) }
    if !with_len { while 1 + payload.len() + pad < 8 { pad += 8 } } else { while 5 + payload.len() + pad < 16 { pad += 8 } }
    let mut o = ((payload.len() + 1 + pad) as u32).to_be_bytes().to_vec();
    o.push(pad as u8);
    o.extend(payload);
    o.extend(r.bytes(pad));
    o
}
pub trait Wire {
    fn put(&mut self, d: &[u8]);
    /// lets the other side work; what it sent since the last call; None: nothing, and nothing will come without more input
    fn more(&mut self) -> Option<Vec<u8>>;
    /// the other side has hung up
    fn closed(&mut self) -> bool;
}
pub struct Peer<W: Wire> { pub w: W, pub inb: Vec<u8>, pub tx: Ref, pub rx: Ref, pub sid: [u8; 32], pub host_key: Vec<u8> }
impl<W: Wire> Peer<W> {
    pub fn new(w: W) -> Self { Peer { w, inb: vec![], tx: Ref { key: vec![], n: 0 }, rx: Ref { key: vec![], n: 0 }, sid: [0; 32], host_key: vec![] } }
    pub fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        while self.inb.len() < n { let m = self.w.more()?; self.inb.extend(m) }
        let rest = self.inb.split_off(n);
        Some(std::mem::replace(&mut self.inb, rest))
    }
    pub fn line(&mut self) -> Option<Vec<u8>> { let mut l = vec![]; while !l.ends_with(b"\r\n") { l.push(self.take(1)?[0]); if l.len() > 4096 { return None } } l.truncate(l.len() - 2); Some(l) }
    fn unframe(d: &[u8], with_len: bool) -> Result<Vec<u8>, Fail> {
        let (len, pad) = (d.len() - 4, d[4] as usize);
        let sz = if with_len { d.len() } else { len };
        if sz % 8 != 0 || pad < 4 || pad >= len || d.len() < 16 && with_len { return fail("framing", format!("the server framed a packet of {} bytes with padding {}", len, pad)) }
        Ok(d[5..d.len() - pad].to_vec())
    }
    pub fn recv_clear(&mut self) -> Result<Option<Vec<u8>>, Fail> {
        let Some(l) = self.take(4) else { return Ok(None) };
        let n = u32::from_be_bytes(l[..].try_into().unwrap()) as usize;
        if n > 40000 || n < 2 { return fail("framing", format!("the server announces a packet of {} bytes", n)) }
        let Some(b) = self.take(n) else { return fail("framing", format!("the server announces {} bytes and sends fewer", n)) };
        Self::unframe(&[l, b].concat(), true).map(Some)
    }
    pub fn send_clear(&mut self, r: &mut Rng, p: &[u8]) { let f = frame(r, p, true); self.w.put(&f) }
    pub fn send(&mut self, r: &mut Rng, p: &[u8]) { let f = frame(r, p, false); let c = self.tx.seal(&f); self.w.put(&c) }
    pub fn send_msg(&mut self, r: &mut Rng, k: &str, v: Vec<V>) { let e = encode(&M { k: kind(k), v }); self.send(r, &e) }
    pub fn recv(&mut self) -> Result<Option<Vec<u8>>, Fail> {
        let Some(l) = self.take(4) else { return Ok(None) };
        let n = self.rx.length(&l);
        if n > 40000 || n < 2 { return fail("transport", format!("an encrypted packet with a length of {} (sequence number {})", n, self.rx.n)) }
        let Some(b) = self.take(n + 16) else { return fail("transport", format!("an encrypted packet of {} bytes, but fewer bytes follow", n)) };
        let Some(d) = self.rx.open(&[l, b].concat()) else { return fail("transport", format!("a packet that is not authentic for sequence number {}", self.rx.n)) };
        Self::unframe(&d, false).map(Some)
    }
    pub fn recv_msg(&mut self) -> Result<Option<M>, Fail> {
        match self.recv()? { None => Ok(None), Some(p) => decode(&p).map(Some).ok_or(Fail { id: "malformed", detail: format!("the server sent {} which is no message", hex(&p)) }) }
    }
    /// everything the server has to say now
    pub fn drain(&mut self) -> Result<Vec<M>, Fail> { let mut v = vec![]; while let Some(m) = self.recv_msg()? { v.push(m) } Ok(v) }
}
pub fn s(b: &[u8]) -> V { V::S(b.to_vec()) }
pub fn u(n: u32) -> V { V::U(n) }
pub fn msg(k: &str, v: Vec<V>) -> M { M { k: kind(k), v } }
pub fn show(x: &M) -> String { format!("{} {:?}", KINDS[x.k].name, x.v.iter().map(|v| match v { V::S(s) => hex(s), V::U(u) => u.to_string(), V::B(b) => b.to_string() }).collect::<Vec<_>>()) }
pub fn shows(x: &[M]) -> String { x.iter().map(show).collect::<Vec<_>>().join("; ") }

pub const KEX: &str = "curve25519-sha256";
pub const HKA: &str = "ecdsa-sha2-nistp256";
pub const CIPHER: &str = "chacha20-poly1305@openssh.com";
/// a name list; with `with`, `name` is in it
pub fn offer(r: &mut Rng, name: &str, with: bool) -> Vec<u8> {
    let near = [format!("{}x", name), name[..name.len() - 1].to_string(), name.to_uppercase(), format!("x{}", name), name[1..].to_string(), "diffie-hellman-group14-sha256".into(), "ssh-ed25519".into(), "aes128-ctr".into(), "none".into()];
    let n = r.below(4);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(&near).clone()).collect();
    if with { v.insert(r.below(n + 1), name.into()) }
    v.join(",").into_bytes()
}
pub struct Offer { pub miss: usize }
pub fn kexinit(r: &mut Rng, miss: usize) -> Vec<u8> {
    let mut l = vec![offer(r, KEX, miss != 1), offer(r, HKA, miss != 2), offer(r, CIPHER, miss != 3), offer(r, CIPHER, miss != 4)];
    // a name in another list does not count
    if miss > 0 && r.chance(2) { let x = [KEX, HKA, CIPHER, CIPHER][miss - 1]; let o = (miss + r.below(3)) % 4; if !(miss >= 3 && o >= 2) && !(o == miss - 1) { if !l[o].is_empty() { l[o].push(b',') } l[o].extend(x.bytes()) } }
    let mut v = vec![V::S(r.bytes(16))];
    v.extend(l.into_iter().map(V::S));
    for _ in 0..6 { v.push(V::S(if r.chance(2) { b"none".to_vec() } else { names(r) })) }
    v.push(V::B(false));
    encode(&M { k: kind("kexinit"), v })
}
pub fn ident(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) { 0 => 0, 1 => 245, 2 => 244, _ => r.below(40) };
    let mut v = b"SSH-2.0-".to_vec();
    let odd = r.chance(4);
    v.extend((0..n).map(|_| if odd { *r.pick(b"a \rS-\n\x00\xff") } else { 33 + r.below(94) as u8 }));
    // no CR LF inside, and no CR at the end (it would join the line end)
    for i in 1..v.len() { if v[i] == b'\n' && v[i - 1] == b'\r' { v[i] = b'x' } }
    v
}
pub fn preface(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    if r.chance(2) { for _ in 0..r.below(4) { let n = r.below(60); let l: Vec<u8> = (0..n).map(|_| *r.pick(b"SSH-2.0 \rab\n\xff")).collect();
        let mut l = l; for i in 1..l.len() { if l[i] == b'\n' && l[i - 1] == b'\r' { l[i] = b'z' } }
        if l.starts_with(b"SSH-") { l[0] = b's' } o.extend(l); o.extend(b"\r\n") } }
    o
}
pub struct Hello { pub server_id: Vec<u8>, pub server_kex: Vec<u8>, pub client_id: Vec<u8>, pub client_kex: Vec<u8> }
impl<W: Wire> Peer<W> {
    /// identification and algorithm negotiation
    pub fn hello(&mut self, r: &mut Rng, miss: usize) -> Result<Option<Hello>, Fail> {
        let client_id = ident(r);
        let mut o = preface(r);
        o.extend(&client_id);
        o.extend(b"\r\n");
        self.w.put(&o);
        let Some(server_id) = self.line() else { return Ok(None) };
        let Some(server_kex) = self.recv_clear()? else { return Ok(None) };
        let client_kex = kexinit(r, miss);
        self.send_clear(r, &client_kex);
        Ok(Some(Hello { server_id, server_kex, client_id, client_kex }))
    }
    /// ephemeral keys; checks the reply and derives the keys
    pub fn kex(&mut self, r: &mut Rng, h: &Hello) -> Result<Option<()>, Fail> {
        let sec: [u8; 32] = r.bytes(32).try_into().unwrap();
        let mut pk = x25519_dalek::x25519(sec, x25519_dalek::X25519_BASEPOINT_BYTES);
        if r.chance(4) { pk[31] |= 0x80 } // ignored in the secret, hashed as sent
        let m = encode(&M { k: kind("ecdh-init"), v: vec![s(&pk)] });
        self.send_clear(r, &m);
        let Some(p) = self.recv_clear()? else { return Ok(None) };
        self.reply(h, &sec, &pk, &p)?;
        Ok(Some(()))
    }
    pub fn reply(&mut self, h: &Hello, sec: &[u8; 32], pk: &[u8; 32], p: &[u8]) -> Result<(), Fail> {
        let Some(m) = decode(p).filter(|m| KINDS[m.k].name == "ecdh-reply") else { return fail("reply", format!("the reply to the client's key is {}", hex(p))) };
        let f: Vec<&[u8]> = m.v.iter().map(|v| if let V::S(s) = v { &s[..] } else { panic!() }).collect();
        if f[0] != HKA.as_bytes() || f[1] != b"nistp256" || f[4] != HKA.as_bytes() { return fail("reply-names", format!("names in the reply: {} {} {}", hex(f[0]), hex(f[1]), hex(f[4]))) }
        let Ok(qs) = <[u8; 32]>::try_from(f[3]) else { return fail("reply-key", format!("server ephemeral key {}", hex(f[3]))) };
        let k = x25519_dalek::x25519(*sec, qs);
        let mut w = Vec::new();
        for x in [&h.client_id, &h.server_id, &h.client_kex, &h.server_kex] { string(&mut w, x) }
        let mut kb = Vec::new();
        for x in [f[0], f[1], f[2]] { string(&mut kb, x) }
        string(&mut w, &kb);
        string(&mut w, pk);
        string(&mut w, &qs);
        string(&mut w, &mpint(&k));
        let hash: [u8; 32] = Sha256::digest(&w).into();
        // the signature
        use ecdsa::signature::Verifier;
        let pad = |x: &[u8]| -> Option<[u8; 32]> { let x: Vec<u8> = x.iter().copied().skip_while(|b| *b == 0).collect(); if x.len() > 32 { return None } let mut o = [0; 32]; o[32 - x.len()..].copy_from_slice(&x); Some(o) };
        let ok = (|| { let key = p256::ecdsa::VerifyingKey::from_sec1_bytes(f[2]).ok()?; let sig = p256::ecdsa::Signature::from_scalars(pad(f[5])?, pad(f[6])?).ok()?; key.verify(&hash, &sig).ok() })().is_some();
        if !ok { return fail("signature", format!("the signature in {} does not verify for exchange hash {}", hex(p), hex(&hash))) }
        if f[2].first() != Some(&4) { return fail("reply-key", format!("host key {} is not an uncompressed point", hex(f[2]))) }
        self.host_key = f[2].to_vec();
        self.sid = hash;
        self.tx = Ref { key: kdf(&k, &hash, b'C', 2), n: 3 };
        self.rx = Ref { key: kdf(&k, &hash, b'D', 2), n: 3 };
        Ok(())
    }
    pub fn newkeys(&mut self, r: &mut Rng) -> Result<Option<()>, Fail> {
        let Some(p) = self.recv_clear()? else { return Ok(None) };
        if p != [21] { return fail("newkeys", format!("{} instead of NEWKEYS", hex(&p))) }
        self.send_clear(r, &[21]);
        Ok(Some(()))
    }
    pub fn service(&mut self, r: &mut Rng) -> Result<Option<()>, Fail> {
        self.send_msg(r, "service-request", vec![s(b"ssh-userauth")]);
        let Some(m) = self.recv_msg()? else { return Ok(None) };
        if m != msg("service-accept", vec![s(b"ssh-userauth")]) { return fail("service", format!("the answer to the service request is {}", show(&m))) }
        Ok(Some(()))
    }
    /// the whole key exchange and service request, which must work
    pub fn connect(&mut self, r: &mut Rng) -> Result<(), Fail> {
        let gone = |w: &str| Fail { id: "dropped", detail: format!("the server hung up or fell silent: {}", w) };
        let h = self.hello(r, 0)?.ok_or(gone("before the end of the algorithm negotiation"))?;
        self.kex(r, &h)?.ok_or(gone("instead of a key exchange reply"))?;
        self.newkeys(r)?.ok_or(gone("instead of NEWKEYS"))?;
        self.service(r)?.ok_or(gone("instead of accepting ssh-userauth"))
    }
}
/// RFC 4252 section 7
pub fn sign_data(sid: &[u8], user: &[u8], service: &[u8], alg: &[u8], blob: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    string(&mut o, sid);
    o.push(50);
    for x in [user, service, b"publickey"] { string(&mut o, x) }
    o.push(1);
    string(&mut o, alg);
    string(&mut o, blob);
    o
}
