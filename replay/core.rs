//! Bounded search over nora_ssh_core, against the references in model.rs.
#[path = "common.rs"] mod vp_common;
#[path = "model.rs"] mod vp_model;
use vp_common::*;
use vp_model::*;
use digest::Digest;
use nora_ssh_core::{cipher::{ChaCha20Poly1305, Cipher}, data::{self, NameList}, identifier::Identifier, key_exchange::{Direction, KeyMaterial},
    message::{channel::session::{SessionRequest, Signal}, key_exchange::ecdh, userauth::format_sign_data, Message}, packet::{BlockSize, Packet}};
use sha2::Sha256;


fn show(x: &M) -> String { format!("{} {:?}", KINDS[x.k].name, x.v.iter().map(|v| match v { V::S(s) => hex(s), V::U(u) => u.to_string(), V::B(b) => b.to_string() }).collect::<Vec<_>>()) }
fn norm(x: &M) -> M { let mut x = x.clone(); if KINDS[x.k].name == "ecdh-reply" { let n = x.v.len(); for v in &mut x.v[n - 2..] { if let V::S(s) = v { *s = mpint(s) } } } x }
/// Enumerates small shapes first, then random values.
fn msg(r: &mut Rng, i: u64) -> M {
    let mut x = gen(r, i);
    if (i / KINDS.len() as u64) % 4 == 0 { for v in &mut x.v { match v { V::S(s) if KINDS[x.k].name != "kexinit" => { s.truncate(r.below(4)); while std::str::from_utf8(s).is_err() && !s.is_ascii() { s.pop(); } } V::U(u) => *u = r.below(8) as u32, _ => {} } } 
        if KINDS[x.k].name == "auth-failure" { x.v[0] = V::S(names(r)) } }
    x
}
fn serialize(x: &M, buf: &mut [u8]) -> Result<Option<(usize, usize)>, String> { let m = build(x); calm(|| m.serialize(buf).map(|(a, b)| (a.len(), b.len()))) }
fn c02(r: &mut Rng, i: u64) -> R {
    let x = msg(r, i);
    let want = encode(&x);
    let n = want.len();
    let extra = *r.pick(&[0, 0, 1, 2, 3, 7, 64]);
    let fill = r.next() as u8;
    let mut buf = vec![fill; n + extra];
    match serialize(&x, &mut buf) {
        Err(p) => return fail("panic", format!("serialising {} into {} bytes panicked: {}", show(&x), n + extra, p)),
        Ok(None) => return fail("refused", format!("serialising {} ({} bytes) into {} bytes fails", show(&x), n, n + extra)),
        Ok(Some((a, b))) => {
            if (a, b) != (n, extra) { return fail("split", format!("{}: split {}/{} instead of {}/{}", show(&x), a, b, n, extra)) }
            if buf[..n] != want[..] { return fail("bytes", format!("{}: wrote {} instead of {}", show(&x), hex(&buf[..n]), hex(&want))) }
            if buf[n..].iter().any(|b| *b != fill) { return fail("overrun", format!("{}: bytes behind the encoding changed: {}", show(&x), hex(&buf[n..]))) }
        }
    }
    for k in [n - 1, r.below(n), r.below(n)] {
        match serialize(&x, &mut vec![0; k]) {
            Err(p) => return fail("panic", format!("serialising {} into {} bytes panicked: {}", show(&x), k, p)),
            Ok(Some(_)) => return fail("short", format!("serialising {} ({} bytes) into {} bytes succeeds", show(&x), n, k)),
            Ok(None) => {}
        }
    }
    Ok(Some(show(&x)))
}
fn c01(r: &mut Rng, i: u64) -> R {
    let x = msg(r, i);
    let mut buf = vec![0; encode(&x).len() + r.below(3) * 17 + 16];
    let m = build(&x);
    let n = match calm(|| m.serialize(&mut buf).map(|p| p.0.len())) { Ok(Some(n)) => n, Ok(None) => return fail("refused", format!("{} is not serialised", show(&x))), Err(p) => return fail("panic", format!("{}: {}", show(&x), p)) };
    match calm(|| Message::parse(&buf[..n]).map(own)) {
        Err(p) => fail("panic", format!("parsing back {} panicked: {}", show(&x), p)),
        Ok(Err(e)) => fail("rejected", format!("{} serialises to {} which does not parse: {:?}", show(&x), hex(&buf[..n]), e)),
        Ok(Ok(y)) if y != norm(&x) => fail("differs", format!("{} comes back as {}", show(&x), show(&y))),
        _ => Ok(Some(show(&x))),
    }
}
/// a character or byte more, somewhere
fn odd(r: &mut Rng, s: &mut Vec<u8>) {
    let x: &[u8] = *r.pick(&["\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\x80", b"\xff", b"\xc3", b",", b",,", b"\0", b"\n", b" "]);
    let k = match r.below(4) { 0 => 0, 1 => s.len(), _ => r.below(s.len() + 1) };
    s.splice(k..k, x.iter().copied());
}
fn raw(r: &mut Rng, i: u64) -> Vec<u8> {
    let mut x = msg(r, i);
    // a field that is not quite what it should be
    if r.chance(4) { let n = x.v.len(); if n > 0 { let k = r.below(n); if let V::S(s) = &mut x.v[k] { if s.len() != 16 { odd(r, s) } } } }
    let mut d = encode(&x);
    match r.below(8) { 0 | 2 | 3 => {} 1 => { let n = r.below(40); d = r.bytes(n); if n > 0 { d[0] = r.pick(KINDS).no } } _ => mutate(r, &mut d) }
    d
}
fn c03(r: &mut Rng, i: u64) -> R {
    let d = raw(r, i);
    match calm(|| Message::parse(&d).map(|m| { own(m); }).is_ok()) { Err(p) => fail("panic", format!("Message::parse({}) panicked: {}", hex(&d), p)), Ok(_) => Ok(Some(hex(&d))) }
}
fn c03_prefix(r: &mut Rng, i: u64) -> R {
    // every prefix of a valid encoding, every first byte
    let x = msg(r, i);
    let d = encode(&x);
    for k in 0..=d.len().min(300) { if let Err(p) = calm(|| Message::parse(&d[..k]).is_ok()) { return fail("panic", format!("Message::parse({}) panicked: {}", hex(&d[..k]), p)) } }
    Ok(Some(hex(&d)))
}
fn c03_data(r: &mut Rng, _: u64) -> R {
    let mut d = if r.chance(2) { let n = r.below(12); r.bytes(n) } else { let mut o = Vec::new(); string(&mut o, &r.blob()); o };
    if r.chance(2) && !d.is_empty() { mutate(r, &mut d) }
    let mut rest = &d[..];
    let want = tstr(&mut rest).map(|s| (s.to_vec(), rest.to_vec()));
    match calm(|| data::parse_string(&d).map(|(a, b)| (a.to_vec(), b.to_vec()))) {
        Err(p) => return fail("panic", format!("parse_string({}) panicked: {}", hex(&d), p)),
        Ok(g) if g != want => return fail("string", format!("parse_string({}) gives {:?}", hex(&d), g.is_some())),
        _ => {}
    }
    if let Err(p) = calm(|| NameList::try_from(&d[..]).map(|l| l.iter().count()).is_ok()) { return fail("panic", format!("NameList::try_from({}) panicked: {}", hex(&d), p)) }
    let ty = sess_ty(r);
    if let Err(p) = calm(|| SessionRequest::parse(&ty, &d).is_ok()) { return fail("panic", format!("SessionRequest::parse({}, {}) panicked: {}", hex(&ty), hex(&d), p)) }
    Ok(Some(hex(&d)))
}
fn c04(r: &mut Rng, i: u64) -> R {
    let d = raw(r, i);
    let want = decode(&d);
    match (calm(|| Message::parse(&d).map(own)), want) {
        (Err(p), _) => fail("panic", format!("Message::parse({}) panicked: {}", hex(&d), p)),
        (Ok(Ok(g)), None) => fail("accepted", format!("{} is no encoding but parses as {}", hex(&d), show(&g))),
        (Ok(Err(e)), Some(w)) => fail("rejected", format!("{} encodes {} but is rejected: {:?}", hex(&d), show(&w), e)),
        (Ok(Ok(g)), Some(w)) if g != w => fail("fields", format!("{} encodes {} but parses as {}", hex(&d), show(&w), show(&g))),
        (Ok(Ok(g)), Some(_)) => Ok(Some(show(&g))),
        _ => Ok(None),
    }
}
// ---- session requests
static SESS: &[(&str, &[T])] = &[
    ("pty-req", &[T::Str, T::U32, T::U32, T::U32, T::U32, T::Str]), ("x11-req", &[T::Bool, T::Str, T::Str, T::U32]), ("env", &[T::Str, T::Str]), ("shell", &[]), ("exec", &[T::Str]), ("subsystem", &[T::Str]),
    ("window-change", &[T::U32, T::U32, T::U32, T::U32]), ("xon-xoff", &[T::Bool]), ("signal", &[T::Str]), ("exit-status", &[T::U32]), ("exit-signal", &[T::Str, T::Bool, T::Utf8, T::Str])];
static SIG: &[(&str, Signal<'static>)] = &[("ABRT", Signal::Abort), ("ALRM", Signal::Alarm), ("FPE", Signal::FloatingPointException), ("HUP", Signal::Hangup), ("ILL", Signal::Illegal), ("INT", Signal::Interrupt), ("KILL", Signal::Kill),
    ("PIPE", Signal::Pipe), ("QUIT", Signal::Quit), ("SEGV", Signal::SegmentationFault), ("TERM", Signal::Terminate), ("USR1", Signal::User1), ("USR2", Signal::User2)];
fn sess_ty(r: &mut Rng) -> Vec<u8> {
    let mut t = r.pick(SESS).0.as_bytes().to_vec();
    match r.below(8) { 0 => { t.pop(); } 1 => t.push(b' '), 2 => t = r.blob(), 3 => { let i = r.below(t.len()); t[i] ^= 0x20 } _ => {} }
    t
}
fn sig(s: &[u8]) -> Signal<'_> { SIG.iter().find(|x| x.0.as_bytes() == s).map(|x| x.1).unwrap_or(Signal::Other(s)) }
fn unsig(s: Signal<'_>) -> Vec<u8> { if let Signal::Other(o) = s { if SIG.iter().any(|x| x.0.as_bytes() == o) { panic!("named signal returned as Other") } return o.to_vec() } SIG.iter().find(|x| x.1 == s).unwrap().0.as_bytes().to_vec() }
fn s_build<'a>(k: usize, v: &'a [V]) -> SessionRequest<'a> {
    let s = |i: usize| match &v[i] { V::S(s) => &s[..], _ => panic!() };
    let u = |i: usize| match v[i] { V::U(s) => s, _ => panic!() };
    let b = |i: usize| match v[i] { V::B(s) => s, _ => panic!() };
    match SESS[k].0 {
        "pty-req" => SessionRequest::Pty { terminal: s(0), char_width: u(1), char_height: u(2), pixel_width: u(3), pixel_height: u(4), modes: s(5) },
        "x11-req" => SessionRequest::X11 { single_connection: b(0), auth_protocol: s(1), auth_cookie: s(2), screen: u(3) },
        "env" => SessionRequest::Env { name: s(0), value: s(1) },
        "shell" => SessionRequest::Shell,
        "exec" => SessionRequest::Exec { command: s(0) },
        "subsystem" => SessionRequest::Subsystem { name: s(0) },
        "window-change" => SessionRequest::WindowChange { char_width: u(0), char_height: u(1), pixel_width: u(2), pixel_height: u(3) },
        "xon-xoff" => SessionRequest::XonXoff { on: b(0) },
        "signal" => SessionRequest::Signal { signal: sig(s(0)) },
        "exit-status" => SessionRequest::ExitStatus { status: u(0) },
        _ => SessionRequest::ExitSignal { signal: sig(s(0)), core_dumped: b(1), message: std::str::from_utf8(s(2)).unwrap(), language: s(3) },
    }
}
fn s_own(x: SessionRequest<'_>) -> (usize, Vec<V>) {
    use V::{B, U};
    let s = |b: &[u8]| V::S(b.to_vec());
    let (k, v) = match x {
        SessionRequest::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => ("pty-req", vec![s(terminal), U(char_width), U(char_height), U(pixel_width), U(pixel_height), s(modes)]),
        SessionRequest::X11 { single_connection, auth_protocol, auth_cookie, screen } => ("x11-req", vec![B(single_connection), s(auth_protocol), s(auth_cookie), U(screen)]),
        SessionRequest::Env { name, value } => ("env", vec![s(name), s(value)]),
        SessionRequest::Shell => ("shell", vec![]),
        SessionRequest::Exec { command } => ("exec", vec![s(command)]),
        SessionRequest::Subsystem { name } => ("subsystem", vec![s(name)]),
        SessionRequest::WindowChange { char_width, char_height, pixel_width, pixel_height } => ("window-change", vec![U(char_width), U(char_height), U(pixel_width), U(pixel_height)]),
        SessionRequest::XonXoff { on } => ("xon-xoff", vec![B(on)]),
        SessionRequest::Signal { signal } => ("signal", vec![V::S(unsig(signal))]),
        SessionRequest::ExitStatus { status } => ("exit-status", vec![U(status)]),
        SessionRequest::ExitSignal { signal, core_dumped, message, language } => ("exit-signal", vec![V::S(unsig(signal)), B(core_dumped), s(message.as_bytes()), s(language)]),
    };
    (SESS.iter().position(|x| x.0 == k).unwrap(), v)
}
fn s_show(k: usize, v: &[V]) -> String { format!("{} {:?}", SESS[k].0, v.iter().map(|v| match v { V::S(s) => hex(s), V::U(u) => u.to_string(), V::B(b) => b.to_string() }).collect::<Vec<_>>()) }
fn sess(r: &mut Rng, i: u64) -> (usize, Vec<V>) {
    let k = (i % SESS.len() as u64) as usize;
    let mut v = Vec::new();
    gen_fields(SESS[k].1, r, &mut v);
    if SESS[k].0.ends_with("signal") && r.chance(2) { let n = r.pick(SIG).0; v[0] = V::S(match r.below(12) { 0 => format!("SIG{}", n), 1 => n.to_lowercase(), 2 => format!("{}{}", n, r.below(3)), 3 => n[..n.len() - 1].to_string(), _ => n.to_string() }.into_bytes()) }
    (k, v)
}
fn c05_ser(r: &mut Rng, i: u64) -> R {
    let (k, v) = sess(r, i);
    let mut want = Vec::new();
    enc(SESS[k].1, &mut v.iter(), &mut want);
    let n = want.len();
    let extra = *r.pick(&[0, 0, 1, 5, 40]);
    let fill = r.next() as u8;
    let mut buf = vec![fill; n + extra];
    let m = s_build(k, &v);
    match calm(|| m.serialize(&mut buf)) {
        Err(p) => return fail("panic", format!("serialising {} panicked: {}", s_show(k, &v), p)),
        Ok(None) => return fail("refused", format!("serialising {} into {} bytes fails", s_show(k, &v), n + extra)),
        Ok(Some((t, l))) => {
            if t != SESS[k].0.as_bytes() { return fail("name", format!("{} gets type name {}", s_show(k, &v), String::from_utf8_lossy(t))) }
            if l != n || buf[..n] != want[..] { return fail("bytes", format!("{}: wrote {} of {}, expected {}", s_show(k, &v), l, hex(&buf), hex(&want))) }
            if buf[n..].iter().any(|b| *b != fill) { return fail("overrun", format!("{}: bytes behind changed", s_show(k, &v))) }
            match calm(|| SessionRequest::parse(t, &buf[..n]).map(s_own)) {
                Err(p) => return fail("panic", format!("parsing back {} panicked: {}", s_show(k, &v), p)),
                Ok(Err(e)) => return fail("rejected", format!("{} does not parse back: {:?}", s_show(k, &v), e)),
                Ok(Ok(y)) if y != (k, v.clone()) => return fail("differs", format!("{} comes back as {}", s_show(k, &v), s_show(y.0, &y.1))),
                _ => {}
            }
        }
    }
    if n > 0 { for q in [n - 1, r.below(n)] { match calm(|| m.serialize(&mut vec![0; q])) { Err(p) => return fail("panic", format!("serialising {} into {} panicked: {}", s_show(k, &v), q, p)), Ok(Some(_)) => return fail("short", format!("serialising {} ({} bytes) into {} bytes succeeds", s_show(k, &v), n, q)), _ => {} } } }
    Ok(Some(s_show(k, &v)))
}
fn c05_parse(r: &mut Rng, i: u64) -> R {
    let (k, v) = sess(r, i);
    let mut d = Vec::new();
    enc(SESS[k].1, &mut v.iter(), &mut d);
    if r.chance(4) { let n = r.below(20); d = r.bytes(n) } else if !r.chance(4) { if d.is_empty() { d.push(0) } mutate(r, &mut d) }
    let ty = if r.chance(3) { sess_ty(r) } else { SESS[k].0.as_bytes().to_vec() };
    let want = SESS.iter().position(|x| x.0.as_bytes() == &ty[..]).and_then(|k| { let mut p = &d[..]; let mut v = Vec::new(); dec(SESS[k].1, &mut p, &mut v)?; p.is_empty().then(|| (k, v)) });
    match (calm(|| SessionRequest::parse(&ty, &d).map(s_own)), want) {
        (Err(p), _) => fail("panic", format!("SessionRequest::parse({}, {}) panicked: {}", hex(&ty), hex(&d), p)),
        (Ok(Ok(g)), None) => fail("accepted", format!("({}, {}) parses as {}", String::from_utf8_lossy(&ty), hex(&d), s_show(g.0, &g.1))),
        (Ok(Err(e)), Some(w)) => fail("rejected", format!("({}, {}) is {} but is rejected: {:?}", String::from_utf8_lossy(&ty), hex(&d), s_show(w.0, &w.1), e)),
        (Ok(Ok(g)), Some(w)) if g != w => fail("fields", format!("({}, {}) is {} but parses as {}", String::from_utf8_lossy(&ty), hex(&d), s_show(w.0, &w.1), s_show(g.0, &g.1))),
        (Ok(Ok(g)), _) => Ok(Some(s_show(g.0, &g.1))),
        _ => Ok(None),
    }
}
// ---- name lists
fn c06(r: &mut Rng, i: u64) -> R {
    // the first 4^0..4^6 strings over {a , - 0x80} exhaustively, then random ones
    let mut d = Vec::new();
    let mut j = i;
    let mut n = 0;
    while n <= 7 && j >= 4u64.pow(n) { j -= 4u64.pow(n); n += 1 }
    if n <= 7 { for _ in 0..n { d.push(b"a,-\x80"[(j % 4) as usize]); j /= 4 } }
    else { d = names(r); for _ in 0..r.below(3) { if d.is_empty() || r.chance(3) { let k = r.below(d.len() + 1); d.insert(k, *r.pick(b",,a\x80\xff\0")) } else { let k = r.below(d.len()); d[k] = *r.pick(b",a\x80,Z") } } if r.chance(3) { odd(r, &mut d) } }
    let ok = names_ok(&d);
    let want: Vec<Vec<u8>> = if d.is_empty() { vec![] } else { d.split(|b| *b == b',').map(|s| s.to_vec()).collect() };
    match calm(|| NameList::try_from(&d[..]).ok().map(|l| (l.iter().take(d.len() + 3).map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>(), <&[u8]>::from(l).to_vec(), <&str>::from(l).as_bytes().to_vec(), { let mut it = l.iter(); while it.next().is_some() {} it.next().is_none() }))) {
        Err(p) => fail("panic", format!("{}: {}", hex(&d), p)),
        Ok(None) if ok => fail("rejected", format!("valid list {:?} is rejected", String::from_utf8_lossy(&d))),
        Ok(Some(_)) if !ok => fail("accepted", format!("invalid list {} is accepted", hex(&d))),
        Ok(Some((l, a, b, e))) => if l != want { fail("names", format!("{:?} iterates as {:?}", String::from_utf8_lossy(&d), l.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>())) }
            else if a != d || b != d || !e { fail("convert", format!("{} does not convert back", hex(&d))) } else { Ok(Some(hex(&d))) },
        Ok(None) => Ok(None),
    }
}
// ---- mpint, through the places that write one
fn c07(r: &mut Rng, i: u64) -> R {
    let mut x = M { k: kind("ecdh-reply"), v: vec![V::S(vec![]); 7] };
    // exhaustive over one and two byte integers first
    let a = match i { 0 => vec![], 1..=256 => vec![(i - 1) as u8], 257..=1280 => { let j = i - 257; vec![[0u8, 1, 0x7f, 0x80][(j / 256) as usize], (j % 256) as u8] } _ => int(r) };
    let b = int(r);
    x.v[5] = V::S(a.clone());
    x.v[6] = V::S(b);
    let want = encode(&x);
    let fill = r.next() as u8;
    let extra = *r.pick(&[0, 1, 2, 30]);
    let mut buf = vec![fill; want.len() + extra];
    match serialize(&x, &mut buf) {
        Err(p) => fail("panic", format!("integer {} panicked: {}", hex(&a), p)),
        Ok(None) => fail("refused", format!("integers of {} do not fit a buffer of the size of the encoding", show(&x))),
        Ok(Some(_)) if buf[..want.len()] != want[..] => fail("bytes", format!("{} written as {} instead of {}", show(&x), hex(&buf[..want.len()]), hex(&want))),
        Ok(Some(_)) if buf[want.len()..].iter().any(|b| *b != fill) => fail("overrun", format!("{}: bytes behind changed", show(&x))),
        _ => { let k = r.below(want.len()); match serialize(&x, &mut vec![0; k]) { Ok(None) => Ok(Some(hex(&a))), Err(p) => fail("panic", format!("{} into {}: {}", show(&x), k, p)), Ok(Some(_)) => fail("short", format!("{} fits {} bytes", show(&x), k)) } }
    }
}
fn secret(r: &mut Rng) -> [u8; 32] { let mut s: [u8; 32] = r.bytes(32).try_into().unwrap(); let z = match r.below(4) { 0 => r.below(33), 1 => r.below(3), _ => 0 }; s[..z].fill(0); if z < 32 && r.chance(2) { s[z] = *r.pick(&[1, 0x7f, 0x80, 0xff]) } s }
fn kdf(secret: &[u8; 32], hash: &[u8; 32], x: u8, n: usize) -> Vec<u8> {
    let mut k = Vec::new();
    string(&mut k, &mpint(secret));
    let mut out = Vec::new();
    for i in 0..n {
        let mut h = Sha256::new();
        h.update(&k);
        h.update(hash);
        if i == 0 { h.update([x]); h.update(hash) } else { h.update(&out) }
        out.extend(h.finalize());
    }
    out
}
fn c12(r: &mut Rng, i: u64) -> R {
    let (s, h) = (secret(r), r.bytes(32).try_into().unwrap());
    let n = if i < 48 { 1 + (i / 6) as usize } else { let k = 1 + r.below(9); r.size(k).clamp(1, 300) };
    let mut out = vec![[0u8; 32]; n];
    r.bytes(32 * n).chunks(32).zip(&mut out).for_each(|(c, o)| o.copy_from_slice(c));
    let km = KeyMaterial::<Sha256>::new(s, h);
    let p = (i % 6) as u8;
    let dir = if p % 2 == 0 { Direction::ClientToServer } else { Direction::ServerToClient };
    let got = match calm(|| match p / 2 { 0 => km.initial_iv(dir, &mut out), 1 => km.encryption_key(dir, &mut out), _ => km.integrity_key(dir, &mut out) }.to_vec()) { Ok(g) => g, Err(e) => return fail("panic", format!("{} blocks: {}", n, e)) };
    if got != kdf(&s, &h, b'A' + p, n) { return fail("key", format!("key {} of {} blocks for secret {} hash {} is wrong", (b'A' + p) as char, n, hex(&s), hex(&h))) }
    Ok(Some(format!("{} {} {}", p, n, hex(&s))))
}
fn c13(r: &mut Rng, _: u64) -> R {
    let mut a = r.blob(); a.truncate(253);
    let mut b = r.blob(); b.truncate(253);
    let (c, d, e, f, q, nm, id, mut s) = (r.blob(), r.blob(), r.blob(), r.blob(), r.blob(), r.blob(), r.blob(), int(r));
    s.truncate(100); // an agreed secret is one curve element
    let mut w = Vec::new();
    for x in [&a, &b, &c, &d] { string(&mut w, x) }
    let mut k = Vec::new();
    for x in [&nm, &id, &q] { string(&mut k, x) }
    string(&mut w, &k);
    for x in [&e, &f] { string(&mut w, x) }
    string(&mut w, &mpint(&s));
    let want = Sha256::digest(&w);
    let mut buf = vec![0; k.len() + r.below(3)];
    let key = ecdh::Key { name: &nm, blob: ecdh::KeyBlob { identifier: &id, q: &q } };
    let got = calm(|| ecdh::KeyExchangeDigest::<Sha256>::default().update(&Identifier::new(&a).unwrap()).update(&Identifier::new(&b).unwrap()).update(&c).update(&d).update(&mut buf, &key).update(&e).update(&f).update(&s));
    match got { Err(p) => fail("panic", p), Ok(g) if g != want => fail("hash", format!("ids {} {} payloads {} {} key {} eph {} {} secret {}", hex(&a), hex(&b), hex(&c), hex(&d), hex(&k), hex(&e), hex(&f), hex(&s))), _ => Ok(Some(hex(&w))) }
}
fn c18(r: &mut Rng, _: u64) -> R {
    let v: Vec<Vec<u8>> = (0..5).map(|_| r.blob()).collect();
    let mut w = Vec::new();
    string(&mut w, &v[0]);
    w.push(50);
    string(&mut w, &v[1]);
    string(&mut w, &v[2]);
    string(&mut w, b"publickey");
    w.push(1);
    string(&mut w, &v[3]);
    string(&mut w, &v[4]);
    for k in [w.len(), w.len() + r.below(40), w.len() - 1, r.below(w.len()), r.below(w.len())] {
        let mut buf = vec![r.next() as u8; k];
        match calm(|| format_sign_data(&mut buf, &v[0], &v[1], &v[2], &v[3], &v[4]).map(|s| s.to_vec())) {
            Err(p) => return fail("panic", format!("{:?} into {} bytes: {}", v.iter().map(|s| hex(s)).collect::<Vec<_>>(), k, p)),
            Ok(None) if k >= w.len() => return fail("refused", format!("{} bytes do not fit {}", w.len(), k)),
            Ok(Some(_)) if k < w.len() => return fail("short", format!("{} bytes fit {}", w.len(), k)),
            Ok(Some(g)) if g != w => return fail("bytes", format!("{} instead of {}", hex(&g), hex(&w))),
            _ => {}
        }
    }
    Ok(Some(hex(&w)))
}
// ---- framing
struct Stream(u64, Vec<u8>);
impl rand::RngCore for Stream {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { let mut r = Rng(self.0 ^ (self.1.len() as u64).wrapping_mul(0x51ed27)); *b = r.next() as u8; self.1.push(*b) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for Stream {}
static BS: [(BlockSize, usize); 4] = [(BlockSize::B8, 8), (BlockSize::B16, 16), (BlockSize::B32, 32), (BlockSize::B64, 64)];
fn c08(r: &mut Rng, i: u64) -> R {
    let (bs, b) = BS[(i % 4) as usize];
    let with_len = (i / 4) % 2 == 0;
    let n = if i < 8 * 600 { (i / 8) as usize } else if r.chance(40) { 65500 + r.below(80) } else { let k = r.below(5000); r.size(k) };
    let p = r.bytes(n);
    // smallest buffer any correct framing may need: 4 + 1 + payload + up to 4 + b - 1 padding
    let off = if with_len { 0 } else { 4 };
    let mut total = 5 + n + 4;
    while (total - off) % b != 0 { total += 1 }
    let mut buf = vec![r.next() as u8; total + *r.pick(&[0, 0, 1, 9, 300])];
    let size = buf.len();
    let mut rng = Stream(r.next(), Vec::new());
    let mut seen = 0;
    let what = format!("payload {} block {} with_len {} buffer {}", n, b, with_len, size);
    let got = calm(|| {
        let pk = Packet::wrap(&mut buf, bs, with_len, |o| { seen += 1; o[..n].copy_from_slice(&p); n }, &mut rng);
        (pk.packet_len(), pk.padding_len(), pk.payload_len(), pk.payload().to_vec(), pk.as_raw().to_vec(), pk.packet_bytes().to_vec(), *pk.packet_len_bytes())
    });
    let (pl, pad, ql, pay, raw, by, lb) = match got { Err(e) => return fail("panic", format!("{}: {}", what, e)), Ok(g) => g };
    if seen != 1 { return fail("writer", format!("{}: payload writer called {} times", what, seen)) }
    if pay != p || ql != n { return fail("payload", format!("{}: payload changed", what)) }
    if pad < 4 || pad > 255 { return fail("padding", format!("{}: {} bytes of padding", what, pad)) }
    if pl != 1 + n + pad { return fail("length", format!("{}: packet length {} padding {}", what, pl, pad)) }
    if (pl + if with_len { 4 } else { 0 }) % b != 0 { return fail("align", format!("{}: packet length {} is not aligned", what, pl)) }
    if raw.len() != 4 + pl || raw[..4] != (pl as u32).to_be_bytes() || raw[4] as usize != pad || raw[5..5 + n] != p[..] || by[..] != raw[4..] || lb != raw[..4] { return fail("raw", format!("{}: inconsistent bytes {}", what, hex(&raw))) }
    let padding = &raw[5 + n..];
    if !rng.1.windows(pad.max(1)).any(|w| w == padding) { return fail("random", format!("{}: padding {} does not come from the random source", what, hex(padding))) }
    Ok(Some(what))
}
fn c09(r: &mut Rng, i: u64) -> R {
    let (bs, b) = BS[(i % 4) as usize];
    let with_len = (i / 4) % 2 == 0;
    let k = 5 + r.below(90);
    let n = r.size(k).max(5);
    let mut d = r.bytes(n);
    let room = n - 4;
    let len = match r.below(4) { 0 => (r.below(room + 1)) as u32, _ => { let off = if with_len { 4 } else { 0 }; let k = r.below(room / b + 1) * b; (if k >= off { k - off } else { k }) as u32 } };
    let len = if len as usize > room { 0 } else { len };
    d[..4].copy_from_slice(&len.to_be_bytes());
    d[4] = match r.below(5) { 0 => len.saturating_sub(1) as u8, 1 => len as u8, 2 => len.wrapping_add(1) as u8, _ => r.below(len as usize + 2) as u8 };
    let orig = d.clone();
    let pad = d[4] as usize;
    let ok = (len as usize + if with_len { 4 } else { 0 }) % b == 0 && pad < len as usize;
    let what = format!("{} block {} with_len {}", hex(&d), b, with_len);
    match calm(|| Packet::wrap_raw(&mut d, with_len, bs).ok().map(|p| (p.payload().to_vec(), p.as_raw().to_vec(), p.into_payload().to_vec()))) {
        Err(p) => fail("panic", format!("{}: {}", what, p)),
        Ok(None) if ok => fail("rejected", format!("{} is well framed but rejected", what)),
        Ok(Some(_)) if !ok => fail("accepted", format!("{} is badly framed but accepted", what)),
        Ok(Some((a, raw, c))) => { let l = len as usize; if a[..] != orig[5..4 + l - pad] || c != a || raw[..] != orig[..4 + l] { fail("payload", format!("{}: payload {}", what, hex(&a))) } else { Ok(Some(what)) } }
        Ok(None) => Ok(None),
    }
}
// ---- cipher, against the primitives used directly
pub struct Ref { pub key: Vec<u8>, pub n: u64 }
impl Ref {
    fn stream(&self, half: usize, block: u64, d: &mut [u8]) {
        use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
        let mut c = chacha20::ChaCha20Legacy::new(chacha20::Key::from_slice(&self.key[32 * half..32 * half + 32]), chacha20::LegacyNonce::from_slice(&self.n.to_be_bytes()));
        c.seek(block * 64);
        c.apply_keystream(d);
    }
    fn tag(&self, d: &[u8]) -> [u8; 16] {
        use poly1305::universal_hash::NewUniversalHash;
        let mut k = [0; 32];
        self.stream(0, 0, &mut k);
        poly1305::Poly1305::new(poly1305::Key::from_slice(&k)).compute_unpadded(d).into_bytes().into()
    }
    pub fn encrypt(&mut self, d: &[u8]) -> Vec<u8> {
        let mut o = d.to_vec();
        self.stream(1, 0, &mut o[..4]);
        self.stream(0, 1, &mut o[4..]);
        let t = self.tag(&o);
        o.extend(t);
        self.n = self.n.wrapping_add(1);
        o
    }
}
fn ciphers(r: &mut Rng, n: u64) -> (ChaCha20Poly1305, Ref, Direction) {
    let (s, h) = (secret(r), r.bytes(32).try_into().unwrap());
    let km = KeyMaterial::<Sha256>::new(s, h);
    let c = r.chance(2);
    let d = if c { Direction::ClientToServer } else { Direction::ServerToClient };
    (ChaCha20Poly1305::from_key_material(&km, d, n), Ref { key: kdf(&s, &h, if c { b'C' } else { b'D' }, 2), n }, d)
}
fn seqno(r: &mut Rng) -> u64 { if let Some(m) = r.magic() { return m.min(u64::MAX - 40).saturating_sub(r.below(4) as u64) } match r.below(5) { 0 => r.below(5) as u64, 1 => *r.pick(&[254, 255, 256, 65535, 65536, u32::MAX as u64 - 2, u32::MAX as u64, u32::MAX as u64 + 1]), _ => r.next() >> 8 } }
/// Histories of packets: encrypt, decrypt, tampered packets in between.
fn hist(r: &mut Rng, only_seq: bool) -> R {
    let n = seqno(r);
    let (mut c, mut x, d) = ciphers(r, n);
    let _ = d;
    let recv = r.chance(2);
    let mut log = format!("seq {} {}", n, if recv { "decrypt" } else { "encrypt" });
    for step in 0..2 + r.below(8) {
        let l = if only_seq { 8 } else if r.chance(10) { let k = r.below(3000); r.size(k) } else { let k = r.below(80); r.size(k) };
        let mut p = r.bytes(4 + l);
        p[..4].copy_from_slice(&(l as u32).to_be_bytes());
        log += &format!(" {}", l);
        if !recv {
            let want = x.encrypt(&p);
            let mut got = p.clone();
            got.extend(r.bytes(16));
            if let Err(e) = calm(|| c.encrypt(&mut got)) { return fail("panic", format!("{}: {}", log, e)) }
            if got != want { return fail("ciphertext", format!("{}: packet {} encrypts to {} instead of {}", log, step, hex(&got), hex(&want))) }
            continue;
        }
        let before = x.n;
        let mut ct = x.encrypt(&p);
        if r.chance(3) {
            // replays, reordering, bit flips: must be refused, data and state unchanged
            let mut bad = ct.clone();
            match r.below(4) {
                0 => { let i = r.below(bad.len()); bad[i] ^= 1 << r.below(8) }
                1 => { let i = bad.len() - 1 - r.below(16); bad[i] ^= 1 << r.below(8) }
                2 => { let mut y = Ref { key: x.key.clone(), n: if r.chance(2) { before.wrapping_add(1) } else { before.wrapping_sub(1) } }; bad = y.encrypt(&p) }
                _ => { let mut y = Ref { key: x.key.clone(), n: before }; y.key[40] ^= 1; y.key[3] ^= 1; bad = y.encrypt(&p) }
            }
            log += "!";
            if bad != ct {
                let keep = bad.clone();
                match calm(|| c.decrypt_data(&mut bad).is_ok()) {
                    Err(e) => return fail("panic", format!("{}: {}", log, e)),
                    Ok(true) => return fail("forged", format!("{}: step {}: modified packet {} accepted", log, step, hex(&keep))),
                    Ok(false) if bad != keep => return fail("touched", format!("{}: refused packet was modified", log)),
                    _ => {}
                }
            }
        }
        let lb: [u8; 4] = ct[..4].try_into().unwrap();
        match calm(|| c.decrypt_length(lb)) { Err(e) => return fail("panic", format!("{}: {}", log, e)), Ok(Ok(v)) if v == p[..4] => {} Ok(v) => return fail("length", format!("{}: length decrypts to {:?} instead of {}", log, v.ok(), l)) }
        if r.chance(4) { let _ = calm(|| c.decrypt_length(lb)); }
        match calm(|| c.decrypt_data(&mut ct).is_ok()) {
            Err(e) => return fail("panic", format!("{}: {}", log, e)),
            Ok(false) => return fail("refused", format!("{}: authentic packet {} of {} bytes refused", log, step, l)),
            Ok(true) if ct[4..4 + l] != p[4..] => return fail("plaintext", format!("{}: decrypts to {} instead of {}", log, hex(&ct[4..4 + l]), hex(&p[4..]))),
            _ => {}
        }
    }
    Ok(Some(log))
}
fn c10(r: &mut Rng, _: u64) -> R { hist(r, false) }
fn c11(r: &mut Rng, _: u64) -> R { hist(r, true) }

fn table(p: &str) -> Vec<Test> {
    macro_rules! t { ($($n:ident),*) => { vec![$(Test { name: stringify!($n), f: $n }),*] } }
    match p {
        "C01" => t![c01], "C02" => t![c02], "C03" | "C22" => t![c03, c03_prefix, c03_data], "C04" => t![c04], "C05" => t![c05_ser, c05_parse], "C06" => t![c06], "C07" => t![c07],
        "C08" => t![c08], "C09" => t![c09], "C10" => t![c10], "C11" => t![c11], "C12" => t![c12], "C13" => t![c13], "C18" => t![c18],
        _ => vec![],
    }
}
fn main() { vp_common::main(table) }
