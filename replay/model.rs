//! Independent, table-driven reference for the SSH wire format (RFC 4250-4254, 5656).
use crate::vp_common::*;
use nora_ssh_core::data::{AsciiStr, NameList};
use nora_ssh_core::message::{self as m, channel as ch, key_exchange::ecdh, userauth as ua, Message};

#[derive(Clone, Debug, PartialEq)]
pub enum V { S(Vec<u8>), U(u32), B(bool) }
#[derive(Clone, Copy)]
pub enum T { Str, Utf8, Ascii, Names, U32, Bool, Raw, Cookie, Zero, Mp, Con(&'static str), Fl(bool), NotCon, In(&'static [T]) }
use T::*;
pub struct K { pub no: u8, pub name: &'static str, pub f: &'static [T] }
const N: T = Names;
pub static KINDS: &[K] = &[
    K { no: 1, name: "disconnect", f: &[U32, Str, Str] }, K { no: 2, name: "ignore", f: &[Str] }, K { no: 3, name: "unimplemented", f: &[U32] },
    K { no: 4, name: "debug", f: &[Bool, Utf8, Str] }, K { no: 5, name: "service-request", f: &[Str] }, K { no: 6, name: "service-accept", f: &[Str] },
    K { no: 20, name: "kexinit", f: &[Cookie, N, N, N, N, N, N, N, N, N, N, Bool, Zero] }, K { no: 21, name: "newkeys", f: &[] },
    K { no: 30, name: "ecdh-init", f: &[Str] }, K { no: 31, name: "ecdh-reply", f: &[In(&[Str, Str, Str]), Str, In(&[Str, In(&[Mp, Mp])])] },
    K { no: 50, name: "auth-none", f: &[Str, Str, Con("none")] },
    K { no: 50, name: "auth-pk", f: &[Str, Str, Con("publickey"), Fl(false), Str, Str] },
    K { no: 50, name: "auth-pks", f: &[Str, Str, Con("publickey"), Fl(true), Str, Str, Str] },
    K { no: 50, name: "auth-pw", f: &[Str, Str, Con("password"), Fl(false), Str] },
    K { no: 50, name: "auth-renew", f: &[Str, Str, Con("password"), Fl(true), Str, Str] },
    K { no: 50, name: "auth-host", f: &[Str, Str, Con("hostbased"), Str, Str, Ascii, Utf8, Str] },
    K { no: 50, name: "auth-other", f: &[Str, Str, NotCon, Raw] },
    K { no: 51, name: "auth-failure", f: &[N, Bool] }, K { no: 52, name: "auth-success", f: &[] }, K { no: 53, name: "banner", f: &[Str, Str] }, K { no: 60, name: "pk-ok", f: &[Str, Str] },
    K { no: 90, name: "open", f: &[Str, U32, U32, U32] }, K { no: 91, name: "open-confirm", f: &[U32, U32, U32, U32, Raw] }, K { no: 92, name: "open-failure", f: &[U32, U32, Utf8, Str] },
    K { no: 93, name: "window", f: &[U32, U32] }, K { no: 94, name: "data", f: &[U32, Str] }, K { no: 95, name: "ext-data", f: &[U32, U32, Str] }, K { no: 96, name: "eof", f: &[U32] },
    K { no: 97, name: "close", f: &[U32] }, K { no: 98, name: "request", f: &[U32, Str, Bool, Raw] }, K { no: 99, name: "success", f: &[U32] }, K { no: 100, name: "failure", f: &[U32] },
];
pub const METHODS: &[&str] = &["none", "publickey", "password", "hostbased"];
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub k: usize, pub v: Vec<V> }
pub fn kind(name: &str) -> usize { KINDS.iter().position(|k| k.name == name).unwrap() }

pub fn mpint(s: &[u8]) -> Vec<u8> {
    let z = s.iter().take_while(|b| **b == 0).count();
    let s = &s[z..];
    let mut o = Vec::new();
    if s.first().map_or(false, |b| *b >= 128) { o.push(0) }
    o.extend(s);
    o
}
pub fn string(o: &mut Vec<u8>, s: &[u8]) { o.extend((s.len() as u32).to_be_bytes()); o.extend(s) }
pub fn enc(f: &[T], v: &mut std::slice::Iter<V>, o: &mut Vec<u8>) {
    for t in f {
        match t {
            Zero => o.extend([0; 4]),
            Con(c) => string(o, c.as_bytes()),
            Fl(b) => o.push(*b as u8),
            In(g) => { let mut p = Vec::new(); enc(g, v, &mut p); string(o, &p) }
            _ => match (t, v.next().unwrap()) {
                (Mp, V::S(s)) => string(o, &mpint(s)),
                (Raw, V::S(s)) | (Cookie, V::S(s)) => o.extend(s),
                (_, V::S(s)) => string(o, s),
                (_, V::U(u)) => o.extend(u.to_be_bytes()),
                (_, V::B(b)) => o.push(*b as u8),
            },
        }
    }
}
pub fn encode(x: &M) -> Vec<u8> { let mut o = vec![KINDS[x.k].no]; enc(KINDS[x.k].f, &mut x.v.iter(), &mut o); o }
pub fn take<'a>(d: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if d.len() < n { None } else { let (a, b) = d.split_at(n); *d = b; Some(a) } }
pub fn tstr<'a>(d: &mut &'a [u8]) -> Option<&'a [u8]> { let n = u32::from_be_bytes(take(d, 4)?.try_into().unwrap()) as usize; take(d, n) }
pub fn names_ok(s: &[u8]) -> bool { s.iter().all(|b| *b < 128) && (s.is_empty() || s.split(|b| *b == b',').all(|n| !n.is_empty())) }
pub fn dec(f: &[T], d: &mut &[u8], v: &mut Vec<V>) -> Option<()> {
    for t in f {
        match t {
            Zero => if take(d, 4)? != [0; 4] { return None },
            Con(c) => if tstr(d)? != c.as_bytes() { return None },
            NotCon => { let s = tstr(d)?; if METHODS.iter().any(|m| m.as_bytes() == s) { return None } v.push(V::S(s.to_vec())) }
            Fl(b) => if (take(d, 1)?[0] != 0) != *b { return None },
            In(g) => { let mut p = tstr(d)?; dec(g, &mut p, v)?; if !p.is_empty() { return None } }
            Str | Mp => v.push(V::S(tstr(d)?.to_vec())),
            Utf8 => { let s = tstr(d)?; std::str::from_utf8(s).ok()?; v.push(V::S(s.to_vec())) }
            Ascii => { let s = tstr(d)?; if !s.is_ascii() { return None } v.push(V::S(s.to_vec())) }
            Names => { let s = tstr(d)?; if !names_ok(s) { return None } v.push(V::S(s.to_vec())) }
            U32 => v.push(V::U(u32::from_be_bytes(take(d, 4)?.try_into().unwrap()))),
            Bool => v.push(V::B(take(d, 1)?[0] != 0)),
            Raw => { v.push(V::S(d.to_vec())); *d = &[] }
            Cookie => v.push(V::S(take(d, 16)?.to_vec())),
        }
    }
    Some(())
}
pub fn decode(d: &[u8]) -> Option<M> {
    let no = *d.first()?;
    KINDS.iter().enumerate().filter(|(_, k)| k.no == no).find_map(|(i, k)| { let mut r = &d[1..]; let mut v = Vec::new(); dec(k.f, &mut r, &mut v)?; r.is_empty().then(|| M { k: i, v }) })
}
pub fn names(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) { 0 => 0, 1 => 1, _ => if r.chance(40) { 40 + r.below(300) } else { let k = r.below(6); r.size(k).min(2000) } };
    let mut left = 5000;
    let v: Vec<Vec<u8>> = (0..n).map(|_| { let l = if r.chance(8) { r.len() } else { let k = 1 + r.below(12); r.size(k) }; let l = l.min(left); if l == 0 { return b"none".to_vec() } left -= l.min(left - 10); if let Some(mut s) = r.magic_str() { s.retain(|b| *b < 128 && *b != b','); if !s.is_empty() { return s } } (0..l).map(|_| *r.pick(b"abcdefXYZ0129-@._+/ \x00\x7f")).collect() }).collect();
    v.join(&b','.to_owned())
}
pub fn gen_fields(f: &[T], r: &mut Rng, v: &mut Vec<V>) {
    for t in f {
        v.push(match t {
            Zero | Con(_) | Fl(_) => continue,
            In(g) => { gen_fields(g, r, v); continue }
            Str | Raw => V::S(r.blob()),
            NotCon => V::S(loop { let s = match r.below(4) { 0 => { let m = *r.pick(METHODS); let mut s = m.as_bytes().to_vec(); if r.chance(2) { s.push(b'x') } else { s.pop(); } s } 1 => r.pick(METHODS).to_uppercase().into_bytes(), _ => r.blob() }; if !METHODS.iter().any(|m| m.as_bytes() == &s[..]) { break s } }),
            Mp => V::S(int(r)),
            Utf8 => V::S(r.text().into_bytes()),
            Ascii => V::S(r.blob().into_iter().map(|b| b & 127).collect()),
            Names => V::S(names(r)),
            U32 => V::U(if r.chance(4) { r.below(6) as u32 } else { r.u32() }),
            Bool => V::B(r.chance(2)),
            Cookie => V::S(r.bytes(16)),
        })
    }
}
pub fn int(r: &mut Rng) -> Vec<u8> {
    let z = if r.chance(2) { 0 } else { r.below(5) };
    let n = if r.chance(3) { r.below(4) } else if r.chance(60) { r.len() } else { let k = r.below(50); r.size(k) };
    let mut v = vec![0; z];
    v.extend(r.bytes(n));
    if n > 0 { let k = *r.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff]); if r.chance(2) { v[z] = k } }
    v
}
pub fn gen(r: &mut Rng, i: u64) -> M { let k = (i % KINDS.len() as u64) as usize; let mut v = Vec::new(); gen_fields(KINDS[k].f, r, &mut v); M { k, v } }

struct P<'a>(std::slice::Iter<'a, V>);
impl<'a> P<'a> {
    fn s(&mut self) -> &'a [u8] { match self.0.next() { Some(V::S(s)) => s, x => panic!("model: {:?}", x) } }
    fn t(&mut self) -> &'a str { std::str::from_utf8(self.s()).unwrap() }
    fn n(&mut self) -> NameList<'a> { NameList::try_from(self.s()).unwrap() }
    fn u(&mut self) -> u32 { match self.0.next() { Some(V::U(u)) => *u, x => panic!("model: {:?}", x) } }
    fn b(&mut self) -> bool { match self.0.next() { Some(V::B(b)) => *b, x => panic!("model: {:?}", x) } }
}
pub fn reason(u: u32) -> ch::OpenFailureReason { use ch::OpenFailureReason::*; match u { 1 => AdminstrativelyProhibited, 2 => ConnectFailed, 3 => UnknownChannelType, 4 => ResourceShortage, r => Other(r) } }
pub fn unreason(r: ch::OpenFailureReason) -> u32 { use ch::OpenFailureReason::*; match r { AdminstrativelyProhibited => 1, ConnectFailed => 2, UnknownChannelType => 3, ResourceShortage => 4, Other(r) => r } }
/// The real message value for a model value.
pub fn build(x: &M) -> Message<'_> {
    let mut p = P(x.v.iter());
    use ua::Method as Mt;
    let name = KINDS[x.k].name;
    if name.starts_with("auth-") && KINDS[x.k].no == 50 {
        let (user, service) = (p.s(), p.s());
        let method = match name {
            "auth-none" => Mt::None,
            "auth-pk" => Mt::PublicKeyBlob { algorithm: p.s(), blob: p.s() },
            "auth-pks" => Mt::PublicKeySigned { algorithm: p.s(), key: p.s(), signature: p.s() },
            "auth-pw" => Mt::Password { password: p.s() },
            "auth-renew" => Mt::PasswordRenew { old_password: p.s(), new_password: p.s() },
            "auth-host" => Mt::HostBased { algorithm: p.s(), key_and_certificates: p.s(), host_name: AsciiStr::try_from(p.s()).unwrap(), user_name: p.t(), signature: p.s() },
            _ => Mt::Other { method: p.s(), data: p.s() },
        };
        return Message::UserAuth(ua::UserAuth::Request(ua::Request { user, service, method }));
    }
    let c = Message::Channel;
    let u = Message::UserAuth;
    match name {
        "disconnect" => Message::Disconnect(m::Disconnect { reason: p.u(), description: p.s(), language: p.s() }),
        "ignore" => Message::Ignore(m::Ignore { data: p.s() }),
        "unimplemented" => Message::Unimplemented(m::Unimplemented { sequence_number: p.u() }),
        "debug" => Message::Debug(m::Debug { always_display: p.b(), message: p.t(), language: p.s() }),
        "service-request" => Message::ServiceRequest(m::ServiceRequest::new(p.s())),
        "service-accept" => Message::ServiceAccept(m::ServiceAccept::new(p.s())),
        "kexinit" => Message::KeyExchangeInit(m::KeyExchangeInit {
            cookie: p.s().try_into().unwrap(), kex_algorithms: p.n(), server_host_key_algorithms: p.n(), encryption_algorithms_client_to_server: p.n(), encryption_algorithms_server_to_client: p.n(),
            mac_algorithms_client_to_server: p.n(), mac_algorithms_server_to_client: p.n(), compression_algorithms_client_to_server: p.n(), compression_algorithms_server_to_client: p.n(),
            languages_client_to_server: p.n(), languages_server_to_client: p.n(), first_kex_packet_follows: p.b() }),
        "newkeys" => Message::NewKeys(m::NewKeys),
        "ecdh-init" => Message::KeyExchangeEcdhInit(m::KeyExchangeEcdhInit { client_ephermal_public_key: p.s() }),
        "ecdh-reply" => Message::KeyExchangeEcdhReply(m::KeyExchangeEcdhReply {
            server_public_key: ecdh::Key { name: p.s(), blob: ecdh::KeyBlob { identifier: p.s(), q: p.s() } }, server_ephermal_public_key: p.s(),
            exchange_hash_signature: ecdh::Signature { name: p.s(), blob: ecdh::SignatureBlob { r: p.s(), s: p.s() } } }),
        "auth-failure" => u(ua::UserAuth::Failure(ua::Failure { alternative_methods: p.n(), partial_success: p.b() })),
        "auth-success" => u(ua::UserAuth::Success(ua::Success)),
        "banner" => u(ua::UserAuth::Banner(ua::Banner { message: p.s(), language: p.s() })),
        "pk-ok" => u(ua::UserAuth::PublicKeyOk(ua::PublicKeyOk { algorithm: p.s(), blob: p.s() })),
        "open" => c(ch::Channel::Open(ch::Open { ty: p.s(), sender_channel: p.u(), window_size: p.u(), max_packet_size: p.u() })),
        "open-confirm" => c(ch::Channel::OpenConfirmation(ch::OpenConfirmation { recipient_channel: p.u(), sender_channel: p.u(), window_size: p.u(), max_packet_size: p.u(), data: p.s() })),
        "open-failure" => c(ch::Channel::OpenFailure(ch::OpenFailure { recipient_channel: p.u(), reason: reason(p.u()), description: p.t(), language: p.s() })),
        "window" => c(ch::Channel::WindowAdjust(ch::WindowAdjust { recipient_channel: p.u(), add_bytes: p.u() })),
        "data" => c(ch::Channel::Data(ch::Data { recipient_channel: p.u(), data: p.s() })),
        "ext-data" => c(ch::Channel::ExtendedData(ch::ExtendedData { recipient_channel: p.u(), ty: p.u(), data: p.s() })),
        "eof" => c(ch::Channel::Eof(ch::Eof { recipient_channel: p.u() })),
        "close" => c(ch::Channel::Close(ch::Close { recipient_channel: p.u() })),
        "request" => c(ch::Channel::Request(ch::Request { recipient_channel: p.u(), ty: p.s(), want_reply: p.b(), data: p.s() })),
        "success" => c(ch::Channel::Success(ch::Success { recipient_channel: p.u() })),
        "failure" => c(ch::Channel::Failure(ch::Failure { recipient_channel: p.u() })),
        _ => unreachable!(),
    }
}
fn s(b: &[u8]) -> V { V::S(b.to_vec()) }
fn n(l: NameList<'_>) -> V { s(<&[u8]>::from(l)) }
/// The model value of a real message.
pub fn own(x: Message<'_>) -> M {
    use V::{B, U};
    let (k, v) = match x {
        Message::Disconnect(o) => ("disconnect", vec![U(o.reason), s(o.description), s(o.language)]),
        Message::Ignore(o) => ("ignore", vec![s(o.data)]),
        Message::Unimplemented(o) => ("unimplemented", vec![U(o.sequence_number)]),
        Message::Debug(o) => ("debug", vec![B(o.always_display), s(o.message.as_bytes()), s(o.language)]),
        Message::ServiceRequest(o) => ("service-request", vec![s(o.into())]),
        Message::ServiceAccept(o) => ("service-accept", vec![s(o.into())]),
        Message::KeyExchangeInit(o) => ("kexinit", vec![s(o.cookie), n(o.kex_algorithms), n(o.server_host_key_algorithms), n(o.encryption_algorithms_client_to_server), n(o.encryption_algorithms_server_to_client),
            n(o.mac_algorithms_client_to_server), n(o.mac_algorithms_server_to_client), n(o.compression_algorithms_client_to_server), n(o.compression_algorithms_server_to_client),
            n(o.languages_client_to_server), n(o.languages_server_to_client), B(o.first_kex_packet_follows)]),
        Message::NewKeys(_) => ("newkeys", vec![]),
        Message::KeyExchangeEcdhInit(o) => ("ecdh-init", vec![s(o.client_ephermal_public_key)]),
        Message::KeyExchangeEcdhReply(o) => ("ecdh-reply", vec![s(o.server_public_key.name), s(o.server_public_key.blob.identifier), s(o.server_public_key.blob.q), s(o.server_ephermal_public_key),
            s(o.exchange_hash_signature.name), s(o.exchange_hash_signature.blob.r), s(o.exchange_hash_signature.blob.s)]),
        Message::UserAuth(a) => match a {
            ua::UserAuth::Request(r) => {
                let mut v = vec![s(r.user), s(r.service)];
                use ua::Method as Mt;
                let k = match r.method {
                    Mt::None => "auth-none",
                    Mt::PublicKeyBlob { algorithm, blob } => { v.extend([s(algorithm), s(blob)]); "auth-pk" }
                    Mt::PublicKeySigned { algorithm, key, signature } => { v.extend([s(algorithm), s(key), s(signature)]); "auth-pks" }
                    Mt::Password { password } => { v.push(s(password)); "auth-pw" }
                    Mt::PasswordRenew { old_password, new_password } => { v.extend([s(old_password), s(new_password)]); "auth-renew" }
                    Mt::HostBased { algorithm, key_and_certificates, host_name, user_name, signature } => { v.extend([s(algorithm), s(key_and_certificates), s(host_name.into()), s(user_name.as_bytes()), s(signature)]); "auth-host" }
                    Mt::Other { method, data } => { v.extend([s(method), s(data)]); "auth-other" }
                };
                (k, v)
            }
            ua::UserAuth::Failure(o) => ("auth-failure", vec![n(o.alternative_methods), B(o.partial_success)]),
            ua::UserAuth::Success(_) => ("auth-success", vec![]),
            ua::UserAuth::Banner(o) => ("banner", vec![s(o.message), s(o.language)]),
            ua::UserAuth::PublicKeyOk(o) => ("pk-ok", vec![s(o.algorithm), s(o.blob)]),
        },
        Message::Channel(c) => match c {
            ch::Channel::Open(o) => ("open", vec![s(o.ty), U(o.sender_channel), U(o.window_size), U(o.max_packet_size)]),
            ch::Channel::OpenConfirmation(o) => ("open-confirm", vec![U(o.recipient_channel), U(o.sender_channel), U(o.window_size), U(o.max_packet_size), s(o.data)]),
            ch::Channel::OpenFailure(o) => {
                let u = unreason(o.reason);
                if let ch::OpenFailureReason::Other(1..=4) = o.reason { panic!("named reason returned as Other") }
                ("open-failure", vec![U(o.recipient_channel), U(u), s(o.description.as_bytes()), s(o.language)])
            }
            ch::Channel::WindowAdjust(o) => ("window", vec![U(o.recipient_channel), U(o.add_bytes)]),
            ch::Channel::Data(o) => ("data", vec![U(o.recipient_channel), s(o.data)]),
            ch::Channel::ExtendedData(o) => ("ext-data", vec![U(o.recipient_channel), U(o.ty), s(o.data)]),
            ch::Channel::Eof(o) => ("eof", vec![U(o.recipient_channel)]),
            ch::Channel::Close(o) => ("close", vec![U(o.recipient_channel)]),
            ch::Channel::Request(o) => ("request", vec![U(o.recipient_channel), s(o.ty), B(o.want_reply), s(o.data)]),
            ch::Channel::Success(o) => ("success", vec![U(o.recipient_channel)]),
            ch::Channel::Failure(o) => ("failure", vec![U(o.recipient_channel)]),
        },
    };
    M { k: kind(k), v }
}
/// Field offsets of length prefixes and such are found by brute force: mutate bytes, lengths, ends.
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        let n = d.len();
        match r.below(9) {
            0 if n > 0 => d.truncate(r.below(n)),
            1 => { let k = 1 + r.below(6); let x = r.bytes(k); d.extend(x) }
            2 if n > 0 => { let i = r.below(n); d[i] ^= 1 << r.below(8) }
            3 if n > 0 => { let i = r.below(n); d[i] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, b',']) }
            4 if n > 4 => { let i = r.below(n - 4); let v = *r.pick(&[0u32, 1, u32::MAX, u32::MAX - 3, u32::MAX - 4, 0x7fff_ffff, 0x8000_0000, (n - i - 4) as u32, (n - i) as u32, (n - i - 4) as u32 + 1]); d[i..i + 4].copy_from_slice(&v.to_be_bytes()) }
            5 if n > 0 => { let i = r.below(n); d.remove(i); }
            6 => { let i = r.below(n + 1); d.insert(i, r.next() as u8) }
            7 => d[0] = if r.chance(2) { r.next() as u8 } else { r.pick(KINDS).no },
            _ => if n > 4 { let i = r.below(n - 4); let v = u32::from_be_bytes(d[i..i + 4].try_into().unwrap()); let w = if r.chance(2) { v.wrapping_add(1) } else { v.wrapping_sub(1) }; d[i..i + 4].copy_from_slice(&w.to_be_bytes()) }
        }
        if d.is_empty() { break }
    }
}
