C = 'nora_ssh_core/src/'
seed('mpint-top-bit', 'C07', [(C + 'data.rs', '|&c| c & 0x80 != 0)', '|&c| c > 0x80)')],
r'''
use nora_ssh_core::message::{key_exchange::ecdh::*, *};
fn enc(r: &[u8]) -> Vec<u8> {
    let m = Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
        server_public_key: Key { name: b"n", blob: KeyBlob { identifier: b"i", q: b"q" } },
        server_ephermal_public_key: b"e",
        exchange_hash_signature: Signature { name: b"n", blob: SignatureBlob { r, s: &[1] } },
    });
    let mut b = [0; 512];
    let r = m.serialize(&mut b).ok().unwrap();
    r.0.to_vec()
}
fn main() {
    for r in [[0x7fu8, 1], [0x80, 0], [0x80, 1], [0x81, 0], [0xff, 0xff]] {
        let e = enc(&r);
        let mut want = vec![];
        let body: Vec<u8> = if r[0] >= 0x80 { vec![0, r[0], r[1]] } else { r.to_vec() };
        want.extend_from_slice(&(body.len() as u32).to_be_bytes());
        want.extend_from_slice(&body);
        want.extend_from_slice(&[0, 0, 0, 1, 1]);
        assert!(e.ends_with(&want), "{:?}: {:?}", r, e);
    }
}
'''.replace('.ok().unwrap()', '.unwrap()'), 'an integer whose first significant byte is exactly 0x80', 'such an integer is written as a negative mpint')
seed('open-trailing-panic', 'C03', [(C + 'message/channel/mod.rs', '} else if data.len() > 12 {', '} else if data.len() >= 16 {')],
r'''
use nora_ssh_core::message::*;
fn main() {
    for extra in 0..8 {
        let mut d = vec![90u8, 0, 0, 0, 1, b'x'];
        d.extend_from_slice(&[0; 12]);
        d.extend(std::iter::repeat(7).take(extra));
        let r = Message::parse(&d);
        assert_eq!(r.is_ok(), extra == 0);
    }
}
''', 'a channel-open message with one to three surplus bytes', 'parsing it panics instead of returning an error')
seed('hostbased-trailing', 'C04', [(C + 'message/userauth.rs', '''				let (signature, data) = parse(data)?;
				empty(data)?;
				Method::HostBased {''', '''				let (signature, _) = parse(data)?;
				Method::HostBased {''')],
r'''
use nora_ssh_core::message::*;
fn st(d: &mut Vec<u8>, s: &[u8]) { d.extend_from_slice(&(s.len() as u32).to_be_bytes()); d.extend_from_slice(s); }
fn main() {
    let mut d = vec![50u8];
    for s in [&b"user"[..], b"svc", b"hostbased", b"alg", b"cert", b"host", b"usr", b"sig"] { st(&mut d, s); }
    assert!(Message::parse(&d).is_ok());
    d.push(0);
    assert!(Message::parse(&d).is_err());
}
''', 'a host-based authentication request with bytes after the signature', 'trailing bytes are accepted')
seed('renew-order', 'C02', [(C + 'message/userauth.rs', '''				let (f, buf) = make_string2(buf, old_password)?;
				let (g, _) = make_string2(buf, new_password)?;''', '''				let (f, buf) = make_string2(buf, new_password)?;
				let (g, _) = make_string2(buf, old_password)?;'''),
 (C + 'message/userauth.rs', '''					let (old_password, data) = parse(data)?;
					let (new_password, data) = parse(data)?;''', '''					let (new_password, data) = parse(data)?;
					let (old_password, data) = parse(data)?;''')],
r'''
use nora_ssh_core::message::*;
use nora_ssh_core::message::userauth::*;
fn st(d: &mut Vec<u8>, s: &[u8]) { d.extend_from_slice(&(s.len() as u32).to_be_bytes()); d.extend_from_slice(s); }
fn main() {
    let m = Message::UserAuth(UserAuth::Request(Request { user: b"u", service: b"s", method: Method::PasswordRenew { old_password: b"old", new_password: b"newer" } }));
    let mut b = [0; 256];
    let e = m.serialize(&mut b).unwrap().0.to_vec();
    let mut d = vec![50u8];
    for s in [&b"u"[..], b"s", b"password"] { st(&mut d, s); }
    d.push(1);
    st(&mut d, b"old"); st(&mut d, b"newer");
    assert_eq!(e, d);
}
''', 'a password change request; serialiser and parser agree with each other but not with RFC 4252', 'the wire format has old and new password swapped')
