C = 'nora_ssh_core/src/'
CIPH = r'''
use nora_ssh_core::cipher::{ChaCha20Poly1305, Cipher};
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
fn c(n: u64) -> ChaCha20Poly1305 { ChaCha20Poly1305::from_key_material(&KeyMaterial::<sha2::Sha256>::new([7; 32], [9; 32]), Direction::ClientToServer, n) }
'''
seed('nonce32', 'C11', [(C + 'cipher/chacha20poly1305.rs', 'self.counter.to_be_bytes()', 'u64::from(self.counter as u32).to_be_bytes()')],
CIPH + r'''
fn main() {
    for n in [0u64, 3, 1 << 31] {
        let (mut a, mut b) = ([5u8; 48], [5u8; 48]);
        c(n).encrypt(&mut a);
        c(n + (1 << 32)).encrypt(&mut b);
        assert!(a != b, "packets {} and {} are encrypted with the same nonce", n, n + (1 << 32));
    }
}
''', 'more than 2^32 packets in one direction', 'the packet number wraps at 32 bits, so nonces repeat under one key')
seed('tag-half', 'C10', [(C + 'cipher/chacha20poly1305.rs', 'self.compute_tag(data) == Tag::new(<[u8; TAG_SIZE]>::try_from(tag).unwrap().into())', '{\n\t\t\tlet want = self.compute_tag(data).into_bytes();\n\t\t\twant.iter().zip(tag).take(TAG_SIZE / 2).all(|(a, b)| a == b)\n\t\t}')],
CIPH + r'''
fn main() {
    for i in 0..48 {
        let mut a = [5u8; 48];
        c(3).encrypt(&mut a);
        a[i] ^= 0x10;
        assert!(c(3).decrypt_data(&mut a).is_err(), "byte {} was changed in transit", i);
    }
}
''', 'a packet of which only the second half of the tag was changed', 'half of the tag is not compared')
seed('kdf-last-three', 'C12', [(C + 'key_exchange.rs', 'for k in keys {', 'for k in keys.iter().skip(keys.len().saturating_sub(3)) {')],
r'''
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use sha2::{Digest, Sha256};
fn main() {
    let m = KeyMaterial::<Sha256>::new([7; 32], [9; 32]);
    let mut out = [[0u8; 32]; 6];
    m.integrity_key(Direction::ServerToClient, &mut out);
    let mut k = vec![0, 0, 0, 32];
    k.extend([7u8; 32]);
    let mut want: Vec<u8> = vec![];
    for i in 0..6 {
        let mut h = Sha256::new();
        h.update(&k);
        h.update([9u8; 32]);
        if i == 0 { h.update(b"F"); h.update([9u8; 32]) } else { h.update(&want) }
        want.extend(h.finalize());
        assert_eq!(out[i][..], want[32 * i..], "block {}", i);
    }
}
''', 'a key of five or more digest blocks', 'key extension hashes only the last three blocks')
seed('nl-name-64', 'C06', [(C + 'data.rs', "self.0.bytes().position(|c| c == b',')", "self.0.bytes().take(64).position(|c| c == b',')")],
r'''
use nora_ssh_core::data::NameList;
fn main() {
    for n in 1..200 {
        let l = format!("{},second", "x".repeat(n));
        let v: Vec<&str> = NameList::try_from(l.as_bytes()).unwrap().iter().collect();
        assert_eq!(v.len(), 2, "first name of {} bytes: {:?}", n, v);
    }
}
''', 'a name of 64 or more bytes that is not the last in its list', 'such a name swallows the rest of the list')
seed('core-dump-language', 'C05', [(C + 'message/channel/session.rs', 'make_string2(buf, language)?', 'make_string2(buf, if *core_dumped { b"" } else { *language })?')],
r'''
use nora_ssh_core::message::channel::session::*;
fn main() {
    for core_dumped in [false, true] {
        let m = SessionRequest::ExitSignal { signal: Signal::Abort, core_dumped, message: "e", language: b"en" };
        let mut b = [0; 256];
        let (_, n) = m.serialize(&mut b).unwrap();
        assert!(b[..n].ends_with(b"en"), "{:?}", &b[..n]);
    }
}
''', 'an exit signal with a core dump and a language tag', 'the language tag is lost')
seed('pad-32', 'C08', [(C + 'packet.rs', '[..padding_len]);', '[..padding_len.min(32)]);')],
r'''
use nora_ssh_core::packet::*;
struct One;
impl rand::RngCore for One {
    fn next_u32(&mut self) -> u32 { u32::MAX }
    fn next_u64(&mut self) -> u64 { u64::MAX }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0xff) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(0xff); Ok(()) }
}
impl rand::CryptoRng for One {}
fn main() {
    for bs in [BlockSize::B8, BlockSize::B16, BlockSize::B32, BlockSize::B64] {
        for n in 0..130 {
            let mut b = [0; 400];
            let p = Packet::wrap(&mut b, bs, true, |p| { p[..n].fill(1); n }, One);
            let r = p.as_raw();
            assert!(r[5 + n..].iter().all(|b| *b == 0xff), "payload of {} bytes: padding {:?}", n, &r[5 + n..]);
        }
    }
}
''', 'a cipher block size of 64 bytes (or 32, with more than 32 bytes of padding)', 'part of the padding is not random')
seed('open-failure-code', 'C02', [(C + 'message/channel/mod.rs', 'OpenFailureReason::Other(r) => r,', 'OpenFailureReason::Other(r) => r | 0x8000_0000,')],
r'''
use nora_ssh_core::message::*;
fn main() {
    for code in [1u32, 4, 5, 0x1234, 0xfe00_0000, 0xffff_ffff] {
        let mut d = vec![92u8, 0, 0, 0, 3];
        d.extend_from_slice(&code.to_be_bytes());
        d.extend_from_slice(&[0, 0, 0, 1, b'd', 0, 0, 0, 0]);
        let m = Message::parse(&d).unwrap();
        let mut b = [0; 64];
        assert_eq!(m.serialize(&mut b).unwrap().0, &d[..], "code {:#x}", code);
    }
}
''', 'a channel open failure with a reason code that has no name and no top bit', 'the code is changed on the wire')
seed('host-key-64k', 'C13', [(C + 'message/key_exchange/ecdh.rs', 'hash.chain_update(&make_string_len(s)).chain_update(s)', 'hash.chain_update(&make_string_len(s)).chain_update(&s[..s.len() & 0xffff])')],
r'''
use nora_ssh_core::{identifier::Identifier, message::key_exchange::ecdh::*};
use sha2::Sha256;
fn h(payload: &[u8]) -> Vec<u8> {
    let id = Identifier::new(b"SSH-2.0-x").unwrap();
    let mut b = [0; 256];
    let key = Key { name: b"n", blob: KeyBlob { identifier: b"i", q: b"q" } };
    KeyExchangeDigest::<Sha256>::default().update(&id).update(&id).update(payload).update(b"k").update(&mut b, &key).update(b"c").update(b"s").update(&[1; 32]).to_vec()
}
fn main() {
    let (mut a, mut b) = (vec![20u8; 65536 + 7], vec![20u8; 65536 + 7]);
    a[65539] = 1;
    b[65539] = 2;
    assert!(h(&a) != h(&b), "two key exchanges that differ have the same hash");
}
''', 'an exchange hash input of 64 KiB or more', 'the hash does not cover the rest of such an input')
