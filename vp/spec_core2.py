"""Contracts for packet framing, ciphers, key derivation, exchange hash and identification strings of nora_ssh_core."""
from .assemble import Contract

K = 'nora_ssh_core::'
P = 'crate::nora_ssh_core::'
CONTRACTS = {}
SP = []
EXTRA = {}


def C(key, **kw):
    if '::packet::' in key:
        kw['pre'] = 'proof { reveal(de32); } ' + kw.get('pre', '')
    CONTRACTS[key] = Contract(key, **kw)


# ------------------------------------------------------------------ packet.rs
PK = K + 'packet::'
D_ = '${nora_ssh_core::packet::Packet.0}'
SP.append(f'''
pub open spec fn bsz(b: {P}packet::BlockSize) -> int {{ match b {{ {P}packet::BlockSize::B8 => 8, {P}packet::BlockSize::B16 => 16, {P}packet::BlockSize::B32 => 32, {P}packet::BlockSize::B64 => 64 }} }}
/// packet length field, padding length and payload of a framed packet
pub open spec fn plen(d: Seq<u8>) -> int {{ de4(d[0], d[1], d[2], d[3]) }}
pub open spec fn ppad(d: Seq<u8>) -> int {{ d[4] as int }}
pub open spec fn ppay(d: Seq<u8>) -> Seq<u8> {{ d.subrange(5, 4 + plen(d) - ppad(d)) }}
/// RFC 4253 section 6, for a length that is (`incl`) or is not part of the padded data
pub open spec fn pk_ok(d: Seq<u8>, bs: int, incl: bool) -> bool {{ d.len() >= 5 && (plen(d) + (if incl {{ 4int }} else {{ 0int }})) % bs == 0 && ppad(d) < plen(d) }}
pub open spec fn pk_in(d: Seq<u8>) -> bool {{ d.len() >= 5 && ppad(d) < plen(d) && 4 + plen(d) <= d.len() }}
/// An outgoing packet `d` for a payload of `n` bytes that `w` (5 bytes in) holds; `o` is the buffer as the payload writer left it.
pub open spec fn framed(d: Seq<u8>, w: Seq<u8>, n: int, bs: int, incl: bool) -> bool {{
    &&& d.len() == 5 + w.len() && pk_ok(d, bs, incl) && 4 <= ppad(d) <= 255 && ppad(d) < bs + 4
    &&& plen(d) == 1 + n + ppad(d) && 4 + plen(d) <= d.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] d[5 + i] == w[i]
    &&& forall|i: int| 4 + plen(d) <= i < d.len() ==> #[trigger] d[i] == w[i - 5]
}}
/// smallest packet that can hold n bytes of payload
pub open spec fn pk_room(n: int, bs: int, incl: bool) -> int {{ n + 5 + bs + 3 }}
''')
ACC = ['C08', 'C09', 'C16', 'C22']
SP.append(f"pub open spec fn pd(p: {P}packet::Packet<'_>) -> Seq<u8> {{ p.{D_}@ }}")
S_ = 'pd(*self)'
V_ = 'pd(self)'
C(PK + 'BlockSize::to_usize', ens=[(ACC, 'r == bsz(self)')], safety=ACC)
C(PK + 'Packet::packet_len', req=[([], f'{S_}.len() >= 4')], ens=[(ACC, f'r == plen({S_})')], safety=ACC)
C(PK + 'Packet::packet_len_bytes', req=[([], f'{S_}.len() >= 4')], ens=[(ACC, f'r@ == {S_}.subrange(0, 4)')], safety=ACC)
C(PK + 'Packet::padding_len', req=[([], f'{S_}.len() >= 5')], ens=[(ACC, f'r == ppad({S_})')], safety=ACC)
C(PK + 'Packet::payload_len', req=[([], f'{S_}.len() >= 5 && ppad({S_}) < plen({S_})')], ens=[(ACC, f'r == plen({S_}) - ppad({S_}) - 1')], safety=ACC)
C(PK + 'Packet::packet_bytes', req=[([], f'{S_}.len() >= 4 + plen({S_}) && {S_}.len() >= 4')], ens=[(ACC, f'r@ == {S_}.subrange(4, 4 + plen({S_}))')], safety=ACC)
C(PK + 'Packet::payload', req=[([], f'pk_in({S_})')], ens=[(ACC, f'r@ == ppay({S_})')], safety=ACC)
C(PK + 'Packet::as_raw', req=[([], f'{S_}.len() >= 4 && {S_}.len() >= 4 + plen({S_})')], ens=[(ACC, f'r@ == {S_}.subrange(0, 4 + plen({S_}))')], safety=ACC)
O_ = 'pd(*old(self))'
for n, lo, hi, rq in (('packet_bytes_mut', '4', f'4 + plen({O_})', f'{O_}.len() >= 4 && 4 + plen({O_}) <= {O_}.len()'), ('payload_mut', '5', f'4 + plen({O_}) - ppad({O_})', f'pk_in({O_})'),
                      ('as_raw_mut', '0', f'4 + plen({O_})', f'{O_}.len() >= 4 && 4 + plen({O_}) <= {O_}.len()')):
    C(PK + 'Packet::' + n, req=[([], rq)], ens=[(ACC, f'r@ == {O_}.subrange({lo}, {hi}) && pd(*final(self)) =~= {O_}.subrange(0, {lo}) + final(r)@ + {O_}.subrange({hi}, {O_}.len() as int)')], safety=ACC)
C(PK + 'Packet::into_payload', req=[([], f'pk_in({V_})')], ens=[(ACC, f'r@ == ppay({V_}) && final(self.{D_})@ == {V_}.subrange(0, 5) + final(r)@ + {V_}.subrange(4 + plen({V_}) - ppad({V_}), {V_}.len() as int)')], safety=ACC)
C(PK + 'Packet::into_raw', req=[([], f'{V_}.len() >= 4 && {V_}.len() >= 4 + plen({V_}) + $1')], ens=[(ACC, f'r@ == {V_}.subrange(0, 4 + plen({V_}) + $1) && final(self.{D_})@ == final(r)@ + {V_}.subrange(4 + plen({V_}) + $1, {V_}.len() as int)')], safety=ACC)
# masks of the four block sizes as remainders, whichever way the code writes them
BITS = 'proof { ' + ' '.join(f'assert(forall|x: usize| #[trigger] (x & !{n - 1}usize) == x - x % {n}) by(bit_vector); assert(forall|x: usize| #[trigger] (x & {n - 1}usize) == x % {n}) by(bit_vector);' for n in (8, 16, 32, 64)) + ' }'
C(PK + 'Packet::wrap_raw', cases=['$3 is B8', '$3 is B16', '$3 is B32', '$3 is B64'], pre=BITS, req=[([], 'old($1)@.len() >= 5')],
  ens=[(['C09', 'C16', 'C22'], 'r is Ok == pk_ok(old($1)@, bsz($3), $2)'),
       (['C09', 'C16', 'C22'], f'r matches Ok(p) ==> pd(p) == old($1)@ && final(p.{D_})@ == final($1)@'),
       (['C09'], 'r is Err ==> final($1)@ == old($1)@')], safety=['C09', 'C22'])
C(PK + 'Packet::wrap', cases=['$2 is B8', '$2 is B16', '$2 is B32', '$2 is B64'],
  req=[([], 'old($1)@.len() >= 5'),
       ([], 'forall|s: &mut [u8]| (*s)@ == old($1)@.subrange(5, old($1)@.len() as int) ==> #[trigger] $4.requires((s,))'),
       ([], 'forall|s: &mut [u8], n: usize| (*s)@ == old($1)@.subrange(5, old($1)@.len() as int) && #[trigger] $4.ensures((s,), n) ==> pk_room(n as int, bsz($2), $3) <= old($1)@.len() && n <= 0x7fff_0000')],
  ens=[(['C08', 'C16'], f'exists|s: &mut [u8], n: usize| (*s)@ == old($1)@.subrange(5, old($1)@.len() as int) && #[trigger] $4.ensures((s,), n) && framed(pd(r), (*final(s))@, n as int, bsz($2), $3)'),
       (['C08', 'C16'], f'final(r.{D_})@ == final($1)@')], safety=['C08', 'C22'],
  pre=BITS)

# ------------------------------------------------------------------ identifier.rs
IDF = '${nora_ssh_core::identifier::Identifier.0}'
SP.append(f"pub open spec fn idv(i: {P}identifier::Identifier<'_>) -> Seq<u8> {{ i.{IDF}@ }}")
C(K + 'identifier::Identifier::new', ens=[(['C15', 'C13'], 'r is Some == ($1@.len() <= 253)'), (['C15', 'C13'], 'r matches Some(i) ==> idv(i) == $1@')], safety=['C15'])
C(K + 'identifier::<Identifier as AsRef<[u8]>>::as_ref', trait_ens='r@ == idv(*self)', ens=[(['C15', 'C13'], '')], safety=['C15', 'C13'])

# ------------------------------------------------------------------ key derivation
KX = K + 'key_exchange::'
KF = ['${nora_ssh_core::key_exchange::KeyMaterial.%d}' % i for i in range(4)]
DG = 'crate::ext::digest::Digest'
SP.append(f'''
pub open spec fn km_wf<D: {DG} + crate::ext::digest::OutputSizeUser>(m: {P}key_exchange::KeyMaterial<D>) -> bool {{ m.{KF[1]} <= 37 }}
pub open spec fn km_k<D: {DG} + crate::ext::digest::OutputSizeUser>(m: {P}key_exchange::KeyMaterial<D>) -> Seq<u8> {{ m.{KF[0]}@.subrange(0, m.{KF[1]} as int) }}
pub open spec fn km_h<D: {DG} + crate::ext::digest::OutputSizeUser>(m: {P}key_exchange::KeyMaterial<D>) -> Seq<u8> {{ m.{KF[2]}@ }}
/// RFC 4253 section 7.2: n blocks of key material for letter x (K already encoded as mpint; the session id is the exchange hash of the first key exchange)
pub open spec fn kdf<D: {DG}>(k: Seq<u8>, h: Seq<u8>, x: u8, n: int) -> Seq<u8>
    decreases n,
{{
    if n <= 1 {{ D::h(k + h + seq![x] + h) }} else {{ kdf::<D>(k, h, x, n - 1) + D::h(k + h + kdf::<D>(k, h, x, n - 1)) }}
}}
pub open spec fn is_c2s(d: {P}key_exchange::Direction) -> bool {{ d is ClientToServer }}
''')
T12 = ['C12', 'C11']
SD = 'km_k(*self)'
C(KX + 'KeyMaterial::new', ens=[(['C12', 'C07'], 'km_wf(r) && km_k(r) == e_mpint($1@) && km_h(r) == $2@')], safety=['C12'], pre='proof { reveal(wrote); lemma_strip0_len($1@); }')
C(KX + 'KeyMaterial::digest_k1', req=[([], 'km_wf(*self) && D::out_size() == 32')], ens=[(T12, 'r@ == kdf::<D>(km_k(*self), km_h(*self), $1, 1)')], safety=['C12'],
  pre='broadcast use group_kdf;')
C(KX + 'KeyMaterial::digest_kn', req=[([], 'km_wf(*self) && D::out_size() == 32')], ens=[(T12, 'r@ == D::h(km_k(*self) + km_h(*self) + flat($1@))')], safety=['C12'],
  loops={1: 'invariant #vp_s@ == $1@, #vp_i <= #vp_s@.len(), #digest.absorbed() == km_k(*self) + km_h(*self) + flat($1@.subrange(0, #vp_i as int)), decreases #vp_s@.len() - #vp_i'}, pre='broadcast use group_kdf; proof { lemma_flat_all($1@); }', attrs='#[verifier::loop_isolation(false)]')
C(KX + 'KeyMaterial::gen', req=[([], 'km_wf(*self) && D::out_size() == 32 && old($2)@.len() >= 1')],
  ens=[(T12, 'r@ == kdf::<D>(km_k(*self), km_h(*self), $1, old($2)@.len() as int)'), (T12, 'flat(final($2)@) == r@ && final($2)@.len() == old($2)@.len()')], safety=['C12'],
  loops={1: 'invariant $2@.len() == old($2)@.len(), #vp_n == $2@.len(), 1 <= #vp_i <= #vp_n, km_wf(*self), D::out_size() == 32, flat($2@.subrange(0, #vp_i as int)) == kdf::<D>(km_k(*self), km_h(*self), $1, #vp_i as int), #vp_i == #vp_n ==> flat($2@) == flat($2@.subrange(0, #vp_i as int)), decreases #vp_n - #vp_i'}, pre='broadcast use group_kdf;', attrs='#[verifier::loop_isolation(false)]')
for n, c in (('initial_iv', 65), ('encryption_key', 67), ('integrity_key', 69)):
    C(KX + 'KeyMaterial::' + n, req=[([], 'km_wf(*self) && D::out_size() == 32 && old($2)@.len() >= 1')],
      ens=[(T12, f'r@ == kdf::<D>(km_k(*self), km_h(*self), if is_c2s($1) {{ {c}u8 }} else {{ {c + 1}u8 }}, old($2)@.len() as int)'),
           (T12, 'flat(final($2)@) == r@ && final($2)@.len() == old($2)@.len()')], safety=['C12'])

# ------------------------------------------------------------------ exchange hash
DX = K + 'message::key_exchange::ecdh::digest::'
DP = P + 'message::key_exchange::ecdh::digest::'
STATES = ['KeyExchangeDigest', 'PostClientId', 'PostServerId', 'PostClientKexInit', 'PostServerKexInit', 'PostPublicHostKey', 'PostClientEphermalKey', 'PostServerEphermalKey']
for s in STATES:
    SP.append(f'pub open spec fn ab_{s}<D: {DG}>(d: {DP}{s}<D>) -> Seq<u8> {{ d.${{nora_ssh_core::message::key_exchange::ecdh::digest::{s}.0}}.absorbed() }}')
T13 = ['C13', 'C14']
C(DX + 'f', req=[([], 'slen($2@)')], ens=[(T13, 'r.absorbed() == $1.absorbed() + e_str($2@)')], safety=['C13'], pre='proof { reveal(e_str); }')
C(DX + 'g', req=[([], '$2@.len() <= 123')], ens=[(T13, 'r.absorbed() == $1.absorbed() + e_mpint($2@)')], safety=['C13'], pre='proof { reveal(wrote); lemma_strip0_len($2@); }')
C(DX + 'KeyExchangeDigest::update', req=[([], 'slen(idv(*$1))')], ens=[(T13, 'ab_PostClientId(r) == ab_KeyExchangeDigest(self) + e_str(idv(*$1))')], safety=['C13'])
C(DX + 'PostClientId::update', req=[([], 'slen(idv(*$1))')], ens=[(T13, 'ab_PostServerId(r) == ab_PostClientId(self) + e_str(idv(*$1))')], safety=['C13'])
for a, b in (('PostServerId', 'PostClientKexInit'), ('PostClientKexInit', 'PostServerKexInit'), ('PostPublicHostKey', 'PostClientEphermalKey'), ('PostClientEphermalKey', 'PostServerEphermalKey')):
    C(DX + a + '::update', req=[([], 'slen($1@)')], ens=[(T13, f'ab_{b}(r) == ab_{a}(self) + e_str($1@)')], safety=['C13'])
C(DX + 'PostServerKexInit::update', req=[([], 'wf_Key(v_Key(*$2)) && slen(e_Key(v_Key(*$2))) && e_Key(v_Key(*$2)).len() <= old($1)@.len()')],
  ens=[(T13, 'ab_PostPublicHostKey(r) == ab_PostServerKexInit(self) + e_str(e_Key(v_Key(*$2)))')], safety=['C13'], pre='broadcast use lemma_prefix;')
C(DX + 'PostServerEphermalKey::update', req=[([], '$1@.len() <= 123')], ens=[(T13, 'r@ == D::h(ab_PostServerEphermalKey(self) + e_mpint($1@)) && r@.len() == D::out_size()')], safety=['C13'])
SP.append('''
/// RFC 5656 section 4: the bytes whose hash is the exchange hash H
pub open spec fn xhash_in(vc: Seq<u8>, vs: Seq<u8>, ic: Seq<u8>, is: Seq<u8>, ks: Seq<u8>, qc: Seq<u8>, qs: Seq<u8>, k: Seq<u8>) -> Seq<u8> {
    e_str(vc) + (e_str(vs) + (e_str(ic) + (e_str(is) + (e_str(ks) + (e_str(qc) + (e_str(qs) + e_mpint(k)))))))
}
/// the same, in the order in which the typestate chain absorbs it
pub open spec fn xhash_l(vc: Seq<u8>, vs: Seq<u8>, ic: Seq<u8>, is: Seq<u8>, ks: Seq<u8>, qc: Seq<u8>, qs: Seq<u8>, k: Seq<u8>) -> Seq<u8> {
    Seq::<u8>::empty() + e_str(vc) + e_str(vs) + e_str(ic) + e_str(is) + e_str(ks) + e_str(qc) + e_str(qs) + e_mpint(k)
}
/// The typestate chain absorbs exactly that.
pub proof fn lemma_xhash(vc: Seq<u8>, vs: Seq<u8>, ic: Seq<u8>, is: Seq<u8>, ks: Seq<u8>, qc: Seq<u8>, qs: Seq<u8>, k: Seq<u8>)
    ensures xhash_l(vc, vs, ic, is, ks, qc, qs, k) == xhash_in(vc, vs, ic, is, ks, qc, qs, k),
{ broadcast use lemma_assoc; assert(Seq::<u8>::empty() + e_str(vc) =~= e_str(vc)); }
''')

# ------------------------------------------------------------------ cipher
CC = K + 'cipher::chacha20poly1305::'
CP = P + 'cipher::chacha20poly1305::ChaCha20Poly1305'
CF = ['${nora_ssh_core::cipher::chacha20poly1305::ChaCha20Poly1305.%d}' % i for i in range(3)]
SP.append(f'''
pub open spec fn ckl(c: {CP}) -> Seq<u8> {{ c.{CF[0]}@ }}
pub open spec fn ckd(c: {CP}) -> Seq<u8> {{ c.{CF[1]}@ }}
pub open spec fn cct(c: {CP}) -> u64 {{ c.{CF[2]} }}
pub open spec fn sameck(a: {CP}, b: {CP}) -> bool {{ ckl(a) == ckl(b) && ckd(a) == ckd(b) }}
/// OpenSSH PROTOCOL.chacha20poly1305
pub open spec fn mac_of(kd: Seq<u8>, ctr: u64, data: Seq<u8>) -> Seq<u8> {{
    crate::ext::poly1305::poly(crate::ext::chacha20::xor_ks(Seq::new(32, |i: int| 0u8), kd, be64(ctr), 0), data)
}}
pub open spec fn enc_len(kl: Seq<u8>, ctr: u64, d: Seq<u8>) -> Seq<u8> {{ crate::ext::chacha20::xor_ks(d, kl, be64(ctr), 0) }}
pub open spec fn enc_data(kd: Seq<u8>, ctr: u64, d: Seq<u8>) -> Seq<u8> {{ crate::ext::chacha20::xor_ks(d, kd, be64(ctr), 64) }}
pub open spec fn enc_pkt(kl: Seq<u8>, kd: Seq<u8>, ctr: u64, d: Seq<u8>) -> Seq<u8> {{
    let ct = enc_len(kl, ctr, d.subrange(0, 4)) + enc_data(kd, ctr, d.subrange(4, d.len() as int));
    ct + mac_of(kd, ctr, ct)
}}
pub open spec fn authentic(kd: Seq<u8>, ctr: u64, d: Seq<u8>) -> bool {{ mac_of(kd, ctr, d.subrange(0, d.len() - 16)) =~= d.subrange(d.len() - 16, d.len() as int) }}
pub broadcast proof fn axiom_poly_len(k: Seq<u8>, d: Seq<u8>) ensures #[trigger] crate::ext::poly1305::poly(k, d).len() == 16 {{ admit(); }}
pub proof fn lemma_xor_inv(s: Seq<u8>, k: Seq<u8>, n: Seq<u8>, p: int)
    ensures crate::ext::chacha20::xor_ks(crate::ext::chacha20::xor_ks(s, k, n, p), k, n, p) == s,
{{
    assert(forall|a: u8, b: u8| (a ^ b) ^ b == a) by(bit_vector);
    assert(crate::ext::chacha20::xor_ks(crate::ext::chacha20::xor_ks(s, k, n, p), k, n, p) =~= s);
}}
/// `enc_pkt` piece by piece, so that it does not matter how the code cuts the packet up
pub open spec fn is_enc(kl: Seq<u8>, kd: Seq<u8>, ctr: u64, p: Seq<u8>, c: Seq<u8>) -> bool {{
    &&& c.len() == p.len() + 16
    &&& c.subrange(0, 4) =~= enc_len(kl, ctr, p.subrange(0, 4))
    &&& c.subrange(4, p.len() as int) =~= enc_data(kd, ctr, p.subrange(4, p.len() as int))
    &&& c.subrange(p.len() as int, c.len() as int) =~= mac_of(kd, ctr, c.subrange(0, p.len() as int))
}}
pub broadcast proof fn lemma_is_enc(kl: Seq<u8>, kd: Seq<u8>, ctr: u64, p: Seq<u8>, c: Seq<u8>)
    requires #[trigger] is_enc(kl, kd, ctr, p, c), p.len() >= 4,
    ensures c == enc_pkt(kl, kd, ctr, p),
{{
    let n = p.len() as int;
    assert(c.subrange(0, n) =~= c.subrange(0, 4) + c.subrange(4, n));
    assert(c =~= c.subrange(0, n) + c.subrange(n, c.len() as int));
}}
pub broadcast proof fn lemma_cat_head(a: Seq<u8>, b: Seq<u8>, n: int)
    requires n == a.len(),
    ensures (#[trigger] (a + b).subrange(0, n)) == a,
{{ assert((a + b).subrange(0, n) =~= a); }}
/// C10: decrypting what was encrypted under the same keys and sequence number is accepted and gives back the packet
pub proof fn lemma_cipher_rt(kl: Seq<u8>, kd: Seq<u8>, ctr: u64, d: Seq<u8>)
    requires d.len() >= 4,
    ensures ({{ let c = enc_pkt(kl, kd, ctr, d);
        authentic(kd, ctr, c) && c.len() == d.len() + 16
        && enc_len(kl, ctr, c.subrange(0, 4)) == d.subrange(0, 4)
        && enc_data(kd, ctr, c.subrange(4, c.len() - 16)) == d.subrange(4, d.len() as int) }}),
{{
    let a = enc_len(kl, ctr, d.subrange(0, 4)); let b = enc_data(kd, ctr, d.subrange(4, d.len() as int));
    let c = enc_pkt(kl, kd, ctr, d);
    axiom_poly_len(crate::ext::chacha20::xor_ks(Seq::new(32, |i: int| 0u8), kd, be64(ctr), 0), a + b);
    lemma_xor_inv(d.subrange(0, 4), kl, be64(ctr), 0); lemma_xor_inv(d.subrange(4, d.len() as int), kd, be64(ctr), 64);
    assert(c.subrange(0, c.len() - 16) =~= a + b);
    assert(c.subrange(c.len() - 16, c.len() as int) =~= mac_of(kd, ctr, a + b));
    assert(c.subrange(0, 4) =~= a);
    assert(c.subrange(4, c.len() - 16) =~= b);
}}
/// C11: different sequence numbers have different nonces
pub proof fn lemma_nonce_inj(a: u64, b: u64)
    requires be64(a) == be64(b),
    ensures a == b,
{{
    reveal(be64);
    let (ah, al, bh, bl) = ((a / 4294967296) as u32, (a % 4294967296) as u32, (b / 4294967296) as u32, (b % 4294967296) as u32);
    lemma_be32(ah); lemma_be32(al); lemma_be32(bh); lemma_be32(bl);
    assert(be64(a).subrange(0, 4) =~= be32(ah as int)); assert(be64(b).subrange(0, 4) =~= be32(bh as int));
    assert(be64(a).subrange(4, 8) =~= be32(al as int)); assert(be64(b).subrange(4, 8) =~= be32(bl as int));
}}
''')
T10 = ['C10', 'C16']
C(CC + 'ChaCha20Poly1305::nonce', ens=[(['C11', 'C10'], 'r@ == be64(cct(*self))')], safety=['C11'], pre='proof { reveal(be64); }')
C(CC + 'ChaCha20Poly1305::compute_tag', ens=[(T10, 'r@ == mac_of(ckd(*self), cct(*self), $1@)')], safety=['C10'])
C(CC + 'ChaCha20Poly1305::authenticate', req=[([], '$1@.len() >= 16')], ens=[(T10, 'r == authentic(ckd(*self), cct(*self), $1@)')], safety=['C10', 'C22'])
C(CC + 'ChaCha20Poly1305::apply_data', ens=[(T10, 'final($1)@ == enc_data(ckd(*self), cct(*self), old($1)@)')], safety=['C10'])
C(CC + 'ChaCha20Poly1305::from_key_material', req=[([], 'km_wf(*$1) && D::out_size() == 32')],
  ens=[(['C11', 'C12', 'C16'], 'ckd(r) + ckl(r) == kdf::<D>(km_k(*$1), km_h(*$1), if is_c2s($2) { 67u8 } else { 68u8 }, 2) && ckd(r).len() == 32 && ckl(r).len() == 32'),
       (['C11'], 'cct(r) == $3')], safety=['C11'], pre='proof { reveal_with_fuel(flat, 3); } broadcast use group_kdf;')
I = CC + '<ChaCha20Poly1305 as Cipher>::'
C(I + 'decrypt_length', ens=[(T10, 'r matches Ok(l) && l@ == enc_len(ckl(*old(self)), cct(*old(self)), $1@)'), (['C11', 'C10', 'C16'], '*final(self) == *old(self)')], safety=['C10'])
C(I + 'decrypt_data', req=[([], 'old($1)@.len() >= 20 && cct(*old(self)) < 0xffff_ffff_ffff_ffff')],
  ens=[(T10, 'r is Ok == authentic(ckd(*old(self)), cct(*old(self)), old($1)@)'),
       (T10, 'r is Ok ==> final($1)@ == old($1)@.subrange(0, 4) + enc_data(ckd(*old(self)), cct(*old(self)), old($1)@.subrange(4, old($1)@.len() - 16)) + old($1)@.subrange(old($1)@.len() - 16, old($1)@.len() as int)'),
       (['C11', 'C10', 'C16'], 'r is Ok ==> sameck(*final(self), *old(self)) && cct(*final(self)) == cct(*old(self)) + 1'),
       (['C10', 'C11', 'C16'], 'r is Err ==> final($1)@ == old($1)@ && *final(self) == *old(self)')], safety=['C10', 'C22'])
C(I + 'encrypt', req=[([], 'old($1)@.len() >= 20 && cct(*old(self)) < 0xffff_ffff_ffff_ffff')],
  ens=[(T10, 'is_enc(ckl(*old(self)), ckd(*old(self)), cct(*old(self)), old($1)@.subrange(0, old($1)@.len() - 16), final($1)@)'),
       (T10, 'final($1)@ == enc_pkt(ckl(*old(self)), ckd(*old(self)), cct(*old(self)), old($1)@.subrange(0, old($1)@.len() - 16))'),
       (['C11', 'C10', 'C16'], 'sameck(*final(self), *old(self)) && cct(*final(self)) == cct(*old(self)) + 1')], safety=['C10'], pre='proof { broadcast use {lemma_is_enc, lemma_cat_head}; }')
C(I + 'tag_size', ens=[(['C10', 'C16'], 'r == 16')], safety=['C10'])
C(I + 'block_size', ens=[(['C10', 'C16'], 'bsz(r) == 8')], safety=['C10'])
