"""Contracts for the transport half of nora_ssh: packets, encrypted transport, identification, channel table."""
from .assemble import Contract
from .spec_core import hides, TOPV, CHV, UAV

K = 'nora_ssh::'
P = 'crate::nora_ssh_core::'
N = 'crate::nora_ssh::'
CONTRACTS, SP, EXTRA = {}, [], {'types': {}}
CH = P + 'cipher::chacha20poly1305::ChaCha20Poly1305'
PF = '${nora_ssh_core::packet::Packet.0}'


def C(key, **kw):
    CONTRACTS[K + key] = Contract(K + key, **kw)



# ------------------------------------------------------------------ packet.rs
SP.append('''
/// the first packet of `s` is well formed, carries `pay`, and `t` follows it
pub open spec fn pkt_read(s: Seq<u8>, t: Seq<u8>, bs: int, incl: bool, pay: Seq<u8>) -> bool {
    pk_ok(s, bs, incl) && 8 <= plen(s) && 4 + plen(s) <= s.len() && pay =~= ppay(s) && t =~= s.subrange(4 + plen(s), s.len() as int)
}
''')
PE = N + 'packet::PacketParseError'
T9 = ['C09', 'C22']
C('packet::parse', req=[([], 'old($1)@.len() >= 4')], safety=T9,
  pre='proof { reveal(de32); }',
  ens=[(T9, f'r matches Ok(p) ==> pd(p).len() == old($1)@.len() && 8 <= plen(pd(p)) && 4 + plen(pd(p)) <= pd(p).len() && pk_ok(pd(p), bsz($4), $3)'),
       (T9, f'r matches Ok(p) ==> old($2).input() == pd(p).subrange(0, 4 + plen(pd(p))) + final($2).input()'),
       (['C09', 'C14'], f'r matches Ok(p) ==> pkt_read(old($2).input(), final($2).input(), bsz($4), $3, ppay(pd(p)))'),
       (['C09'], f'r matches Ok(p) ==> final(p.{PF})@ == final($1)@'),
       (['C09'], f'r matches Err({PE}::TooLarge(n)) ==> old($2).input().len() >= 4 && n == de32(old($2).input().subrange(0, 4)) && n > old($1)@.len() - 4 && final($2).input() == old($2).input().subrange(4, old($2).input().len() as int)'),
       (['C09'], f'r matches Err({PE}::TooSmall(n)) ==> old($2).input().len() >= 4 && n == de32(old($2).input().subrange(0, 4)) && n < 8'),
       (['C09'], f'r matches Err({PE}::WrapRaw(_)) ==> old($2).input().len() >= 5 && !pk_ok(old($2).input(), bsz($4), $3)')])

# ------------------------------------------------------------------ encrypted transport
SP.append(f'''
/// `w` is one encrypted packet carrying the payload `pay`, for sequence number `ctr`
pub open spec fn sealed(w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, ctr: u64, pay: Seq<u8>) -> bool {{
    exists|d: Seq<u8>| #![trigger enc_pkt(kl, kd, ctr, d)] w == enc_pkt(kl, kd, ctr, d) && frames(d, pay)
}}
/// `d` is exactly one packet with payload `pay`
pub open spec fn frames(d: Seq<u8>, pay: Seq<u8>) -> bool {{ pk_ok(d, 8, false) && d.len() == 4 + plen(d) && ppad(d) >= 4 && ppay(d) =~= pay }}

pub broadcast proof fn lemma_frames(d: Seq<u8>, w: Seq<u8>, n: int, m: int, e: int)
    requires #[trigger] framed(d, w, n, 8, false), e == 4 + plen(d), e <= m <= d.len(), 0 <= n,
    ensures frames(#[trigger] d.subrange(0, m).subrange(0, e), w.subrange(0, n)),
{{
    let x = d.subrange(0, m).subrange(0, e);
    assert(plen(x) == plen(d) && ppad(x) == ppad(d));
    assert forall|i: int| 0 <= i < n implies #[trigger] ppay(x)[i] == w.subrange(0, n)[i] by {{ assert(d[5 + i] == w[i]); }}
}}
/// what the receiver with the same keys and sequence number makes of `w`
pub open spec fn plain(w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, ctr: u64) -> Seq<u8> {{ enc_len(kl, ctr, w.subrange(0, 4)) + enc_data(kd, ctr, w.subrange(4, w.len() - 16)) }}
pub open spec fn opened(w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, ctr: u64, pay: Seq<u8>) -> bool {{
    let d = plain(w, kl, kd, ctr);
    w.len() >= 21 && authentic(kd, ctr, w) && pk_ok(d, 8, false) && plen(d) == d.len() - 4 && ppay(d) =~= pay
}}
/// C16: what is sent is what is received
pub proof fn lemma_transport_rt(w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, ctr: u64, pay: Seq<u8>)
    requires sealed(w, kl, kd, ctr, pay),
    ensures opened(w, kl, kd, ctr, pay),
{{
    let d = choose|d: Seq<u8>| #![trigger enc_pkt(kl, kd, ctr, d)] w == enc_pkt(kl, kd, ctr, d) && frames(d, pay);
    lemma_cipher_rt(kl, kd, ctr, d);
    assert(plain(w, kl, kd, ctr) =~= d);
}}
''')
OUT = '(*old(self)).${nora_ssh::host::Out.0}'
OUTF = '(*final(self)).${nora_ssh::host::Out.0}'
IN = '(*old(self)).${nora_ssh::host::In.0}'
INF = '(*final(self)).${nora_ssh::host::In.0}'
T16 = ['C16']
SUB = 'old($1)@.subrange(5, old($1)@.len() as int)'
C('host::Out::send', safety=['C16', 'C22'], pre='broadcast use lemma_frames;',
  req=[([], 'old($1)@.len() >= 5'), ([], f'cct({OUT}) < 0xffff_ffff_ffff_ffff'),
       ([], f'forall|s: &mut [u8]| (*s)@ == {SUB} ==> #[trigger] $2.requires((s,))'),
       ([], f'forall|s: &mut [u8], n: usize| (*s)@ == {SUB} && #[trigger] $2.ensures((s,), n) ==> pk_room(n as int, 8, false) + 16 <= old($1)@.len() && n <= 0x7fff_0000')],
  ens=[(T16, f'r is Ok ==> exists|s: &mut [u8], n: usize, d: Seq<u8>| (*s)@ == {SUB} && #[trigger] $2.ensures((s,), n) && n <= (*final(s))@.len() && final($3).written() == old($3).written() + #[trigger] enc_pkt(ckl({OUT}), ckd({OUT}), cct({OUT}), d) && frames(d, (*final(s))@.subrange(0, n as int))'),
       (['C16', 'C11'], f'sameck({OUTF}, {OUT}) && cct({OUTF}) == cct({OUT}) + 1')])
IE = N + 'host::InError'
C('host::In::recv', safety=['C16', 'C22'],
  req=[([], 'old($1)@.len() >= 5'), ([], f'cct({IN}) < 0xffff_ffff_ffff_ffff')], pre='proof { reveal(de32); }',
  ens=[(T16, f'r matches Ok(p) ==> exists|w: Seq<u8>| #[trigger] authentic(ckd({IN}), cct({IN}), w) && old($2).input() =~= w + final($2).input() && opened(w, ckl({IN}), ckd({IN}), cct({IN}), p@)'),
       (T16, f'r matches Err({IE}::BufferTooSmall(n)) ==> old($2).input().len() >= 4 && n == de32(enc_len(ckl({IN}), cct({IN}), old($2).input().subrange(0, 4))) && 4 + n + 16 > old($1)@.len()'),
       (T16, f'r matches Err({IE}::Cipher(_)) ==> exists|w: Seq<u8>| !(#[trigger] authentic(ckd({IN}), cct({IN}), w)) && old($2).input() =~= w + final($2).input() && w.len() == 20 + de32(enc_len(ckl({IN}), cct({IN}), w.subrange(0, 4)))'),
       (T16, f'r matches Err({IE}::Packet(_)) ==> exists|w: Seq<u8>| #[trigger] authentic(ckd({IN}), cct({IN}), w) && old($2).input() =~= w + final($2).input() && w.len() >= 20 && (w.len() >= 21 ==> !pk_ok(plain(w, ckl({IN}), ckd({IN}), cct({IN})), 8, false))'),
       (['C16', 'C22'], 'r matches Ok(p) ==> p@.len() + 21 <= old($1)@.len()'),
       (['C16', 'C11'], f'r is Ok ==> sameck({INF}, {IN}) && cct({INF}) == cct({IN}) + 1')])
C('host::HostClient::session_identifier', ens=[(['C14', 'C17'], 'r@ == self.${nora_ssh::host::HostClient.2}@')], safety=['C14'])
C('host::HostClient::into_send_receive', ens=[(['C14', 'C16'], 'r.0 == self.${nora_ssh::host::HostClient.1} && r.1 == self.${nora_ssh::host::HostClient.0}')], safety=['C14'])

# ------------------------------------------------------------------ channel table
AF = '${nora_ssh::arena::Arena.0}'
SP.append(f'''
/// the channel open under identifier i
pub open spec fn ar_get<T>(a: {N}arena::Arena<T>, i: int) -> Option<T> {{ if 0 <= i < a.{AF}@.len() {{ a.{AF}@[i] }} else {{ None }} }}
pub open spec fn ar_same<T>(a: {N}arena::Arena<T>, b: {N}arena::Arena<T>, i: int) -> bool {{ forall|j: int| j != i ==> #[trigger] ar_get(a, j) == ar_get(b, j) }}
''')
T19 = ['C19', 'C20']
C('arena::Arena::new', ens=[(T19, 'forall|i: int| #[trigger] ar_get(r, i) is None')], safety=['C19'])
C('arena::Arena::insert', pre=f'assume(self.{AF}@.len() < 0xffff_ffff);',
  ens=[(T19, 'ar_get(*old(self), r as int) is None && ar_get(*final(self), r as int) == Some($1)'), (T19, 'ar_same(*old(self), *final(self), r as int)')], safety=['C19', 'C22'],
  loops={1: f'invariant #vp_s@ == old(self).{AF}@, #vp_i <= #vp_s@.len(), #vp_r is None, ensures (#vp_r matches Some(k) ==> k < #vp_s@.len() && #vp_s@[k as int] is None), #vp_s@ == old(self).{AF}@, decreases #vp_s@.len() - #vp_i'}, attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]')
C('arena::Arena::remove', ens=[(T19, 'r == ar_get(*old(self), $1 as int) && ar_get(*final(self), $1 as int) is None'), (T19, 'ar_same(*old(self), *final(self), $1 as int)')], safety=['C19', 'C22'])
C('arena::Arena::get_mut', ens=[(T19, 'match r { Some(p) => ar_get(*old(self), $1 as int) == Some(*p) && ar_get(*final(self), $1 as int) == Some(*final(p)), None => ar_get(*old(self), $1 as int) is None && ar_get(*final(self), $1 as int) is None }'),
                               (T19, 'ar_same(*old(self), *final(self), $1 as int)')], safety=['C19', 'C22'])

# ------------------------------------------------------------------ identification strings
SP.append('''
/// a line starts at position k
pub open spec fn line_at(s: Seq<u8>, k: int) -> bool { k == 0 || (2 <= k <= s.len() && s[k - 2] == 13 && s[k - 1] == 10) }
/// "SSH-" at the start of a line
pub open spec fn id_at(s: Seq<u8>, k: int) -> bool { line_at(s, k) && 0 <= k && k + 4 <= s.len() && s[k] == 83 && s[k + 1] == 83 && s[k + 2] == 72 && s[k + 3] == 45 }
pub open spec fn id_first(s: Seq<u8>, k: int) -> bool { id_at(s, k) && forall|j: int| 0 <= j < k ==> !#[trigger] id_at(s, j) }
pub open spec fn v2_at(s: Seq<u8>, k: int) -> bool { k + 4 <= s.len() && s[k] == 50 && s[k + 1] == 46 && s[k + 2] == 48 && s[k + 3] == 45 }
pub open spec fn crlf_at(s: Seq<u8>, k: int) -> bool { 0 <= k && k + 1 < s.len() && s[k] == 13 && s[k + 1] == 10 }
/// the state machine that looks for "SSH-", after n bytes of s
pub open spec fn id_state(s: Seq<u8>, n: int) -> int {
    if line_at(s, n) { 0 }
    else if s[n - 1] == 13 { 4 }
    else if n >= 1 && line_at(s, n - 1) && s[n - 1] == 83 { 1 }
    else if n >= 2 && line_at(s, n - 2) && s[n - 2] == 83 && s[n - 1] == 83 { 2 }
    else if n >= 3 && line_at(s, n - 3) && s[n - 3] == 83 && s[n - 2] == 83 && s[n - 1] == 72 { 3 }
    else { 5 }
}
''')
SP.append(f'''
/// `t` is what is left of `s`
pub open spec fn rest(s: Seq<u8>, t: Seq<u8>) -> bool {{ t.len() <= s.len() && t =~= s.subrange(s.len() - t.len(), s.len() as int) }}
pub broadcast proof fn lemma_rest(s: Seq<u8>, x: Seq<u8>, t: Seq<u8>)
    requires #[trigger] rest(s, x + t),
    ensures rest(s, t), forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == s[s.len() - t.len() - x.len() + i],
{{
    let n = s.len() - t.len();
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[n + i] by {{ assert((x + t)[x.len() + i] == s.subrange(n - x.len(), s.len() as int)[x.len() + i]); }}
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == s[s.len() - t.len() - x.len() + i] by {{ assert((x + t)[i] == s.subrange(n - x.len(), s.len() as int)[i]); }}
}}
/// where the identification line starts
pub open spec fn id_pos(s: Seq<u8>) -> int {{ choose|k: int| id_first(s, k) }}
pub broadcast proof fn lemma_id_pos(s: Seq<u8>, k: int)
    requires #[trigger] id_first(s, k),
    ensures id_pos(s) == k,
{{ let j = id_pos(s); assert(id_first(s, j)); if j < k {{ assert(!id_at(s, j)); }} if k < j {{ assert(!id_at(s, k)); }} }}
pub open spec fn idst(s: {N}identifier::State) -> int {{
    match s {{ {N}identifier::State::EolLf => 0, {N}identifier::State::S => 1, {N}identifier::State::SS => 2, {N}identifier::State::SSH => 3, {N}identifier::State::EolCr => 4, {N}identifier::State::Ignore => 5 }}
}}
''')
SP.append('''
/// `v` is the first line of `s` that starts with "SSH-", it starts with "SSH-2.0-", and `t` follows its CR LF
pub open spec fn ident_read(s: Seq<u8>, t: Seq<u8>, v: Seq<u8>) -> bool {
    let k = id_pos(s); let n = s.len() - t.len();
    id_first(s, k) && v2_at(s, k + 4) && rest(s, t) && k + 10 <= n <= k + 255 && crlf_at(s, n - 2) && v =~= s.subrange(k, n - 2)
    && forall|e: int| k <= e < n - 2 ==> !#[trigger] crlf_at(s, e)
}
''')
S0 = 'old($1).input()'
SL = '(old($1).input().len() - $1.input().len())'     # bytes consumed so far
FL = '(old($1).input().len() - final($1).input().len())'
IDE = N + 'identifier::ParseIdentError'
KP = f'id_pos({S0})'
T15 = ['C15', 'C22']
C('identifier::parse', safety=T15, pre='assert(rest($1.input(), $1.input()));',
  ens=[(T15 + ['C14'], f'r matches Ok(id) ==> ident_read({S0}, final($1).input(), idv(id))'),
       (T15, f'r matches Ok(id) ==> id_first({S0}, {KP}) && v2_at({S0}, {KP} + 4) && rest({S0}, final($1).input()) && {KP} + 10 <= {FL} <= {KP} + 255 && crlf_at({S0}, {FL} - 2) && idv(id) =~= {S0}.subrange({KP}, {FL} - 2)'),
       (T15, f'r is Ok ==> forall|e: int| {KP} <= e < {FL} - 2 ==> !#[trigger] crlf_at({S0}, e)'),
       (T15, f'r matches Err({IDE}::IncompatibleProtocol) ==> id_first({S0}, {KP}) && {KP} + 8 <= {S0}.len() && !v2_at({S0}, {KP} + 4)'),
       (T15, f'r matches Err({IDE}::IdentifierTooLong) ==> id_first({S0}, {KP}) && forall|e: int| {KP} <= e <= {KP} + 253 ==> !#[trigger] crlf_at({S0}, e)')],
  loops={1: f'invariant_except_break rest({S0}, $1.input()), idst(#state) == id_state({S0}, {SL}), forall|j: int| 0 <= j && j + 4 <= {SL} ==> !#[trigger] id_at({S0}, j), '
            f'ensures rest({S0}, $1.input()), id_first({S0}, {SL} - 4), {KP} == {SL} - 4, decreases $1.input().len()',
         2: f'invariant_except_break rest({S0}, $1.input()), id_first({S0}, {KP}), v2_at({S0}, {KP} + 4), {SL} >= {KP} + 8, #i <= 253, #i + (if #got_cr {{ 1int }} else {{ 0int }}) == {SL} - {KP}, '
            f'forall|j: int| 0 <= j < #i ==> $2@[j] == {S0}[{KP} + j], #got_cr == ({SL} > {KP} + 8 && {S0}[{SL} - 1] == 13), forall|e: int| {KP} <= e < {SL} - 1 ==> !#[trigger] crlf_at({S0}, e), '
            f'ensures rest({S0}, $1.input()), id_first({S0}, {KP}), v2_at({S0}, {KP} + 4), {SL} >= {KP} + 10, #i <= 253, #i == {SL} - 2 - {KP}, crlf_at({S0}, {SL} - 2), '
            f'forall|j: int| 0 <= j < #i ==> $2@[j] == {S0}[{KP} + j], forall|e: int| {KP} <= e < {SL} - 2 ==> !#[trigger] crlf_at({S0}, e), decreases $1.input().len()'})
C('identifier::send', safety=['C15'], ens=[(['C15'], 'r is Ok ==> final($2).written() =~= old($2).written() + idv($1) + seq![13u8, 10u8]')])
EXTRA['broadcast:nora_ssh::identifier'] = ['crate::sp::lemma_id_pos', 'crate::sp::lemma_rest']

# ------------------------------------------------------------------ key exchange
C('host::<p256::NistP256 as SignKey>::name', ens=[(['C14'], 'r@ == "ecdsa-sha2-nistp256"@')], safety=['C14'])
_k = 'nora_ssh_core::message::key_exchange::ecdh::digest::<KeyExchangeDigest<D> as default::Default>::default'
CONTRACTS[_k] = Contract(_k, ens=[(['C13', 'C14'], 'D::vdefault_ens(r.${nora_ssh_core::message::key_exchange::ecdh::digest::KeyExchangeDigest.0})')], safety=['C14'])

def bs(t):
    return f'crate::lit::l_{t.encode().hex()}()' if t else 'Seq::<u8>::empty()'


SHA = 'crate::ext::sha2::Sha256'
SP.append(f"""
#[verifier::opaque]
pub open spec fn has_name(s: Seq<u8>, x: Seq<u8>) -> bool {{ names(s).contains(x) }}
pub broadcast proof fn lemma_has(n: &str, a: Seq<u8>, b: Seq<u8>, x: &str)
    requires #[trigger] (seq![n.spec_bytes()] + names(b)) == names(a),
    ensures #[trigger] has_name(a, x.spec_bytes()) == (n@ == x@ || has_name(b, x.spec_bytes())),
{{
    reveal(has_name); broadcast use crate::vp::axiom_str_inj;
    let r = names(b); let c = names(a); let y = x.spec_bytes();
    if r.contains(y) {{ let i = choose|i: int| 0 <= i < r.len() && r[i] == y; assert(c[i + 1] == y); }}
    if n@ == x@ {{ assert(c[0] == y); }}
    if c.contains(y) {{ let i = choose|i: int| 0 <= i < c.len() && c[i] == y; if i > 0 {{ assert(r[i - 1] == y); }} }}
}}
pub broadcast proof fn lemma_has0(a: Seq<u8>, y: Seq<u8>)
    requires names(a).len() == 0,
    ensures !#[trigger] has_name(a, y),
{{ reveal(has_name); }}
/// the algorithms of the server are among the client's
pub open spec fn offered(v: VKeyExchangeInit) -> bool {{
    has_name(v.kex_algorithms, "curve25519-sha256".spec_bytes()) && has_name(v.server_host_key_algorithms, "ecdsa-sha2-nistp256".spec_bytes())
    && has_name(v.encryption_algorithms_client_to_server, "chacha20-poly1305@openssh.com".spec_bytes()) && has_name(v.encryption_algorithms_server_to_client, "chacha20-poly1305@openssh.com".spec_bytes())
}}
/// what the server offers (the cookie is free)
pub open spec fn s_offer(v: VKeyExchangeInit) -> bool {{
    v.kex_algorithms =~= {bs('curve25519-sha256')} && v.server_host_key_algorithms =~= {bs('ecdsa-sha2-nistp256')}
    && v.encryption_algorithms_client_to_server =~= {bs('chacha20-poly1305@openssh.com')} && v.encryption_algorithms_server_to_client =~= {bs('chacha20-poly1305@openssh.com')}
    && v.compression_algorithms_client_to_server =~= {bs('none')} && v.compression_algorithms_server_to_client =~= {bs('none')} && !v.first_kex_packet_follows
}}
pub open spec fn host_key(pk: Seq<u8>) -> VKey {{ VKey {{ name: {bs('ecdsa-sha2-nistp256')}, blob: VKeyBlob {{ identifier: {bs('nistp256')}, q: crate::ext::ecdsa::point_of(pk, false) }} }} }}
pub open spec fn kex_reply(pk: Seq<u8>, sk: Seq<u8>, qs: Seq<u8>, h: Seq<u8>) -> VMessage {{
    VMessage::KeyExchangeEcdhReply(VEcdhReply {{ key: host_key(pk), q: qs, sig: VSig {{ name: {bs('ecdsa-sha2-nistp256')}, blob: VSigBlob {{ r: crate::ext::ecdsa::sig_r(sk, h), s: crate::ext::ecdsa::sig_s(sk, h) }} }} }})
}}
/// the keys of one direction
pub open spec fn keyed(c: {CH}, k: Seq<u8>, h: Seq<u8>, x: u8) -> bool {{ ckd(c) + ckl(c) == kdf::<{SHA}>(e_mpint(k), h, x, 2) && ckd(c).len() == 32 && ckl(c).len() == 32 && cct(c) == 3 }}
#[verifier::opaque]
pub open spec fn praw(d: Seq<u8>) -> Seq<u8> {{ d.subrange(0, 4 + plen(d)) }}
/// a well-formed outgoing packet with this payload
#[verifier::opaque]
pub open spec fn sent(d: Seq<u8>, pay: Seq<u8>) -> bool {{ pk_ok(d, 8, true) && 4 <= ppad(d) <= 255 && 4 + plen(d) <= d.len() && ppay(d) =~= pay }}
/// One completed key exchange: bytes read, bytes written, and what both are bound to.
pub open spec fn shaken(s: Seq<u8>, s4: Seq<u8>, w0: Seq<u8>, w4: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, ci: {CH}, co: {CH}) -> bool {{
    exists|s1: Seq<u8>, vc: Seq<u8>| #[trigger] ident_read(s, s1, vc)
    && exists|s2: Seq<u8>, ic: Seq<u8>| #[trigger] pkt_read(s1, s2, 8, true, ic)
    && exists|s3: Seq<u8>, m2: Seq<u8>| #[trigger] pkt_read(s2, s3, 8, true, m2)
    && exists|m3: Seq<u8>| #[trigger] pkt_read(s3, s4, 8, true, m3)
    && exists|e: Seq<u8>| #![trigger crate::ext::x25519_dalek::x25519_base(e)] agreed(s, vc, ic, m2, m3, e, w0, w4, vs, pk, sk, sid, ci, co)
}}
pub open spec fn agreed(s: Seq<u8>, vc: Seq<u8>, ic: Seq<u8>, m2: Seq<u8>, m3: Seq<u8>, e: Seq<u8>, w0: Seq<u8>, w4: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, ci: {CH}, co: {CH}) -> bool {{
    let qs = crate::ext::x25519_dalek::x25519_base(e);
    &&& d_Message(ic) matches Some(VMessage::KeyExchangeInit(v)) && offered(v)
    &&& d_Message(m3) matches Some(VMessage::NewKeys(_))
    &&& d_Message(m2) matches Some(VMessage::KeyExchangeEcdhInit(q)) && q.client_ephermal_public_key.len() == 32 && {{
        let qc = q.client_ephermal_public_key; let k = crate::ext::x25519_dalek::x25519(e, qc);
        &&& k != Seq::new(32, |i: int| 0u8)
        &&& keyed(ci, k, sid, 67) && keyed(co, k, sid, 68)
        &&& exists|d1: Seq<u8>, i_s: Seq<u8>| #[trigger] sent(d1, i_s) && is_offer(i_s) && sid == <{SHA} as crate::ext::digest::Digest>::h(xhash_l(vc, vs, ic, i_s, e_Key(host_key(pk)), qc, qs, k))
        && exists|d2: Seq<u8>| #[trigger] sent(d2, e_Message(kex_reply(pk, sk, qs, sid)))
        && exists|d3: Seq<u8>| #[trigger] sent(d3, e_Message(VMessage::NewKeys(VNewKeys {{ }})))
        && w4 == w0 + vs + seq![13u8, 10u8] + praw(d1) + praw(d2) + praw(d3)
    }}
}}
""")
HF = ['${nora_ssh::host::Host.%d}' % i for i in range(2)]
HK = ['${nora_ssh::host::HostKey.%d}' % i for i in range(2)]
HC = ['${nora_ssh::host::HostClient.%d}' % i for i in range(3)]
NLI = '${nora_ssh_core::data::NameListIter.0}'


def anyloop(s, r, fld, lit):
    L = f'nlv(#msg.{fld})'
    return (f'invariant_except_break !#{r}, has_name({L}, {lit}.spec_bytes()) == has_name(#{s}.{NLI}.spec_bytes(), {lit}.spec_bytes()), invariant ascii(#{s}.{NLI}.spec_bytes()), '
            f'ensures #{r} == has_name({L}, {lit}.spec_bytes()), decreases names(#{s}.{NLI}.spec_bytes()).len()')


C('host::Host::handle_new_client', lits=True, safety=['C14', 'C22'],
  req=[([], f'idv(self.{HF[0]}).len() <= 253')],
  ens=[(['C14', 'C11'], f'r matches Ok(c) ==> shaken(old($1).input(), final($1).input(), old($2).written(), final($2).written(), idv(self.{HF[0]}), self.{HF[1]}.{HK[0]}.key(), self.{HF[1]}.{HK[1]}.key(), c.{HC[2]}@, c.{HC[0]}.${{nora_ssh::host::In.0}}, c.{HC[1]}.${{nora_ssh::host::Out.0}})')]
  ,
  loops={1: anyloop('vp_s', 'vp_r', 'kex_algorithms', '"curve25519-sha256"'), 2: anyloop('vp_s__3', 'vp_r__3', 'server_host_key_algorithms', '"ecdsa-sha2-nistp256"'),
         3: anyloop('vp_s__4', 'vp_r__4', 'encryption_algorithms_client_to_server', '"chacha20-poly1305@openssh.com"'), 4: anyloop('vp_s__6', 'vp_r__6', 'encryption_algorithms_server_to_client', '"chacha20-poly1305@openssh.com"')},
  closures={1: 'requires (*%b)@.len() >= 200 ensures vp_n <= 200, (*final(%b))@.len() == (*old(%b))@.len(), is_offer((*final(%b))@.subrange(0, vp_n as int))',
            2: 'requires (*%b)@.len() >= 1000 ensures vp_n <= 1000, (*final(%b))@.len() == (*old(%b))@.len(), (*final(%b))@.subrange(0, vp_n as int) == e_Message(VMessage::KeyExchangeEcdhReply(VEcdhReply { key: v_Key(#server_public_key__2), q: #server_ephermal_public@, sig: VSig { name: ' + bs('ecdsa-sha2-nistp256') + ', blob: VSigBlob { r: #sig.r(), s: #sig.s() } } }))',
            3: 'requires (*%b)@.len() >= 1 ensures vp_n == 1, (*final(%b))@.len() == (*old(%b))@.len(), (*final(%b))@.subrange(0, 1) == e_Message(VMessage::NewKeys(VNewKeys { }))'},
  hide=['e_Message', 'wf_Message', 'd_Message', 'e_Key', 'wf_Key', 'kdf', 'names', 'e_mpint', 'ppay', 'framed', 'ident_read', 'pkt_read', 'plen', 'ppad'],
  pre='assert(1usize << 16 == 65536usize) by(bit_vector); broadcast use {lemma_dwf_kex, lemma_nl_consts, lemma_offer, lemma_reply, lemma_newkeys, lemma_key_len, lemma_framed8, lemma_pay_len, lemma_fst};')
# the host key that is sent is the one that signs
C('host::<HostKey<p256::NistP256> as From<SigningKey<p256::NistP256>>>::from', inherent=True, safety=['C14', 'C22'],
  ens=[(['C14'], f'r.{HK[0]}.key() == $1.key() && r.{HK[1]} == $1')])
INTO = [(r'\bimpl Into\b', 'impl crate::vp::VInto')]
C('host::Host::new', safety=['C14', 'C22'], retype=INTO, ens=[(['C14'], f'r.{HF[0]} == $1 && $2.vinto_ens(r.{HF[1]})')])
EXTRA['broadcast:nora_ssh::host'] = ['crate::sp::lemma_has', 'crate::sp::lemma_has0']
_consts = ['publickey,password', 'curve25519-sha256', 'ecdsa-sha2-nistp256', 'chacha20-poly1305@openssh.com', 'none', '']
SP.append(f"""
pub broadcast proof fn lemma_dwf_kex(s: Seq<u8>)
    ensures #[trigger] d_Message(s) matches Some(VMessage::KeyExchangeInit(v)) ==> ascii(v.kex_algorithms) && ascii(v.server_host_key_algorithms) && ascii(v.encryption_algorithms_client_to_server) && ascii(v.encryption_algorithms_server_to_client),
{{ reveal(nl_ok); }}
pub broadcast proof fn lemma_nl_consts(s: Seq<u8>)
    requires {' || '.join('s =~= ' + bs(c) for c in _consts)},
    ensures #[trigger] nl_ok(s),
{{ reveal(nl_ok); reveal(ascii); {''.join('reveal(' + bs(c)[:-2] + ');' for c in _consts if c)} }}
/// what the server offers, as it is built
pub open spec fn s_offer2(v: VKeyExchangeInit) -> bool {{
    s_offer(v) && v.cookie.len() == 16 && v.mac_algorithms_client_to_server =~= {bs('none')} && v.mac_algorithms_server_to_client =~= {bs('none')} && v.languages_client_to_server.len() == 0 && v.languages_server_to_client.len() == 0
}}
#[verifier::opaque]
pub open spec fn is_offer(p: Seq<u8>) -> bool {{ exists|v: VKeyExchangeInit| s_offer(v) && p == #[trigger] e_Message(VMessage::KeyExchangeInit(v)) }}
pub broadcast proof fn lemma_offer(v: VKeyExchangeInit)
    requires s_offer2(v),
    ensures #![trigger wf_Message(VMessage::KeyExchangeInit(v))] #![trigger e_Message(VMessage::KeyExchangeInit(v))] wf_Message(VMessage::KeyExchangeInit(v)) && e_Message(VMessage::KeyExchangeInit(v)).len() <= 200 && is_offer(e_Message(VMessage::KeyExchangeInit(v))),
{{
    {''.join('reveal(' + bs(c)[:-2] + ');' for c in _consts if c)}
    broadcast use lemma_nl_consts; assert(v.languages_client_to_server =~= Seq::<u8>::empty()); assert(v.languages_server_to_client =~= Seq::<u8>::empty());
    reveal(is_offer);
}}
pub open spec fn small_reply(v: VEcdhReply) -> bool {{ v.key.name.len() <= 19 && v.key.blob.identifier.len() <= 8 && v.key.blob.q.len() <= 65 && v.q.len() <= 32 && v.sig.name.len() <= 19 && v.sig.blob.r.len() <= 32 && v.sig.blob.s.len() <= 32 }}
pub broadcast proof fn lemma_reply(v: VEcdhReply)
    requires small_reply(v),
    ensures #![trigger wf_Message(VMessage::KeyExchangeEcdhReply(v))] #![trigger e_Message(VMessage::KeyExchangeEcdhReply(v))] wf_Message(VMessage::KeyExchangeEcdhReply(v)) && e_Message(VMessage::KeyExchangeEcdhReply(v)).len() <= 1000,
{{ lemma_strip0_len(v.sig.blob.r); lemma_strip0_len(v.sig.blob.s); }}
pub broadcast proof fn lemma_newkeys(v: VNewKeys)
    ensures #![trigger wf_Message(VMessage::NewKeys(v))] #![trigger e_Message(VMessage::NewKeys(v))] wf_Message(VMessage::NewKeys(v)) && e_Message(VMessage::NewKeys(v)) == seq![21u8],
{{ assert(e_Message(VMessage::NewKeys(v)) =~= seq![21u8]); }}
pub broadcast proof fn lemma_key_len(v: VKey)
    requires v.name.len() <= 19 && v.blob.identifier.len() <= 8 && v.blob.q.len() <= 65,
    ensures #![trigger wf_Key(v)] #![trigger e_Key(v)] wf_Key(v) && e_Key(v).len() <= 200,
{{ }}
pub broadcast proof fn lemma_framed8(d: Seq<u8>, w: Seq<u8>, n: int)
    requires #[trigger] framed(d, w, n, 8, true), 0 <= n,
    ensures pk_in(d) && n <= w.len() && ppay(d) == w.subrange(0, n) && d.len() == w.len() + 5 && 4 <= 4 + plen(d) <= d.len(), sent(d, w.subrange(0, n)), praw(d) == d.subrange(0, 4 + plen(d)),
{{ reveal(sent); reveal(praw); assert forall|i: int| 0 <= i < n implies #[trigger] ppay(d)[i] == w[i] by {{ assert(d[5 + i] == w[i]); }} assert(ppay(d) =~= w.subrange(0, n)); }}
pub broadcast proof fn lemma_pay_len(d: Seq<u8>)
    requires pk_in(d) && d.len() <= 65536,
    ensures #[trigger] ppay(d).len() <= 65536,
{{ }}
pub broadcast proof fn lemma_fst(a: Seq<u8>, b: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).subrange(0, n) == a,
{{ assert((a + b).subrange(0, n) =~= a); }}
pub broadcast proof fn lemma_agreed(s: Seq<u8>, vc: Seq<u8>, ic: Seq<u8>, m2: Seq<u8>, m3: Seq<u8>, e: Seq<u8>, w0: Seq<u8>, w4: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, ci: {CH}, co: {CH})
    requires #[trigger] agreed(s, vc, ic, m2, m3, e, w0, w4, vs, pk, sk, sid, ci, co),
    ensures exists|k: Seq<u8>| #[trigger] keyed(ci, k, sid, 67) && keyed(co, k, sid, 68),
{{ hide(d_Message); hide(kdf); hide(e_mpint); hide(offered); hide(is_offer); hide(xhash_l); hide(kex_reply); hide(e_Message); hide(e_Key); hide(keyed); }}
pub broadcast proof fn lemma_session(s: Seq<u8>, s4: Seq<u8>, w0: Seq<u8>, w4: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, ci: {CH}, co: {CH})
    requires #[trigger] shaken(s, s4, w0, w4, vs, pk, sk, sid, ci, co),
    ensures session(ckd(ci), ckl(ci), sid), cct(ci) == 3, cct(co) == 3,
{{
    hide(kdf); hide(e_mpint); hide(ident_read); hide(pkt_read); hide(agreed);
    reveal(session); broadcast use lemma_agreed;
    assert(exists|k: Seq<u8>| #[trigger] keyed(ci, k, sid, 67) && keyed(co, k, sid, 68));
    let k = choose|k: Seq<u8>| #[trigger] keyed(ci, k, sid, 67) && keyed(co, k, sid, 68);
    assert(kdf::<{SHA}>(e_mpint(k), sid, 67, 2) == ckd(ci) + ckl(ci));
}}
""")
