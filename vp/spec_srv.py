"""Contracts for nora_ssh::server: authentication and channel messages, RefCell and LocalMutex erased."""
from .assemble import Contract
from .spec_ssh import SHA, HF, HK, CH, bs

K = 'nora_ssh::'
P = 'crate::nora_ssh_core::'
N = 'crate::nora_ssh::'
CONTRACTS, SP, EXTRA = {}, [], {'types': {}}


def C(key, **kw):
    CONTRACTS[K + key] = Contract(K + key, **kw)


WAIT = 'crate::ext::futures::Wait'
EXTRA['types'][K + 'server::Action'] = f'pub enum Action<Stdout, Stderr> where Stdout: crate::ext::futures::AsyncRead, Stderr: crate::ext::futures::AsyncRead {{ Exit, NewIo {{ stdout: Option<Stdout>, stderr: Option<Stderr>, wait: {WAIT}, channel: u32 }} }}'
EXTRA['types'][K + 'server::IoSet'] = ('pub struct IoSet<Stdin, Stdout, Stderr> where Stdin: crate::ext::futures::AsyncWrite, Stdout: crate::ext::futures::AsyncRead, Stderr: crate::ext::futures::AsyncRead '
                                       f'{{ pub stdin: Option<Stdin>, pub stdout: Option<Stdout>, pub stderr: Option<Stderr>, pub wait: {WAIT} }}')
EXTRA['module:nora_ssh::server'] = [f'''
use crate::ext::futures::io::{{AsyncRead, AsyncWrite}};
pub trait ServerHandlers: Sized {{
    type Read: crate::ext::futures::AsyncRead;
    type Write: crate::ext::futures::AsyncWrite;
    type User;
    type Stdin: crate::ext::futures::AsyncWrite;
    type Stdout: crate::ext::futures::AsyncRead;
    type Stderr: crate::ext::futures::AsyncRead;
    type Rng: crate::ext::rand::RngCore + crate::ext::rand::CryptoRng + crate::ext::rand::SeedableRng;
    fn public_key_exists(&self, user: &[u8], service: &[u8], algorithm: &[u8], key: &[u8]) -> (r: Result<(), ()>)
        requires probed(user@, service@, algorithm@, key@),
        ensures r is Ok ==> knows(*self, user@, service@, algorithm@, key@);
    fn authenticate(&self, user: &[u8], service: &[u8], auth: {N}auth::Auth<'_>) -> (r: Result<Self::User, ()>)
        requires asked(user@, service@, v_Auth(auth)),
        ensures r matches Ok(u) ==> accepts(*self, user@, service@, v_Auth(auth), u) && asked(user@, service@, v_Auth(auth));
    fn spawn(&self, user: &mut Self::User, ty: SpawnType<'_>, data: &[u8]) -> (r: Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()>)
        ensures spawned(*self, *old(user), *final(user), v_Spawn(ty), data@, r);
}}
''']
SP.append(f'''
/// The application's answers, as abstract relations: it returned success for these credentials ...
pub uninterp spec fn accepts<H, U>(h: H, user: Seq<u8>, service: Seq<u8>, auth: VAuth, u: U) -> bool;
/// ... said it knows this key ...
pub uninterp spec fn knows<H>(h: H, user: Seq<u8>, service: Seq<u8>, algorithm: Seq<u8>, key: Seq<u8>) -> bool;
/// ... started `ty` for user `u0`, left that user as `u1`, and answered `r`
pub uninterp spec fn spawned<H, U, I>(h: H, u0: U, u1: U, ty: VSpawn, data: Seq<u8>, r: Result<I, ()>) -> bool;
pub enum VAuth {{ None, Password(Seq<u8>), PublicKey {{ algorithm: Seq<u8>, key: Seq<u8>, signature: Seq<u8>, message: Seq<u8> }} }}
pub open spec fn v_Auth(a: {N}auth::Auth<'_>) -> VAuth {{ match a {{
    {N}auth::Auth::None => VAuth::None, {N}auth::Auth::Password(p) => VAuth::Password(p@),
    {N}auth::Auth::PublicKey {{ algorithm, key, signature, message }} => VAuth::PublicKey {{ algorithm: algorithm@, key: key@, signature: signature@, message: message@ }} }} }}
/// exactly two strings
pub open spec fn two_str(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool {{ p_str(s) matches Some((x, t)) && x == a && (p_str(t) matches Some((y, u)) && y == b && u.len() == 0) }}
/// the keys of the client-to-server direction of the session `sid`
#[verifier::opaque]
pub open spec fn session(kd: Seq<u8>, kl: Seq<u8>, sid: Seq<u8>) -> bool {{ exists|k: Seq<u8>| #[trigger] kdf::<{SHA}>(e_mpint(k), sid, 67, 2) == kd + kl && kd.len() == 32 && kl.len() == 32 }}
/// `va` are the credentials in the request `v`, for the session `sid`
pub open spec fn creds(v: VUaRequest, sid: Seq<u8>, va: VAuth) -> bool {{
    match v.method {{
        VMethod::None => va is None,
        VMethod::Password {{ password }} => va == VAuth::Password(password),
        VMethod::PublicKeySigned {{ algorithm, key, signature }} => va matches VAuth::PublicKey {{ algorithm: a, key: k, signature: s, message: m }} && a == algorithm
            && two_str(key, algorithm, k) && two_str(signature, algorithm, s) && m == sign_data(sid, v.user, v.service, algorithm, key),
        _ => false,
    }}
}}
/// a request with these credentials arrived, authenticated, in a session whose identifier the credentials are bound to
#[verifier::opaque]
pub open spec fn asked(user: Seq<u8>, service: Seq<u8>, va: VAuth) -> bool {{
    exists|w: Seq<u8>, kd: Seq<u8>, kl: Seq<u8>, ctr: u64, sid: Seq<u8>, pay: Seq<u8>| #![trigger opened(w, kl, kd, ctr, pay), session(kd, kl, sid)]
        opened(w, kl, kd, ctr, pay) && session(kd, kl, sid) && (d_Message(pay) matches Some(VMessage::UserAuth(VUserAuth::Request(v))) && v.user == user && v.service == service && creds(v, sid, va))
}}
#[verifier::opaque]
pub open spec fn probed(user: Seq<u8>, service: Seq<u8>, algorithm: Seq<u8>, key: Seq<u8>) -> bool {{
    exists|w: Seq<u8>, kd: Seq<u8>, kl: Seq<u8>, ctr: u64, pay: Seq<u8>| #![trigger opened(w, kl, kd, ctr, pay)]
        opened(w, kl, kd, ctr, pay) && (d_Message(pay) matches Some(VMessage::UserAuth(VUserAuth::Request(v))) && v.user == user && v.service == service
            && (v.method matches VMethod::PublicKeyBlob {{ algorithm: a, blob: b }} && a == algorithm && two_str(b, algorithm, key)))
}}
pub broadcast proof fn lemma_asked(w: Seq<u8>, kd: Seq<u8>, kl: Seq<u8>, ctr: u64, sid: Seq<u8>, pay: Seq<u8>, user: Seq<u8>, service: Seq<u8>, va: VAuth)
    requires #[trigger] opened(w, kl, kd, ctr, pay), #[trigger] session(kd, kl, sid), (d_Message(pay) matches Some(VMessage::UserAuth(VUserAuth::Request(v))) && v.user == user && v.service == service && creds(v, sid, va)),
    ensures #[trigger] asked(user, service, va),
{{ reveal(asked); }}
pub broadcast proof fn lemma_probed(w: Seq<u8>, kd: Seq<u8>, kl: Seq<u8>, ctr: u64, pay: Seq<u8>, user: Seq<u8>, service: Seq<u8>, a: Seq<u8>, k: Seq<u8>)
    requires #[trigger] opened(w, kl, kd, ctr, pay), (d_Message(pay) matches Some(VMessage::UserAuth(VUserAuth::Request(v))) && v.user == user && v.service == service
            && (v.method matches VMethod::PublicKeyBlob {{ algorithm, blob }} && a == algorithm && two_str(blob, algorithm, k))),
    ensures #[trigger] probed(user, service, a, k),
{{ reveal(probed); }}
/// no field of a request is longer than the request
pub open spec fn ua_fits(v: VUaRequest, n: int) -> bool {{
    v.user.len() <= n && v.service.len() <= n && (match v.method {{
        VMethod::PublicKeyBlob {{ algorithm, blob }} => algorithm.len() + blob.len() + 30 <= n,
        VMethod::PublicKeySigned {{ algorithm, key, signature }} => algorithm.len() <= n && key.len() <= n && signature.len() <= n,
        _ => true }})
}}
pub broadcast proof fn lemma_pstr_len(s: Seq<u8>)
    ensures #[trigger] p_str(s) matches Some((a, t)) ==> a.len() + t.len() + 4 == s.len(),
{{ reveal(p_str); reveal(de32); if s.len() >= 4 {{ let x = s.subrange(0, 4); assert(0 <= de4(x[0], x[1], x[2], x[3])); }} }}
pub open spec fn m_fits(m: VMethod, n: int) -> bool {{ match m {{
        VMethod::PublicKeyBlob {{ algorithm, blob }} => algorithm.len() + blob.len() + 9 <= n,
        VMethod::PublicKeySigned {{ algorithm, key, signature }} => algorithm.len() <= n && key.len() <= n && signature.len() <= n,
        _ => true }} }}
pub proof fn lemma_m_fits(m: Seq<u8>, s: Seq<u8>)
    ensures d_Method(m, s) matches Some(v) ==> m_fits(v, s.len() as int) && (v is PublicKeyBlob ==> m.len() == 9),
{{
    hide(d_HostBased); hide(d_PwRenew); hide(d_Pw);
    reveal(p_bool); broadcast use lemma_pstr_len; lemma_method_names(); assert(mn_publickey().len() == 9);
    if m == mn_publickey() {{ }} else if m == mn_password() {{ lemma_pw(s); }} else if m == mn_hostbased() {{ lemma_pw(s); }}
}}
pub proof fn lemma_pw(s: Seq<u8>)
    ensures forall|t: Seq<u8>| #[trigger] d_Pw(t) matches Some(v) ==> !(v is PublicKeyBlob || v is PublicKeySigned), forall|t: Seq<u8>| #[trigger] d_PwRenew(t) matches Some(v) ==> !(v is PublicKeyBlob || v is PublicKeySigned), d_HostBased(s) matches Some(v) ==> !(v is PublicKeyBlob || v is PublicKeySigned),
{{ }}
pub proof fn lemma_r_fits(s: Seq<u8>)
    ensures d_UaRequest(s) matches Some(v) ==> ua_fits(v, s.len() as int),
{{
    hide(d_Method);
    broadcast use lemma_pstr_len;
    if let Some((user, s0)) = p_str(s) {{ if let Some((service, s1)) = p_str(s0) {{ if let Some((m, s2)) = p_str(s1) {{ lemma_m_fits(m, s2); }} }} }}
}}
pub broadcast proof fn lemma_ua_fits(s: Seq<u8>)
    ensures #[trigger] d_Message(s) matches Some(VMessage::UserAuth(VUserAuth::Request(v))) ==> ua_fits(v, s.len() as int),
{{ hide(d_UaRequest); if s.len() > 0 {{ lemma_r_fits(s.subrange(1, s.len() as int)); }} }}
/// replies that say nothing but "not yet": service accept, failure, public key ok
pub open spec fn not_yet(pay: Seq<u8>) -> bool {{ pay.len() > 0 && (pay[0] == 6 || pay[0] == 51 || pay[0] == 60) }}
pub open spec fn rep1(w1: Seq<u8>, d: Seq<u8>, w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c: u64) -> bool {{ w == w1 + enc_pkt(kl, kd, c, d) && frames(d, ppay(d)) && not_yet(ppay(d)) }}
/// `w` is `w0` and one such reply for each sequence number from c0 up to c
pub open spec fn replied(w0: Seq<u8>, w: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c0: u64, c: u64) -> bool
    decreases c
{{
    if c <= c0 {{ w == w0 }} else {{ exists|w1: Seq<u8>, d: Seq<u8>| #[trigger] rep1(w1, d, w, kl, kd, (c - 1) as u64) && replied(w0, w1, kl, kd, c0, (c - 1) as u64) }}
}}
pub open spec fn authing_(in0: Seq<u8>, w0: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c: u64, w: Seq<u8>) -> bool {{
    c >= 3 && exists|s4: Seq<u8>, w4: Seq<u8>, ci: {CH}, co: {CH}| #[trigger] shaken(in0, s4, w0, w4, vs, pk, sk, sid, ci, co) && kl == ckl(co) && kd == ckd(co) && replied(w4, w, kl, kd, 3, c)
}}
/// After the key exchange nothing but one such reply per sequence number went out.
#[verifier::opaque]
pub open spec fn authing(in0: Seq<u8>, w0: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c: u64, w: Seq<u8>) -> bool {{ authing_(in0, w0, vs, pk, sk, sid, kl, kd, c, w) }}
pub broadcast proof fn lemma_authing0(in0: Seq<u8>, s4: Seq<u8>, w0: Seq<u8>, w: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, ci: {CH}, co: {CH})
    requires #[trigger] shaken(in0, s4, w0, w, vs, pk, sk, sid, ci, co),
    ensures authing(in0, w0, vs, pk, sk, sid, ckl(co), ckd(co), 3, w),
{{ reveal(authing); assert(replied(w, w, ckl(co), ckd(co), 3, 3)); }}
pub broadcast proof fn lemma_authing1(in0: Seq<u8>, w0: Seq<u8>, w: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, sid: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c: u64, d: Seq<u8>, pay: Seq<u8>)
    requires #[trigger] authing(in0, w0, vs, pk, sk, sid, kl, kd, c, w), c < 0xffff_ffff_ffff_ffff, #[trigger] frames(d, pay), not_yet(pay),
    ensures authing(in0, w0, vs, pk, sk, sid, kl, kd, (c + 1) as u64, w + #[trigger] enc_pkt(kl, kd, c, d)),
{{
    reveal(authing);
    let (s4, w4, ci, co) = choose|s4: Seq<u8>, w4: Seq<u8>, ci: {CH}, co: {CH}| #[trigger] shaken(in0, s4, w0, w4, vs, pk, sk, sid, ci, co) && kl == ckl(co) && kd == ckd(co) && replied(w4, w, kl, kd, 3, c);
    assert(ppay(d) =~= pay);
    let w2 = w + enc_pkt(kl, kd, c, d);
    assert(rep1(w, d, w2, kl, kd, ((c + 1) as u64 - 1) as u64));
    assert(replied(w4, w2, kl, kd, 3, (c + 1) as u64));
}}
/// ... until, last, success
pub open spec fn authed(in0: Seq<u8>, w0: Seq<u8>, vs: Seq<u8>, pk: Seq<u8>, sk: Seq<u8>, kl: Seq<u8>, kd: Seq<u8>, c: u64, w: Seq<u8>) -> bool {{
    exists|sid: Seq<u8>, c1: u64, w1: Seq<u8>, d: Seq<u8>| #![trigger authing(in0, w0, vs, pk, sk, sid, kl, kd, c1, w1), enc_pkt(kl, kd, c1, d)]
        authing(in0, w0, vs, pk, sk, sid, kl, kd, c1, w1) && w == w1 + enc_pkt(kl, kd, c1, d) && frames(d, e_Message(VMessage::UserAuth(VUserAuth::Success(VUaSuccess {{ }})))) && c == c1 + 1
}}
pub broadcast proof fn lemma_ua_success(v: VUaSuccess)
    ensures #![trigger wf_Message(VMessage::UserAuth(VUserAuth::Success(v)))] #![trigger e_Message(VMessage::UserAuth(VUserAuth::Success(v)))] wf_Message(VMessage::UserAuth(VUserAuth::Success(v))) && e_Message(VMessage::UserAuth(VUserAuth::Success(v))).len() == 1,
{{ }}
pub broadcast proof fn lemma_ua_failure(v: VUaFailure)
    requires v.alternative_methods == {bs('publickey,password')},
    ensures #![trigger wf_Message(VMessage::UserAuth(VUserAuth::Failure(v)))] #![trigger e_Message(VMessage::UserAuth(VUserAuth::Failure(v)))] wf_Message(VMessage::UserAuth(VUserAuth::Failure(v))) && e_Message(VMessage::UserAuth(VUserAuth::Failure(v))).len() <= 30 && not_yet(e_Message(VMessage::UserAuth(VUserAuth::Failure(v)))),
{{ reveal(nl_ok); reveal(ascii); reveal({bs('publickey,password')[:-2]}); }}
pub broadcast proof fn lemma_ua_pkok(v: VUaPublicKeyOk)
    requires slen(v.algorithm), slen(v.blob),
    ensures #![trigger wf_Message(VMessage::UserAuth(VUserAuth::PublicKeyOk(v)))] #![trigger e_Message(VMessage::UserAuth(VUserAuth::PublicKeyOk(v)))] wf_Message(VMessage::UserAuth(VUserAuth::PublicKeyOk(v))) && e_Message(VMessage::UserAuth(VUserAuth::PublicKeyOk(v))).len() == 9 + v.algorithm.len() + v.blob.len() && not_yet(e_Message(VMessage::UserAuth(VUserAuth::PublicKeyOk(v)))),
{{ }}
pub broadcast proof fn lemma_svc_accept(v: VServiceAccept)
    requires v.service_name.len() <= 100,
    ensures #![trigger wf_Message(VMessage::ServiceAccept(v))] #![trigger e_Message(VMessage::ServiceAccept(v))] wf_Message(VMessage::ServiceAccept(v)) && e_Message(VMessage::ServiceAccept(v)).len() <= 105 && not_yet(e_Message(VMessage::ServiceAccept(v))),
{{ }}
''')
SV = ['${nora_ssh::server::Server.%d}' % i for i in range(2)]
CL = ['${nora_ssh::server::Client.%d}' % i for i in range(5)]
HO = f'self.{SV[0]}'
ID = [f'idv({HO}.{HF[0]})', f'{HO}.{HF[1]}.{HK[0]}.key()', f'{HO}.{HF[1]}.{HK[1]}.key()']
C('server::Server::new', safety=['C14', 'C22'], retype=[(r'\bimpl Into\b', 'impl crate::vp::VInto')],
  ens=[(['C14'], f'r.{SV[0]}.{HF[0]} == $1 && $2.vinto_ens(r.{SV[0]}.{HF[1]}) && r.{SV[1]} == $3')])
IN0, OUT0 = '${nora_ssh::host::In.0}', '${nora_ssh::host::Out.0}'
W = f'#wr_enc.{OUT0}'
R = f'#rd_enc.{IN0}'
C('server::Server::authenticate_new_client', lits=True, cells=True, safety=['C17', 'C22'],
  req=[([], f'{ID[0]}.len() <= 253')],
  ens=[(['C17'], f'r matches Ok(c) ==> exists|user: Seq<u8>, service: Seq<u8>, va: VAuth| accepts(self.{SV[1]}, user, service, va, c.{CL[2]}) && #[trigger] asked(user, service, va)'),
       (['C17'], f'r matches Ok(c) ==> authed($1.input(), $2.written(), {ID[0]}, {ID[1]}, {ID[2]}, ckl(c.{CL[1]}.1.{OUT0}), ckd(c.{CL[1]}.1.{OUT0}), cct(c.{CL[1]}.1.{OUT0}), c.{CL[1]}.0.written())'),
       (['C17'], f'r matches Ok(c) ==> cct(c.{CL[0]}.1.{IN0}) == cct(c.{CL[1]}.1.{OUT0})'),
       (['C20'], f'r matches Ok(c) ==> forall|i: int| #[trigger] ar_get(c.{CL[3]}, i) is None')],
  loops={1: (f'invariant #pkt_buf@.len() == 35000, #reply_buf@.len() == 35000, #message@.len() == 1024, session(ckd({R}), ckl({R}), #session_identifier@), cct({W}) == cct({R}), '
             f'authing($1.input(), $2.written(), {ID[0]}, {ID[1]}, {ID[2]}, #session_identifier@, ckl({W}), ckd({W}), cct({W}), $2v.written()),',
             f'assume(cct({W}) < 0xffff_ffff_ffff_ffff);')},
  attrs='#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]',
  hide=['e_Message', 'wf_Message', 'd_Message', 'opened', 'authentic', 'frames', 'shaken', 'enc_pkt', 'sign_data'],
  pre='broadcast use {lemma_asked, lemma_probed, lemma_ua_fits, lemma_authing0, lemma_authing1, lemma_ua_success, lemma_ua_failure, lemma_ua_pkok, lemma_svc_accept, lemma_fst, lemma_nl_consts, lemma_session};')

# ------------------------------------------------------------------ channel messages
S_ = N + 'server::'
CHF = ['${nora_ssh::server::Channel.%d}' % i for i in range(3)]
SP.append(f"""
pub enum VSpawn {{ Shell, Exec(Seq<u8>) }}
pub open spec fn v_Spawn(t: {S_}SpawnType<'_>) -> VSpawn {{ match t {{ {S_}SpawnType::Shell => VSpawn::Shell, {S_}SpawnType::Exec {{ command }} => VSpawn::Exec(command@) }} }}
/// one connection: bytes still to come, bytes sent, sequence numbers, user and open channels
pub struct St<H: {S_}ServerHandlers> {{ pub inp: Seq<u8>, pub out: Seq<u8>, pub ci: u64, pub co: u64, pub user: H::User, pub ch: {N}arena::Arena<{S_}Channel<H::Stdin>> }}
pub struct Keys {{ pub ikl: Seq<u8>, pub ikd: Seq<u8>, pub okl: Seq<u8>, pub okd: Seq<u8> }}
pub type VIo<H> = Option<(Option<<H as {S_}ServerHandlers>::Stdout>, Option<<H as {S_}ServerHandlers>::Stderr>, {WAIT}, u32)>;
pub open spec fn st<H: {S_}ServerHandlers>(c: {S_}Client<H>) -> St<H> {{
    St {{ inp: c.{CL[0]}.0.input(), out: c.{CL[1]}.0.written(), ci: cct(c.{CL[0]}.1.{IN0}), co: cct(c.{CL[1]}.1.{OUT0}), user: c.{CL[2]}, ch: c.{CL[3]} }}
}}
pub open spec fn keys<H: {S_}ServerHandlers>(c: {S_}Client<H>) -> Keys {{
    Keys {{ ikl: ckl(c.{CL[0]}.1.{IN0}), ikd: ckd(c.{CL[0]}.1.{IN0}), okl: ckl(c.{CL[1]}.1.{OUT0}), okd: ckd(c.{CL[1]}.1.{OUT0}) }}
}}
pub open spec fn samek(a: Keys, b: Keys) -> bool {{ a.ikl == b.ikl && a.ikd == b.ikd && a.okl == b.okl && a.okd == b.okd }}
/// nothing was sent
pub open spec fn quiet<H: {S_}ServerHandlers>(a: St<H>, b: St<H>) -> bool {{ a.out == b.out && a.co == b.co }}
/// exactly this message was sent
pub open spec fn said<H: {S_}ServerHandlers>(k: Keys, a: St<H>, b: St<H>, m: Seq<u8>) -> bool {{
    b.co == a.co + 1 && exists|d: Seq<u8>| frames(d, m) && b.out == a.out + #[trigger] enc_pkt(k.okl, k.okd, a.co, d)
}}
pub open spec fn reply<H: {S_}ServerHandlers>(want: bool, k: Keys, a: St<H>, b: St<H>, m: VChannel) -> bool {{ if want {{ said(k, a, b, e_Message(VMessage::Channel(m))) }} else {{ quiet(a, b) }} }}
/// the payload `pay` was received, and nothing else read
pub open spec fn got<H: {S_}ServerHandlers>(k: Keys, a: St<H>, b: St<H>, pay: Seq<u8>) -> bool {{
    b.ci == a.ci + 1 && exists|w: Seq<u8>| #[trigger] opened(w, k.ikl, k.ikd, a.ci, pay) && a.inp == w + b.inp
}}
/// channel i, and no other, went from `x` to `y`
pub open spec fn chan<H: {S_}ServerHandlers>(a: St<H>, b: St<H>, i: u32, x: {S_}Channel<H::Stdin>, y: {S_}Channel<H::Stdin>) -> bool {{
    ar_get(a.ch, i as int) == Some(x) && ar_get(b.ch, i as int) == Some(y) && ar_same(a.ch, b.ch, i as int)
}}
pub open spec fn with_in<T: crate::ext::futures::AsyncWrite>(c: {S_}Channel<T>, s: Option<T>) -> {S_}Channel<T> {{ {S_}Channel {{ {CHF[0]}: c.{CHF[0]}, {CHF[1]}: c.{CHF[1]}, {CHF[2]}: s }} }}
/// `s1` is `s0` after `d` was written to it; a process that does not take it all gets no more
pub open spec fn fed<T: crate::ext::futures::AsyncWrite>(s0: Option<T>, s1: Option<T>, d: Seq<u8>) -> bool {{
    match s0 {{ None => s1 is None, Some(p) => match s1 {{ Some(q) => q.written() == p.written() + d, None => exists|q: T| #[trigger] q.broken() && p.written().is_prefix_of(q.written()) }} }}
}}
pub open spec fn wants(v: Option<VSess>) -> Option<VSpawn> {{ match v {{ Some(VSess::Shell) => Some(VSpawn::Shell), Some(VSess::Exec {{ command }}) => Some(VSpawn::Exec(command)), _ => None }} }}
/// what a request does to the channel it addresses
pub open spec fn requested<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, b: St<H>, r: VChRequest, c: {S_}Channel<H::Stdin>, n: VIo<H>) -> bool {{
    match wants(d_Sess(r.ty, r.data)) {{
        None => a.user == b.user && chan(a, b, r.recipient_channel, c, c) && n is None && reply(r.want_reply, k, a, b, VChannel::Failure(VChFailure {{ recipient_channel: c.{CHF[0]} }})),
        Some(t) => exists|x: Result<{S_}IoSet<H::Stdin, H::Stdout, H::Stderr>, ()>, z: Seq<u8>, u0: H::User, u1: H::User, y: VSpawn| #[trigger] spawned(h, u0, u1, y, z, x) && u0 == a.user && u1 == b.user && y == t && z.len() == 0 && (match x {{
            Err(_) => chan(a, b, r.recipient_channel, c, c) && n is None && reply(r.want_reply, k, a, b, VChannel::Failure(VChFailure {{ recipient_channel: c.{CHF[0]} }})),
            Ok(io) => chan(a, b, r.recipient_channel, c, with_in(c, io.stdin)) && reply(r.want_reply, k, a, b, VChannel::Success(VChSuccess {{ recipient_channel: c.{CHF[0]} }}))
                && n == Some((io.stdout, io.stderr, io.wait, c.{CHF[0]})),
        }}),
    }}
}}
/// what one message does
pub open spec fn act<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, b: St<H>, m: VMessage, n: VIo<H>) -> bool {{
    match m {{
        VMessage::Channel(VChannel::Open(o)) => a.user == b.user && n is None && exists|i: u32, z: Seq<u8>| ar_get(a.ch, i as int) is None && z.len() == 0 && ar_same(a.ch, b.ch, i as int)
            && ar_get(b.ch, i as int) == Some({S_}Channel {{ {CHF[0]}: o.sender_channel, {CHF[1]}: {S_}ChannelType::Session, {CHF[2]}: None }})
            && said(k, a, b, #[trigger] e_Message(VMessage::Channel(VChannel::OpenConfirmation(VChOpenConfirmation {{ recipient_channel: o.sender_channel, sender_channel: i, window_size: o.window_size, max_packet_size: o.max_packet_size, data: z }})))),
        VMessage::Channel(VChannel::Request(r)) => ar_get(a.ch, r.recipient_channel as int) matches Some(c) && requested(h, k, a, b, r, c, n),
        VMessage::Channel(VChannel::Data(d)) => a.user == b.user && quiet(a, b) && n is None && (ar_get(a.ch, d.recipient_channel as int) matches Some(c)
            && (ar_get(b.ch, d.recipient_channel as int) matches Some(e) && chan(a, b, d.recipient_channel, c, with_in(c, e.{CHF[2]})) && fed(c.{CHF[2]}, e.{CHF[2]}, d.data))),
        VMessage::Channel(VChannel::Eof(e)) => a.user == b.user && quiet(a, b) && n is None && (ar_get(a.ch, e.recipient_channel as int) matches Some(c) && chan(a, b, e.recipient_channel, c, with_in(c, None))),
        VMessage::Channel(VChannel::Close(c)) => a.user == b.user && quiet(a, b) && n is None && ar_get(b.ch, c.recipient_channel as int) is None && ar_same(a.ch, b.ch, c.recipient_channel as int),
        VMessage::Channel(_) | VMessage::Ignore(_) | VMessage::Unimplemented(_) | VMessage::Debug(_) => a.user == b.user && quiet(a, b) && n is None && a.ch == b.ch,
        _ => false,
    }}
}}
pub open spec fn step<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, b: St<H>, n: VIo<H>) -> bool {{
    exists|pay: Seq<u8>| #![trigger d_Message(pay)] got(k, a, b, pay) && (d_Message(pay) matches Some(m) && act(h, k, a, b, m, n))
}}
/// the messages with sequence numbers a.ci up to b.ci took the connection from `a` to `b`
pub open spec fn ran_<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, b: St<H>) -> bool
    decreases b.ci
{{
    if b.ci <= a.ci {{ a == b }} else {{ exists|m: St<H>| m.ci < b.ci && ran_(h, k, a, m) && #[trigger] step(h, k, m, b, None) }}
}}
#[verifier::opaque]
pub open spec fn ran<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, b: St<H>) -> bool {{ ran_(h, k, a, b) }}
pub broadcast proof fn lemma_ran0<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>)
    ensures #[trigger] ran(h, k, a, a),
{{ reveal(ran); }}
pub broadcast proof fn lemma_ran1<H: {S_}ServerHandlers>(h: H, k: Keys, a: St<H>, m: St<H>, b: St<H>)
    requires #[trigger] ran(h, k, a, m), step(h, k, m, b, None), a.ci <= m.ci,
    ensures #[trigger] ran(h, k, a, b),
{{
    hide(act);
    reveal(ran);
    let pay = choose|pay: Seq<u8>| #![trigger d_Message(pay)] got(k, m, b, pay) && (d_Message(pay) matches Some(v) && act(h, k, m, b, v, None));
    assert(got(k, m, b, pay)); assert(m.ci < b.ci); assert(ran_(h, k, a, m)); assert(ran_(h, k, a, b));
}}
/// why a run ends: 0 disconnect, 1 a channel that is not open, 2 a message that is out of place, 3 not a message
pub open spec fn why<H: {S_}ServerHandlers>(a: St<H>, m: Option<VMessage>, n: int) -> bool {{
    if n == 0 {{ m matches Some(VMessage::Disconnect(_)) }} else if n == 1 {{ m matches Some(v) && (addressed(v) matches Some(i) && ar_get(a.ch, i as int) is None) }}
    else if n == 2 {{ m matches Some(v) && foreign(v) }} else {{ m is None }}
}}
/// the message that ended the run changed nothing
pub open spec fn last<H: {S_}ServerHandlers>(k: Keys, a: St<H>, b: St<H>, n: int) -> bool {{
    a.user == b.user && quiet(a, b) && (forall|i: int| #[trigger] ar_get(a.ch, i) == ar_get(b.ch, i)) && exists|pay: Seq<u8>| got(k, a, b, pay) && why(a, #[trigger] d_Message(pay), n)
}}
/// the channel a message is for
pub open spec fn addressed(m: VMessage) -> Option<u32> {{ match m {{
    VMessage::Channel(VChannel::Request(r)) => Some(r.recipient_channel), VMessage::Channel(VChannel::Data(r)) => Some(r.recipient_channel), VMessage::Channel(VChannel::Eof(r)) => Some(r.recipient_channel), _ => None }} }}
pub open spec fn foreign(m: VMessage) -> bool {{ m is KeyExchangeInit || m is KeyExchangeEcdhInit || m is KeyExchangeEcdhReply || m is NewKeys || m is ServiceRequest || m is ServiceAccept || m is UserAuth }}
pub broadcast proof fn lemma_ch_reply(v: VChannel)
    requires v matches VChannel::OpenConfirmation(o) ==> o.data.len() == 0, v is OpenConfirmation || v is Success || v is Failure,
    ensures #![trigger wf_Message(VMessage::Channel(v))] #![trigger e_Message(VMessage::Channel(v))] wf_Message(VMessage::Channel(v)) && 0 < e_Message(VMessage::Channel(v)).len() <= 20,
{{ }}
""")
RE = S_ + 'ReceiveError'
H_ = f'$2.{SV[1]}, keys(*old(self)), st(*old(self))'
C('server::Client::receive', cells='mut', safety=['C20', 'C22'],
  req=[([], 'old($1)@.len() >= 100')],
  ens=[(['C20'], 'r is Ok ==> keys(*final(self)) == keys(*old(self))'),
       (['C20'], f'r matches Ok({S_}Action::NewIo {{ stdout, stderr, wait, channel }}) ==> exists|m: St<Handlers>| #[trigger] ran({H_}, m) && step($2.{SV[1]}, keys(*old(self)), m, st(*final(self)), Some((stdout, stderr, wait, channel)))')]
  + [(['C20'], f'r matches {p} ==> exists|m: St<Handlers>| #[trigger] ran({H_}, m) && last(keys(*old(self)), m, st(*final(self)), {n})')
     for n, p in enumerate([f'Ok({S_}Action::Exit)', f'Err({RE}::UnknownChannel)', f'Err({RE}::UnexpectedMessage)', f'Err({RE}::Message(_))'])],
  loops={1: (f'invariant $1@.len() == old($1)@.len(), samek(keys(*self), keys(*old(self))), st(*self).ci >= st(*old(self)).ci, ran({H_}, st(*self)),',
             'assume(st(*self).ci < 0xffff_ffff_ffff_ffff && st(*self).co < 0xffff_ffff_ffff_ffff);')},
  attrs='#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]',
  hide=['e_Message', 'wf_Message', 'd_Message', 'opened', 'authentic', 'frames', 'enc_pkt', 'd_Sess'],
  pre='broadcast use {lemma_ran0, lemma_ran1, lemma_ch_reply, lemma_fst};')
# ------------------------------------------------------------------ relaying process output
SP.append(f"""
/// outstanding and answered reads of standard output and standard error, and waits, in the order they were put and taken
pub struct Ev<H: {S_}ServerHandlers, B> {{ pub op: Seq<(H::Stdout, B, usize, u32)>, pub oq: Seq<(H::Stdout, B, usize, u32)>,
    pub ep: Seq<(H::Stderr, B, usize, u32)>, pub eq: Seq<(H::Stderr, B, usize, u32)>, pub xp: Seq<(u32, u32)>, pub xq: Seq<(u32, u32)> }}
pub open spec fn ev<H: {S_}ServerHandlers, B>(o: crate::ext::futures::stream::FuturesUnordered<(H::Stdout, B, usize, u32)>, e: crate::ext::futures::stream::FuturesUnordered<(H::Stderr, B, usize, u32)>, x: crate::ext::futures::stream::FuturesUnordered<(u32, u32)>) -> Ev<H, B> {{
    Ev {{ op: o.pushed(), oq: o.popped(), ep: e.pushed(), eq: e.popped(), xp: x.pushed(), xq: x.popped() }}
}}
/// `x` is what one read of `s` gave: some bytes of it (or none), and the rest
pub open spec fn chunk<T: crate::ext::futures::AsyncRead, B: VBytes>(s: T, c: u32, x: (T, B, usize, u32)) -> bool {{
    x.3 == c && x.2 <= x.1.vbytes().len() && (x.2 > 0 ==> s.input() == x.1.vbytes().subrange(0, x.2 as int) + x.0.input())
}}
/// a read was put aside for the stream, if there is one
pub open spec fn started<T: crate::ext::futures::AsyncRead, B: VBytes>(s: Option<T>, c: u32, a: Seq<(T, B, usize, u32)>, b: Seq<(T, B, usize, u32)>) -> bool {{
    match s {{ None => b == a, Some(t) => b.len() > 0 && b == a.push(b.last()) && chunk(t, c, b.last()) }}
}}
/// exactly these two messages were sent
pub open spec fn said2<H: {S_}ServerHandlers>(k: Keys, a: St<H>, b: St<H>, m: Seq<u8>, n: Seq<u8>) -> bool {{
    b.co == a.co + 2 && exists|d: Seq<u8>, e: Seq<u8>, c: u64| #![trigger enc_pkt(k.okl, k.okd, a.co, d), enc_pkt(k.okl, k.okd, c, e)]
        c == a.co + 1 && frames(d, m) && frames(e, n) && b.out == a.out + enc_pkt(k.okl, k.okd, a.co, d) + enc_pkt(k.okl, k.okd, c, e)
}}
/// only the sending side moved
pub open spec fn sends<H: {S_}ServerHandlers>(a: St<H>, b: St<H>) -> bool {{ a.user == b.user && a.inp == b.inp && a.ci == b.ci && a.ch == b.ch }}
pub open spec fn m_data(c: u32, d: Seq<u8>) -> Seq<u8> {{ e_Message(VMessage::Channel(VChannel::Data(VChData {{ recipient_channel: c, data: d }}))) }}
pub open spec fn m_eof(c: u32) -> Seq<u8> {{ e_Message(VMessage::Channel(VChannel::Eof(VChEof {{ recipient_channel: c }}))) }}
pub open spec fn m_close(c: u32) -> Seq<u8> {{ e_Message(VMessage::Channel(VChannel::Close(VChClose {{ recipient_channel: c }}))) }}
pub open spec fn m_exit(c: u32, status: u32) -> Seq<u8> {{
    e_Message(VMessage::Channel(VChannel::Request(VChRequest {{ recipient_channel: c, ty: ty_Sess(VSess::ExitStatus {{ status }}), data: e_Sess(VSess::ExitStatus {{ status }}), want_reply: false }})))
}}
/// a chunk was taken: its bytes went to its channel, and the next read was put aside; an empty one is the end of the stream
pub open spec fn relay<H: {S_}ServerHandlers, T: crate::ext::futures::AsyncRead, B: VBytes>(k: Keys, a: St<H>, b: St<H>, p0: Seq<(T, B, usize, u32)>, p1: Seq<(T, B, usize, u32)>, x: (T, B, usize, u32), closes: bool) -> bool {{
    sends(a, b) && (if x.2 > 0 {{ started(Some(x.0), x.3, p0, p1) && said(k, a, b, m_data(x.3, x.1.vbytes().subrange(0, x.2 as int))) }}
        else {{ p1 == p0 && (if closes {{ said2(k, a, b, m_eof(x.3), m_close(x.3)) }} else {{ quiet(a, b) }}) }})
}}
/// `b` is `a` and one element of `put` that had not been taken yet
pub open spec fn taken<T>(put: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool {{ b.len() > 0 && b == a.push(b.last()) && crate::ext::futures::stream::outst(put, a, b.last()) }}
#[verifier::opaque]
pub open spec fn r_recv<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, a: St<H>, b: St<H>, e: Ev<H, B>, f: Ev<H, B>) -> bool {{
    e.oq == f.oq && e.eq == f.eq && e.xq == f.xq && exists|m: St<H>, n: VIo<H>| #![trigger ran(h, k, a, m), step(h, k, m, b, n)]
        ran(h, k, a, m) && step(h, k, m, b, n) && (n matches Some((o, r, w, c)) && started(o, c, e.op, f.op) && started(r, c, e.ep, f.ep) && f.xp == e.xp.push((w.status(), c)))
}}
pub open spec fn r_out<H: {S_}ServerHandlers, B: VBytes>(k: Keys, a: St<H>, b: St<H>, e: Ev<H, B>, f: Ev<H, B>) -> bool {{
    e.ep == f.ep && e.eq == f.eq && e.xp == f.xp && e.xq == f.xq && taken(e.op, e.oq, f.oq) && relay(k, a, b, e.op, f.op, f.oq.last(), true)
}}
pub open spec fn r_err<H: {S_}ServerHandlers, B: VBytes>(k: Keys, a: St<H>, b: St<H>, e: Ev<H, B>, f: Ev<H, B>) -> bool {{
    e.op == f.op && e.oq == f.oq && e.xp == f.xp && e.xq == f.xq && taken(e.ep, e.eq, f.eq) && relay(k, a, b, e.ep, f.ep, f.eq.last(), false)
}}
pub open spec fn r_exit<H: {S_}ServerHandlers, B: VBytes>(k: Keys, a: St<H>, b: St<H>, e: Ev<H, B>, f: Ev<H, B>) -> bool {{
    e.op == f.op && e.oq == f.oq && e.ep == f.ep && e.eq == f.eq && e.xp == f.xp && taken(e.xp, e.xq, f.xq) && sends(a, b) && said(k, a, b, m_exit(f.xq.last().1, f.xq.last().0))
}}
#[verifier::opaque]
pub open spec fn rstep<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, a: St<H>, b: St<H>, e: Ev<H, B>, f: Ev<H, B>) -> bool {{
    r_recv(h, k, a, b, e, f) || r_out(k, a, b, e, f) || r_err(k, a, b, e, f) || r_exit(k, a, b, e, f)
}}
/// `n` steps took the connection and its processes from the start to here
pub open spec fn relayed_<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, b: St<H>, f: Ev<H, B>, n: nat) -> bool
    decreases n
{{
    if n == 0 {{ s == b && f.op.len() == 0 && f.oq.len() == 0 && f.ep.len() == 0 && f.eq.len() == 0 && f.xp.len() == 0 && f.xq.len() == 0 }}
    else {{ exists|a: St<H>, e: Ev<H, B>| relayed_(h, k, s, a, e, (n - 1) as nat) && #[trigger] rstep(h, k, a, b, e, f) }}
}}
#[verifier::opaque]
pub open spec fn relayed<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, b: St<H>, f: Ev<H, B>) -> bool {{ exists|n: nat| relayed_(h, k, s, b, f, n) }}
pub broadcast proof fn lemma_relay0<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, f: Ev<H, B>)
    requires f.op.len() == 0, f.oq.len() == 0, f.ep.len() == 0, f.eq.len() == 0, f.xp.len() == 0, f.xq.len() == 0,
    ensures #[trigger] relayed(h, k, s, s, f),
{{ reveal(relayed); assert(relayed_(h, k, s, s, f, 0)); }}
pub proof fn lemma_relay1<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, a: St<H>, e: Ev<H, B>, b: St<H>, f: Ev<H, B>)
    requires relayed(h, k, s, a, e), rstep(h, k, a, b, e, f),
    ensures relayed(h, k, s, b, f),
{{ reveal(relayed); let n = choose|n: nat| relayed_(h, k, s, a, e, n); assert(relayed_(h, k, s, b, f, n + 1)); }}
pub broadcast proof fn lemma_relay_recv<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, a: St<H>, e: Ev<H, B>, m: St<H>, n: VIo<H>, b: St<H>, f: Ev<H, B>)
    requires #[trigger] relayed(h, k, s, a, e), #[trigger] ran(h, k, a, m), #[trigger] step(h, k, m, b, n), n matches Some((o, r, w, c)) && started(o, c, e.op, f.op) && started(r, c, e.ep, f.ep) && f.xp == e.xp.push((w.status(), c)),
        e.oq == f.oq && e.eq == f.eq && e.xq == f.xq,
    ensures #[trigger] relayed(h, k, s, b, f),
{{ reveal(r_recv); reveal(rstep); assert(r_recv(h, k, a, b, e, f)); assert(rstep(h, k, a, b, e, f)); lemma_relay1(h, k, s, a, e, b, f); }}
pub broadcast proof fn lemma_relay_out<H: {S_}ServerHandlers, B: VBytes>(h: H, k: Keys, s: St<H>, a: St<H>, e: Ev<H, B>, b: St<H>, f: Ev<H, B>)
    requires #[trigger] relayed(h, k, s, a, e), r_out(k, a, b, e, f) || r_err(k, a, b, e, f) || r_exit(k, a, b, e, f),
    ensures #[trigger] relayed(h, k, s, b, f),
{{ reveal(rstep); assert(rstep(h, k, a, b, e, f)); lemma_relay1(h, k, s, a, e, b, f); }}
pub broadcast proof fn lemma_ch_out(v: VChannel)
    requires v matches VChannel::Data(o) ==> o.data.len() <= 20000, v matches VChannel::Request(o) ==> o.ty.len() + o.data.len() <= 20000, v is Data || v is Eof || v is Close || v is Request,
    ensures #![trigger wf_Message(VMessage::Channel(v))] #![trigger e_Message(VMessage::Channel(v))] wf_Message(VMessage::Channel(v)) && 0 < e_Message(VMessage::Channel(v)).len() <= 20100,
{{ }}
""")
EV = 'ev::<Handlers, _>(#stdout_inputs, #stderr_inputs, #wait_exit)'
H1 = f'$1.{SV[1]}, keys(*old(self)), st(*old(self))'
C('server::Client::start', cells='mut', safety=['C21', 'C22'],
  ens=[(['C21'], f'r is Ok ==> exists|a: St<Handlers>, e: Ev<Handlers, [u8; 256]>, m: St<Handlers>| #[trigger] relayed({H1}, a, e) && #[trigger] ran($1.{SV[1]}, keys(*old(self)), a, m) && last(keys(*old(self)), m, st(*final(self)), 0)')],
  loops={1: (f'invariant #buf@.len() == 35000, samek(keys(*self), keys(*old(self))), relayed({H1}, st(*self), {EV}), '
             'forall|i: int| 0 <= i < #stdout_inputs.pushed().len() ==> (#[trigger] #stdout_inputs.pushed()[i]).2 <= 256, forall|i: int| 0 <= i < #stderr_inputs.pushed().len() ==> (#[trigger] #stderr_inputs.pushed()[i]).2 <= 256,',
             'assume(st(*self).co < 0xffff_ffff_ffff_fff0);')},
  attrs='#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]',
  hide=['e_Message', 'wf_Message', 'd_Message', 'frames', 'enc_pkt', 'step', 'last'],
  pre='broadcast use {lemma_relay0, lemma_relay_recv, lemma_relay_out, lemma_ch_out, lemma_fst};')
NOINLINE = []
