/// Stand-ins for the external crates, with assumed contracts (trusted base).
pub mod ext {
pub mod digest {
use vstd::prelude::*;
use crate::vp::*;
verus! {
pub trait OutputSizeUser {}
/// A hash function: `h` is an uninterpreted function of the bytes absorbed, of fixed output size.
pub trait Digest: Sized {
    spec fn absorbed(&self) -> Seq<u8>;
    spec fn h(s: Seq<u8>) -> Seq<u8>;
    spec fn out_size() -> nat;
    fn new() -> (r: Self) ensures r.absorbed() == Seq::<u8>::empty();
    fn chain_update<B: VBytes>(self, data: B) -> (r: Self) ensures r.absorbed() == self.absorbed() + data.vbytes();
    fn update<B: VBytes>(&mut self, data: B) ensures final(self).absorbed() == old(self).absorbed() + data.vbytes();
    fn finalize(self) -> (r: Output<Self>) ensures r@ == Self::h(self.absorbed()), r@.len() == Self::out_size();
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Output<D> { v: [u8; 64], m: core::marker::PhantomData<D> }
impl<D> View for Output<D> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<D> VBytes for Output<D> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl<D> Clone for Output<D> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<D> Copy for Output<D> {}
impl<D: Digest> VFrom<Output<D>> for [u8; 32] {
    open spec fn vfrom_ens(v: Output<D>, r: [u8; 32]) -> bool { D::out_size() == 32 ==> r@ == v@ }
    #[verifier::external_body] fn vfrom(v: Output<D>) -> [u8; 32] { unimplemented!() }
}
impl<D: Digest> VAsRef<[u8; 32]> for Output<D> {
    open spec fn vas_ref_ens(&self, r: &[u8; 32]) -> bool { D::out_size() == 32 ==> r@ == self@ }
    #[verifier::external_body] fn vas_ref(&self) -> &[u8; 32] { unimplemented!() }
}
impl<D> VFull for Output<D> { #[verifier::external_body] fn vfull(&self) -> &[u8] { unimplemented!() } }
}
}
pub mod rand {
use vstd::prelude::*;
verus! {
pub trait CryptoRng {}
pub trait RngCore {
    fn fill_bytes(&mut self, dest: &mut [u8]) ensures final(dest)@.len() == old(dest)@.len();
}
impl<'a, R: RngCore> RngCore for &'a mut R {
    #[verifier::external_body] fn fill_bytes(&mut self, dest: &mut [u8]) { unimplemented!() }
}
impl<'a, R: CryptoRng> CryptoRng for &'a mut R {}
pub trait SeedableRng: Sized { fn from_entropy() -> Self; }
}
}
pub mod chacha20 {
use vstd::prelude::*;
use crate::vp::*;
verus! {
/// Byte `i` of the ChaCha20 (original, 64-bit nonce) key stream; uninterpreted.
pub uninterp spec fn ks(key: Seq<u8>, nonce: Seq<u8>, i: int) -> u8;
pub open spec fn xor_ks(s: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, pos: int) -> Seq<u8> {
    Seq::new(s.len(), |i: int| s[i] ^ ks(key, nonce, pos + i))
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Key { b: [u8; 32] }
impl View for Key { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VBytes for Key { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl Key {
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: &Key) requires s@.len() == 32 ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct LegacyNonce { b: [u8; 8] }
impl View for LegacyNonce { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl LegacyNonce {
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: &LegacyNonce) requires s@.len() == 8 ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body] pub struct ChaCha20Legacy { b: u8 }
impl ChaCha20Legacy {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn nonce(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn new(k: &Key, n: &LegacyNonce) -> (r: Self) ensures r.key() == k@, r.nonce() == n@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_keystream<T: VBytesMut + ?Sized>(&mut self, data: &mut T)
        ensures final(data).vb() == xor_ks(old(data).vb(), old(self).key(), old(self).nonce(), old(self).pos()),
            final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(), final(self).pos() == old(self).pos() + old(data).vb().len(),
    { unimplemented!() }
}
#[verifier::external_body] pub struct ChaCha20LegacyCore { b: u8 }
impl ChaCha20LegacyCore {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn nonce(&self) -> Seq<u8>;
    pub uninterp spec fn block(&self) -> int;
    #[verifier::external_body]
    pub fn new(k: &Key, n: &LegacyNonce) -> (r: Self) ensures r.key() == k@, r.nonce() == n@, r.block() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set_block_pos(&mut self, p: u32)
        ensures final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(), final(self).block() == p,
    { unimplemented!() }
}
pub mod cipher {
use super::*;
#[verifier::external_body] pub struct StreamCipherCoreWrapper { b: u8 }
impl StreamCipherCoreWrapper {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn nonce(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn from_core(c: ChaCha20LegacyCore) -> (r: Self) ensures r.key() == c.key(), r.nonce() == c.nonce(), r.pos() == 64 * c.block() { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_keystream<T: VBytesMut + ?Sized>(&mut self, data: &mut T)
        ensures final(data).vb() == xor_ks(old(data).vb(), old(self).key(), old(self).nonce(), old(self).pos()),
            final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(), final(self).pos() == old(self).pos() + old(data).vb().len(),
    { unimplemented!() }
}
}
}
}
pub mod poly1305 {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::vp::*;
verus! {
pub uninterp spec fn poly(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub struct Key { b: [u8; 32] }
impl View for Key { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VBytesMut for Key { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VBytes for Key { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl Key {
    #[verifier::external_body]
    pub fn default() -> (r: Key) ensures r@ == Seq::new(32, |i: int| 0u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice<T: VBytes + ?Sized>(s: &T) -> (r: &Key) requires s.vbytes().len() == 32 ensures r@ == s.vbytes() { unimplemented!() }
}
#[verifier::external_body] pub struct Block { b: [u8; 16] }
impl View for Block { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VFrom<[u8; 16]> for Block {
    open spec fn vfrom_ens(v: [u8; 16], r: Block) -> bool { r@ == v@ }
    #[verifier::external_body] fn vfrom(v: [u8; 16]) -> Block { unimplemented!() }
}
#[verifier::external_body] pub struct Tag { b: [u8; 16] }
impl View for Tag { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Tag {
    #[verifier::external_body]
    pub fn new(b: Block) -> (r: Tag) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: [u8; 16]) ensures r@ == self@ { unimplemented!() }
}
impl PartialEqSpecImpl for Tag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Tag) -> bool { self@ == other@ }
}
impl PartialEq for Tag {
    #[verifier::external_body]
    fn eq(&self, other: &Tag) -> bool { unimplemented!() }
}
#[verifier::external_body] pub struct Poly1305 { b: u8 }
impl Poly1305 {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(k: &Key) -> (r: Self) ensures r.key() == k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_unpadded(self, data: &[u8]) -> (r: Tag) ensures r@ == poly(self.key(), data@) { unimplemented!() }
}
}
}
pub mod futures {
use vstd::prelude::*;
verus! {
/// the future of a process exit status
#[verifier::external_body] pub struct Wait { b: u8 }
impl Wait { pub uninterp spec fn status(&self) -> u32; }
impl crate::vp::VAwait for Wait { type O = u32;
    open spec fn awaited(self, r: u32) -> bool { r == self.status() }
    #[verifier::external_body] fn vp_await(self) -> u32 { unimplemented!() }
}
}
pub use self::io::*;
pub mod stream {
use vstd::prelude::*;
verus! {
/// `x` is among those put in and not yet taken out
pub open spec fn outst<T>(put: Seq<T>, got: Seq<T>, x: T) -> bool { put.to_multiset().sub(got.to_multiset()).contains(x) }
/// A set of futures: `pushed` were put in, `popped` came out, in some order, each once.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct FuturesUnordered<T> { m: core::marker::PhantomData<T> }
impl<T> FuturesUnordered<T> {
    pub uninterp spec fn pushed(&self) -> Seq<T>;
    pub uninterp spec fn popped(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.pushed() == Seq::<T>::empty(), r.popped() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self).pushed() == old(self).pushed().push(x), final(self).popped() == old(self).popped() { unimplemented!() }
    /// some outstanding one
    #[verifier::external_body]
    pub fn select_next_some(&mut self) -> (r: T)
        ensures final(self).pushed() == old(self).pushed(), final(self).popped() == old(self).popped().push(r),
            outst(old(self).pushed(), old(self).popped(), r), old(self).pushed().contains(r),
    { unimplemented!() }
}
}
}
pub mod io {
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct Error { b: u8 }
/// A byte stream: `input` is everything the peer will still send on it.
pub trait AsyncRead {
    spec fn input(&self) -> Seq<u8>;
    /// fills the buffer from the stream; an error promises nothing
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> old(self).input() == final(buf)@ + final(self).input();
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>)
        ensures r matches Ok(n) ==> n <= old(buf)@.len() && old(self).input() == final(buf)@.subrange(0, n as int) + final(self).input();
}
pub trait AsyncReadExt: AsyncRead {}
impl<T: AsyncRead> AsyncReadExt for T {}
/// A byte sink: `written` is everything that has been written to it.
pub trait AsyncWrite {
    spec fn written(&self) -> Seq<u8>;
    /// a write to it failed
    spec fn broken(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).written() == old(self).written() + buf@,
            r is Err ==> final(self).broken(),
            r is Err ==> exists|k: int| 0 <= k <= buf@.len() && final(self).written() == old(self).written() + #[trigger] buf@.subrange(0, k);
}
pub trait AsyncWriteExt: AsyncWrite {}
impl<T: AsyncWrite> AsyncWriteExt for T {}
}
}
}
pub mod p256 {
use vstd::prelude::*;
verus! {
pub struct NistP256;
}
}
pub mod ecdsa {
use vstd::prelude::*;
use crate::vp::*;
verus! {
/// SEC1 encoding of a public point, and ECDSA signing, as uninterpreted functions of the keys.
pub uninterp spec fn point_of(key: Seq<u8>, compressed: bool) -> Seq<u8>;
pub uninterp spec fn sig_r(secret: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sig_s(secret: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] #[verifier::accept_recursive_types(C)] pub struct VerifyingKey<C> { m: core::marker::PhantomData<C> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] pub struct SigningKey<C> { m: core::marker::PhantomData<C> }
#[verifier::external_body] pub struct EncodedPoint { m: u8 }
#[verifier::external_body] pub struct Signature { m: u8 }
impl<C> VerifyingKey<C> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_encoded_point(&self, compress: bool) -> (r: EncodedPoint) ensures r@ == point_of(self.key(), compress), r@.len() <= 65 { unimplemented!() }
}
impl View for EncodedPoint { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl EncodedPoint {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl<C> SigningKey<C> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn sign<B: VBytes>(&self, m: &B) -> (r: Signature) ensures r.r() == sig_r(self.key(), m.vbytes()), r.s() == sig_s(self.key(), m.vbytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn verifying_key(&self) -> (r: VerifyingKey<C>) ensures r.key() == self.key() { unimplemented!() }
}
impl Signature {
    pub uninterp spec fn r(&self) -> Seq<u8>;
    pub uninterp spec fn s(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn split_bytes(&self) -> (r: ([u8; 32], [u8; 32])) ensures r.0@ == self.r(), r.1@ == self.s() { unimplemented!() }
}
}
}
pub mod sha2 {
use vstd::prelude::*;
use crate::vp::*;
use super::digest::*;
verus! {
#[verifier::external_body] pub struct Sha256 { b: u8 }
impl OutputSizeUser for Sha256 {}
impl Digest for Sha256 {
    uninterp spec fn absorbed(&self) -> Seq<u8>;
    uninterp spec fn h(s: Seq<u8>) -> Seq<u8>;
    open spec fn out_size() -> nat { 32 }
    #[verifier::external_body] fn new() -> Self { unimplemented!() }
    #[verifier::external_body] fn chain_update<B: VBytes>(self, data: B) -> Self { unimplemented!() }
    #[verifier::external_body] fn update<B: VBytes>(&mut self, data: B) { unimplemented!() }
    #[verifier::external_body] fn finalize(self) -> Output<Self> { unimplemented!() }
}
impl VDefault for Sha256 {
    open spec fn vdefault_ens(r: Self) -> bool { r.absorbed() == Seq::<u8>::empty() }
    #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() }
}
}
}
pub mod x25519_dalek {
use vstd::prelude::*;
use crate::vp::*;
use super::rand::*;
verus! {
/// X25519 and its base point multiplication; uninterpreted.
pub uninterp spec fn x25519(secret: Seq<u8>, point: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn x25519_base(secret: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub struct EphemeralSecret { b: u8 }
#[verifier::external_body] pub struct PublicKey { b: u8 }
#[verifier::external_body] pub struct SharedSecret { b: u8 }
impl View for PublicKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for SharedSecret { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl EphemeralSecret {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new<R: RngCore + CryptoRng>(r: R) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn diffie_hellman(self, p: &PublicKey) -> (r: SharedSecret) ensures r@ == x25519(self.key(), p@) { unimplemented!() }
}
impl<'a> VFrom<&'a EphemeralSecret> for PublicKey {
    open spec fn vfrom_ens(v: &'a EphemeralSecret, r: PublicKey) -> bool { r@ == x25519_base(v.key()) }
    #[verifier::external_body] fn vfrom(v: &'a EphemeralSecret) -> PublicKey { unimplemented!() }
}
impl VFrom<[u8; 32]> for PublicKey {
    open spec fn vfrom_ens(v: [u8; 32], r: PublicKey) -> bool { r@ == v@ }
    #[verifier::external_body] fn vfrom(v: [u8; 32]) -> PublicKey { unimplemented!() }
}
impl PublicKey {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
}
impl SharedSecret {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn was_contributory(&self) -> (r: bool) ensures r == (self@ != Seq::new(32, |i: int| 0u8)) { unimplemented!() }
}
}
}
pub mod ed25519_dalek {
use vstd::prelude::*;
use crate::vp::*;
verus! {
/// `sig` is a valid Ed25519 signature of `m` under `key`; uninterpreted
pub uninterp spec fn verifies(key: Seq<u8>, m: Seq<u8>, sig: Seq<u8>) -> bool;
#[verifier::external_body] pub struct PublicKey { b: u8 }
#[verifier::external_body] pub struct Signature { b: u8 }
#[verifier::external_body] pub struct SignatureError { b: u8 }
impl View for PublicKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for Signature { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl PublicKey {
    /// any length; an unusable key is an error
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<PublicKey, SignatureError>) ensures r matches Ok(k) ==> k@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<(), SignatureError>) ensures r is Ok ==> verifies(self@, m@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> (r: Result<(), SignatureError>) ensures r is Ok ==> verifies(self@, m@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
}
impl Signature {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<Signature, SignatureError>) ensures r matches Ok(k) ==> k@ == b@ { unimplemented!() }
}
impl<'a> VTryFrom<&'a [u8]> for Signature { type E = SignatureError;
    open spec fn vtry_from_ens(v: &'a [u8], r: Result<Self, SignatureError>) -> bool { r matches Ok(k) ==> k@ == v@ }
    #[verifier::external_body] fn vtry_from(v: &'a [u8]) -> (r: Result<Self, SignatureError>) { unimplemented!() }
}
}
}
pub mod async_std {
pub mod process {
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct Child { b: u8 }
}
}
}
/// state outside the arguments of a function: locks and wakers, files, standard streams
pub mod world {
use vstd::prelude::*;
use super::task::Waker;
verus! {
#[verifier::external_body] pub struct World { b: u8 }
impl World {
    /// the cells that are mutably borrowed
    pub uninterp spec fn held(&self) -> Set<int>;
    /// the wakers in a cell
    pub uninterp spec fn queue(&self, cell: int) -> Seq<Waker>;
    /// the wakers nobody has woken
    pub uninterp spec fn asleep(&self) -> Set<Waker>;
}
pub broadcast proof fn lemma_push_contains<A>(s: Seq<A>, x: A, y: A)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{
    let p = s.push(x);
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(p[i] == y); }
    if x == y { assert(p[s.len() as int] == y); }
    if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; if i < s.len() { assert(s[i] == y); } }
}
pub broadcast proof fn lemma_remove_contains<A>(s: Seq<A>, i: int, y: A)
    requires 0 <= i < s.len()
    ensures #![trigger s.remove(i).contains(y)] #![trigger s.remove(i), s.contains(y)] s.contains(y) == (s.remove(i).contains(y) || s[i] == y)
{
    let p = s.remove(i);
    if p.contains(y) { let j = choose|j: int| 0 <= j < p.len() && p[j] == y; if j < i { assert(s[j] == y); } else { assert(s[j + 1] == y); } }
    if s.contains(y) && s[i] != y { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; if j < i { assert(p[j] == y); } else { assert(p[j - 1] == y); } }
}
pub broadcast proof fn lemma_index_contains<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len()
    ensures s.contains(#[trigger] s[i])
{ }
pub broadcast group group_world { lemma_push_contains, lemma_remove_contains, lemma_index_contains }
pub open spec fn same_queues(a: &World, b: &World, but: int) -> bool { forall|c: int| c != but ==> #[trigger] a.queue(c) == b.queue(c) }
}
}
pub mod task {
use vstd::prelude::*;
use super::world::*;
verus! {
#[verifier::external_body] pub struct Waker { b: u8 }
#[verifier::external_body] pub struct Context<'a> { b: &'a u8 }
pub enum Poll<T> { Ready(T), Pending }
impl<'a> Context<'a> {
    pub uninterp spec fn me(&self) -> Waker;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) ensures *r == self.me() { unimplemented!() }
}
impl Waker {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(self, w: &mut World) ensures final(w).asleep() == old(w).asleep().remove(self), final(w).held() == old(w).held(), forall|c: int| #[trigger] final(w).queue(c) == old(w).queue(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, w: &mut World) ensures final(w).asleep() == old(w).asleep().remove(*self), final(w).held() == old(w).held(), forall|c: int| #[trigger] final(w).queue(c) == old(w).queue(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool) ensures r ==> *self == *o { unimplemented!() }
}
}
}
pub mod cell {
use vstd::prelude::*;
use super::world::*;
use super::task::Waker;
verus! {
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefCell<T> { b: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Cell<T> { b: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefMut<'a, T> { b: core::marker::PhantomData<&'a T> }
#[verifier::external_body] pub struct BorrowMutError { b: u8 }
impl<T> RefCell<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: T, w: &mut World) -> (r: RefCell<T>)
        ensures !final(w).held().contains(r.id()), final(w).held() == old(w).held(), final(w).asleep() == old(w).asleep(), forall|c: int| #[trigger] final(w).queue(c) == old(w).queue(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_borrow_mut(&self, w: &mut World) -> (r: Result<RefMut<'_, T>, BorrowMutError>)
        ensures r is Ok == !old(w).held().contains(self.id()), r matches Ok(g) ==> g.of() == self.id(),
            final(w).held() == (if r is Ok { old(w).held().insert(self.id()) } else { old(w).held() }),
            final(w).asleep() == old(w).asleep(), forall|c: int| #[trigger] final(w).queue(c) == old(w).queue(c) { unimplemented!() }
}
impl<'a, T> RefMut<'a, T> { pub uninterp spec fn of(&self) -> int; }
impl Cell<Vec<Waker>> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: Vec<Waker>, w: &mut World) -> (r: Self)
        ensures final(w).queue(r.id()) == v@, same_queues(final(w), old(w), r.id()), final(w).held() == old(w).held(), final(w).asleep() == old(w).asleep() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&self, w: &mut World) -> (r: Vec<Waker>)
        ensures r@ == old(w).queue(self.id()), final(w).queue(self.id()) == Seq::<Waker>::empty(), same_queues(final(w), old(w), self.id()), final(w).held() == old(w).held(), final(w).asleep() == old(w).asleep() { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, v: Vec<Waker>, w: &mut World) -> (r: Vec<Waker>)
        ensures r@ == old(w).queue(self.id()), final(w).queue(self.id()) == v@, same_queues(final(w), old(w), self.id()), final(w).held() == old(w).held(), final(w).asleep() == old(w).asleep() { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: Vec<Waker>, w: &mut World)
        ensures final(w).queue(self.id()) == v@, same_queues(final(w), old(w), self.id()), final(w).held() == old(w).held(), final(w).asleep() == old(w).asleep() { unimplemented!() }
}
}
}
/// the parts of std the scp program is written against, over an explicit system state
pub mod fmt {
use vstd::prelude::*; use vstd::string::*;
use super::stdio::*;
verus! {
/// text under construction, as bytes
#[verifier::external_body] pub struct Text { b: u8 }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn decimal(n: int) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { decimal(n / 10) + seq![(48 + n % 10) as u8] } }
/// four digits, octal
pub uninterp spec fn octal4(n: int) -> Seq<u8>;
pub trait VShow { spec fn shown(&self) -> Seq<u8>; }
impl VShow for u64 { open spec fn shown(&self) -> Seq<u8> { decimal(*self as int) } }
impl VShow for u32 { open spec fn shown(&self) -> Seq<u8> { decimal(*self as int) } }
impl VShow for usize { open spec fn shown(&self) -> Seq<u8> { decimal(*self as int) } }
impl VShow for str { open spec fn shown(&self) -> Seq<u8> { self.spec_bytes() } }
impl<'a, T: VShow + ?Sized> VShow for &'a T { open spec fn shown(&self) -> Seq<u8> { (**self).shown() } }
#[verifier::external_body] pub fn start() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body] pub fn lit(t: Text, b: &[u8]) -> (r: Text) ensures r@ == t@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn show<T: VShow + ?Sized>(t: Text, x: &T) -> (r: Text) ensures r@ == t@ + x.shown() { unimplemented!() }
#[verifier::external_body] pub fn show_04o(t: Text, x: &i32) -> (r: Text) ensures r@ == t@ + octal4(*x as int) { unimplemented!() }
/// print! and println!; they panic where they cannot write
#[verifier::external_body] pub fn print(t: Text, w: &mut Sys) ensures *final(w) == (Sys { output: old(w).output + t@, ..*old(w) }) { unimplemented!() }
}
}
pub mod stdio {
use vstd::prelude::*; use vstd::string::*;
verus! {
#[verifier::ext_equal]
pub struct Sys {
    /// what is left to read on standard input
    pub ghost input: Seq<u8>,
    /// what went to standard output
    pub ghost output: Seq<u8>,
    /// the files this run created or emptied, in order
    pub ghost files: Seq<Created>,
    /// the directories this run asked to exist: where relative paths started at the time, and the path
    pub ghost dirs: Seq<(Seq<u8>, Seq<u8>)>,
    /// the directory relative paths start at
    pub ghost cwd: Seq<u8>,
    /// the command line
    pub ghost args: Seq<Seq<u8>>,
    /// how often the operating system refused something
    pub ghost faults: nat,
}
/// where relative paths started at the time, the path it was created under, what was written to it
pub struct Created { pub ghost dir: Seq<u8>, pub ghost path: Seq<u8>, pub ghost data: Seq<u8> }
/// the directory a path leads to
pub uninterp spec fn enter(cwd: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
/// a path without its last component
pub uninterp spec fn parent_of(p: Seq<u8>) -> Seq<u8>;
pub open spec fn same(a: Sys, b: Sys, fault: bool) -> bool { a.args == b.args && a.cwd == b.cwd && a.dirs == b.dirs && a.faults == b.faults + (if fault { 1nat } else { 0nat }) }
/// what a file can be read as, and the size its metadata gives
pub uninterp spec fn file_bytes(p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn file_size(p: Seq<u8>) -> u64;
pub uninterp spec fn is_dir(p: Seq<u8>) -> bool;
/// it has a last component (it is not `..`, `/` or empty)
pub uninterp spec fn has_last(p: Seq<u8>) -> bool;
/// the last component of a path
pub uninterp spec fn last_part(p: Seq<u8>) -> Seq<u8>;
pub trait VPath { spec fn path(&self) -> Seq<u8>; }
impl VPath for str { open spec fn path(&self) -> Seq<u8> { self.spec_bytes() } }
impl<'a, T: VPath + ?Sized> VPath for &'a T { open spec fn path(&self) -> Seq<u8> { (**self).path() } }
#[verifier::external_body] pub struct IoError { b: u8 }
#[verifier::external_body] pub struct Metadata { b: u8 }
pub mod path {
use vstd::prelude::*; use vstd::string::*;
use super::*;
verus! {
#[verifier::external_body] pub struct PathBuf { b: u8 }
#[verifier::external_body] pub struct Path { b: u8 }
#[verifier::external_body] pub struct OsStr { b: u8 }
impl View for PathBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for Path { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for OsStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VPath for PathBuf { open spec fn path(&self) -> Seq<u8> { self@ } }
impl VPath for Path { open spec fn path(&self) -> Seq<u8> { self@ } }
impl PathBuf {
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> has_last(self@), r matches Some(n) ==> n@ == last_part(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures r matches Some(p) ==> p@ == parent_of(self@) { unimplemented!() }
}
impl OsStr {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> crate::vp::is_utf8(self@), r matches Some(n) ==> n.spec_bytes() == self@ { unimplemented!() }
}
}
}
impl Metadata {
    pub uninterp spec fn size(&self) -> u64;
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
}
pub mod fs {
use vstd::prelude::*; use vstd::string::*;
use super::*;
verus! {
#[verifier::external_body] pub struct File { b: u8 }
impl File {
    /// what is left to read, for a file open for reading
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    /// where it is
    pub uninterp spec fn at(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open<P: VPath>(p: P, w: &mut Sys) -> (r: Result<File, IoError>) ensures same(*final(w), *old(w), r is Err), final(w).output == old(w).output, final(w).files == old(w).files, final(w).input == old(w).input, r matches Ok(f) ==> f.at() == p.path() && f.rest() == file_bytes(p.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, w: &mut Sys) -> (r: Result<Metadata, IoError>) ensures same(*final(w), *old(w), r is Err), final(w).output == old(w).output, final(w).files == old(w).files, final(w).input == old(w).input, r matches Ok(m) ==> m.size() == file_size(self.at()) && m.dir() == is_dir(self.at()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, b: &mut [u8], w: &mut Sys) -> (r: Result<usize, IoError>)
        ensures same(*final(w), *old(w), r is Err), final(w).output == old(w).output, final(w).files == old(w).files, final(w).input == old(w).input, final(self).at() == old(self).at(), final(b)@.len() == old(b)@.len(),
            r matches Ok(n) ==> n <= old(b)@.len() && n <= old(self).rest().len() && (n == 0 ==> old(b)@.len() == 0 || old(self).rest().len() == 0)
                && (forall|i: int| 0 <= i < n ==> #[trigger] final(b)@[i] == old(self).rest()[i]) && (forall|i: int| n <= i < old(b)@.len() ==> #[trigger] final(b)@[i] == old(b)@[i]) && final(self).rest() == old(self).rest().subrange(n as int, old(self).rest().len() as int) { unimplemented!() }
    /// which of the files created in this run
    pub uninterp spec fn slot(&self) -> int;
    /// creates the file, or empties it
    #[verifier::external_body]
    pub fn create<P: VPath>(p: P, w: &mut Sys) -> (r: Result<File, IoError>)
        ensures same(*final(w), *old(w), r is Err), final(w).input == old(w).input, final(w).output == old(w).output,
            r matches Ok(f) ==> f.slot() == old(w).files.len() && final(w).files == old(w).files.push(Created { dir: old(w).cwd, path: p.path(), data: Seq::empty() }),
            r is Err ==> final(w).files == old(w).files { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], w: &mut Sys) -> (r: Result<(), IoError>)
        requires 0 <= old(self).slot() < old(w).files.len(),
        ensures same(*final(w), *old(w), r is Err), final(w).input == old(w).input, final(w).output == old(w).output, final(self).slot() == old(self).slot(),
            final(w).files.len() == old(w).files.len(),
            forall|i: int| 0 <= i < old(w).files.len() && i != old(self).slot() ==> final(w).files[i] == old(w).files[i],
            final(w).files[old(self).slot()].dir == old(w).files[old(self).slot()].dir, final(w).files[old(self).slot()].path == old(w).files[old(self).slot()].path,
            r is Ok ==> final(w).files[old(self).slot()].data == old(w).files[old(self).slot()].data + b@,
            r is Err ==> final(w).files[old(self).slot()].data.is_prefix_of(old(w).files[old(self).slot()].data + b@) { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VPath>(p: P, w: &mut Sys) -> (r: Result<(), IoError>)
    ensures *final(w) == (Sys { dirs: old(w).dirs.push((old(w).cwd, p.path())), faults: old(w).faults + (if r is Err { 1nat } else { 0nat }), ..*old(w) }) { unimplemented!() }
}
}
pub mod ffi {
use vstd::prelude::*; use vstd::string::*;
use super::*;
verus! {
#[verifier::external_body] pub struct OsString { b: u8 }
impl View for OsString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl OsString {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> crate::vp::is_utf8(self@), r matches Some(n) ==> n.spec_bytes() == self@ { unimplemented!() }
}
impl crate::vp::VFrom<OsString> for super::path::PathBuf {
    open spec fn vfrom_ens(v: OsString, r: Self) -> bool { r@ == v@ }
    #[verifier::external_body] fn vfrom(v: OsString) -> Self { unimplemented!() }
}
}
}
pub mod env {
use vstd::prelude::*;
use super::*;
verus! {
/// the command line, as an iterator
#[verifier::external_body] pub struct Args { b: u8 }
impl Args {
    pub uninterp spec fn left(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Args) ensures r.left() == self.left().subrange(if n <= self.left().len() { n as int } else { self.left().len() as int }, self.left().len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<super::ffi::OsString>)
        ensures match r { None => old(self).left().len() == 0 && final(self).left() == old(self).left(), Some(a) => old(self).left().len() > 0 && a@ == old(self).left()[0] && final(self).left() == old(self).left().subrange(1, old(self).left().len() as int) } { unimplemented!() }
}
#[verifier::external_body] pub fn args_os(w: &mut Sys) -> (r: Args) ensures *final(w) == *old(w), r.left() == old(w).args { unimplemented!() }
#[verifier::external_body]
pub fn set_current_dir<P: VPath>(p: P, w: &mut Sys) -> (r: Result<(), IoError>)
    ensures r is Ok ==> *final(w) == (Sys { cwd: enter(old(w).cwd, p.path()), ..*old(w) }), r is Err ==> *final(w) == (Sys { faults: old(w).faults + 1, ..*old(w) }) { unimplemented!() }
}
}
pub mod io {
use vstd::prelude::*; use vstd::string::*;
use super::*;
verus! {
/// standard input, buffered or not
#[verifier::external_body] pub struct Stdin { b: u8 }
#[verifier::external_body] pub struct StdinLock { b: u8 }
#[verifier::external_body] pub fn stdin() -> Stdin { unimplemented!() }
impl Stdin { #[verifier::external_body] pub fn lock(self) -> StdinLock { unimplemented!() } }
pub open spec fn reads(a: Sys, b: Sys, n: int, fault: bool) -> bool { same(a, b, fault) && a.output == b.output && a.files == b.files && 0 <= n <= b.input.len() && a.input == b.input.subrange(n, b.input.len() as int) }
impl StdinLock {
    #[verifier::external_body]
    pub fn read(&self, b: &mut [u8], w: &mut Sys) -> (r: Result<usize, IoError>)
        ensures final(b)@.len() == old(b)@.len(), r is Err ==> reads(*final(w), *old(w), 0, true),
            r matches Ok(n) ==> n <= old(b)@.len() && (n == 0 ==> old(b)@.len() == 0 || old(w).input.len() == 0) && reads(*final(w), *old(w), n as int, false) && (n == 0 ==> *final(w) == *old(w))
                && final(b)@ == old(w).input.subrange(0, n as int) + old(b)@.subrange(n as int, old(b)@.len() as int) { unimplemented!() }
    /// fails for want of input, or because reading fails; how much it has taken by then is not said
    #[verifier::external_body]
    pub fn read_exact(&self, b: &mut [u8], w: &mut Sys) -> (r: Result<(), IoError>)
        ensures final(b)@.len() == old(b)@.len(),
            r is Ok ==> reads(*final(w), *old(w), old(b)@.len() as int, false) && final(b)@ == old(w).input.subrange(0, old(b)@.len() as int),
            r is Err ==> (exists|n: int| #[trigger] reads(*final(w), *old(w), n, false)) || (exists|n: int| #[trigger] reads(*final(w), *old(w), n, true)),
            r is Err && final(w).faults == old(w).faults ==> old(w).input.len() < old(b)@.len() { unimplemented!() }
    /// up to and with the first c, or up to the end
    #[verifier::external_body]
    pub fn read_until(&self, c: u8, v: &mut Vec<u8>, w: &mut Sys) -> (r: Result<usize, IoError>)
        ensures r matches Ok(n) ==> n == (if crate::vp::first(old(w).input, c) == old(w).input.len() { old(w).input.len() as int } else { crate::vp::first(old(w).input, c) + 1 })
                && reads(*final(w), *old(w), n as int, false) && final(v)@ == old(v)@ + old(w).input.subrange(0, n as int),
            r is Err ==> final(w).faults == old(w).faults + 1 && exists|n: int| reads(*final(w), *old(w), n, true) { unimplemented!() }
}
#[verifier::external_body] pub struct Stdout { b: u8 }
#[verifier::external_body] pub struct StdoutLock { b: u8 }
#[verifier::external_body] pub fn stdout() -> Stdout { unimplemented!() }
impl Stdout { #[verifier::external_body] pub fn lock(self) -> StdoutLock { unimplemented!() } }
impl StdoutLock {
    #[verifier::external_body]
    pub fn write_all(&self, b: &[u8], w: &mut Sys) -> (r: Result<(), IoError>)
        ensures final(w).input == old(w).input && final(w).files == old(w).files, same(*final(w), *old(w), r is Err),
            r is Ok ==> final(w).output == old(w).output + b@,
            r is Err ==> exists|n: int| 0 <= n <= b@.len() && final(w).output == old(w).output + #[trigger] b@.subrange(0, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&self, w: &mut Sys) -> (r: Result<(), IoError>) ensures r is Ok ==> *final(w) == *old(w), r is Err ==> *final(w) == (Sys { faults: old(w).faults + 1, ..*old(w) }) { unimplemented!() }
}
}
}
}
}
}
