/// Prelude: byte-level specification vocabulary, stand-ins for std operations that Verus has no
/// specification for, and the lemmas about them.
pub mod vp {
use vstd::prelude::*;
use vstd::string::*;
use vstd::slice::*;
verus! {

// ------------------------------------------------------------------ panics
/// todo!(), panic!(), unreachable!(), unwrap() of None: must be unreachable.
#[verifier::external_body]
pub fn vp_panic() -> !
    requires false,
{ unimplemented!() }

/// `Box<dyn Error>`, whatever it came from
#[verifier::external_body] pub struct AnyError { b: u8 }
#[verifier::external_body]
pub fn vp_error<E>(e: E) -> AnyError { unimplemented!() }
/// the text of a `format!`, whatever it is
#[verifier::external_body]
pub fn vp_format() -> String { unimplemented!() }
/// any number at all
#[verifier::external_body]
pub fn vp_any() -> u32 { unimplemented!() }
/// `.await` of a future held in a variable
pub trait VAwait: Sized { type O; spec fn awaited(self, r: Self::O) -> bool; fn vp_await(self) -> (r: Self::O) ensures self.awaited(r); }
#[verifier::external_body]
pub fn vp_drop<T>(t: T) { }
/// core::slice::from_mut
#[verifier::external_body]
pub fn vslice_from_mut<T>(x: &mut T) -> (r: &mut [T])
    ensures (*r)@ == seq![*old(x)], (*final(r))@.len() == 1, *final(x) == (*final(r))@[0],
{ core::slice::from_mut(x) }

// ------------------------------------------------------------------ big endian
#[verifier::opaque]
pub open spec fn be32(x: int) -> Seq<u8> {
    seq![(x / 16777216) as u8, ((x / 65536) % 256) as u8, ((x / 256) % 256) as u8, (x % 256) as u8]
}
#[verifier::opaque]
pub open spec fn de4(a: u8, b: u8, c: u8, d: u8) -> int { a * 16777216 + b * 65536 + c * 256 + d }
#[verifier::opaque]
pub open spec fn de32(s: Seq<u8>) -> int { de4(s[0], s[1], s[2], s[3]) }
#[verifier::opaque]
pub open spec fn be64(x: u64) -> Seq<u8> {
    be32((x / 4294967296) as int) + be32((x % 4294967296) as int)
}
pub broadcast proof fn lemma_be32(x: u32)
    ensures (#[trigger] be32(x as int)).len() == 4, de32(be32(x as int)) == x, de4(be32(x as int)[0], be32(x as int)[1], be32(x as int)[2], be32(x as int)[3]) == x,
{ reveal(be32); reveal(de4); reveal(de32); }
pub broadcast proof fn lemma_de32(s: Seq<u8>)
    requires s.len() == 4,
    ensures 0 <= (#[trigger] de32(s)) < 4294967296, be32(de32(s)) == s,
{ reveal(be32); reveal(de4); reveal(de32);
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert(a * 16777216 + b * 65536 + c * 256 + d < 4294967296);
    let x: u32 = (a * 16777216 + b * 65536 + c * 256 + d) as u32;
    let r1: int = b * 65536 + c * 256 + d;
    let r2: int = c * 256 + d;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 16777216, a as int, r1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 65536, a * 256 + b, r2);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 256, a * 65536 + b * 256 + c, d as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * 256 + b, 256, a as int, b as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * 65536 + b * 256 + c, 256, a * 256 + b, c as int);
    assert(de32(s) == x);
    assert(be32(x as int) =~= s);
}
pub broadcast proof fn lemma_de4(a: u8, b: u8, c: u8, d: u8)
    ensures 0 <= #[trigger] de4(a, b, c, d) < 4294967296,
{ reveal(de4); }
pub trait VToBe { spec fn vbe(self) -> Seq<u8>; type O; spec fn vbo(o: Self::O) -> Seq<u8>; fn vto_be(self) -> (r: Self::O) where Self: Sized ensures Self::vbo(r) == self.vbe(); }
impl VToBe for u32 {
    type O = [u8; 4];
    open spec fn vbe(self) -> Seq<u8> { be32(self as int) }
    open spec fn vbo(o: [u8; 4]) -> Seq<u8> { o@ }
    #[verifier::external_body] fn vto_be(self) -> [u8; 4] { self.to_be_bytes() }
}
impl VToBe for u64 {
    type O = [u8; 8];
    open spec fn vbe(self) -> Seq<u8> { be64(self) }
    open spec fn vbo(o: [u8; 8]) -> Seq<u8> { o@ }
    #[verifier::external_body] fn vto_be(self) -> [u8; 8] { self.to_be_bytes() }
}
#[verifier::external_body]
pub fn vfrom_be32(x: [u8; 4]) -> (r: u32) ensures r == de32(x@) { u32::from_be_bytes(x) }

// ------------------------------------------------------------------ text
#[verifier::opaque]
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 }
/// A cell whose borrows are those of its content (RefCell and LocalMutex, erased).
pub type Erased<T> = T;
/// Valid UTF-8, left abstract; `core::str::from_utf8` is assumed to decide it.
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
/// Two strings with the same bytes are equal (UTF-8 decoding is a function).
#[verifier::external_body]
pub broadcast proof fn axiom_str_inj(a: &str, b: &str)
    ensures (#[trigger] a.spec_bytes() == #[trigger] b.spec_bytes()) ==> a@ == b@,
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_str_utf8(s: &str)
    ensures is_utf8(#[trigger] s.spec_bytes()),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_ascii_utf8(s: Seq<u8>)
    ensures ascii(s) ==> #[trigger] is_utf8(s),
{  }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub assume_specification<'a> [core::str::from_utf8] (x: &'a [u8]) -> (r: core::result::Result<&'a str, core::str::Utf8Error>)
    ensures (match r { Ok(s) => is_utf8(x@) && s.spec_bytes() == x@, Err(_) => !is_utf8(x@) });
pub assume_specification [<[u8]>::is_ascii] (x: &[u8]) -> (r: bool)
    ensures r == ascii(x@);
/// where a str may be cut
pub open spec fn vboundary(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 < i < s.len() && !(0x80 <= s[i] < 0xC0)) }
/// what follows an ASCII character begins with one of its own
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_next(s: Seq<u8>, i: int)
    requires is_utf8(s), 0 < i <= s.len(), s[i - 1] < 128u8
    ensures #[trigger] vboundary(s, i)
{}
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_control] (c: &u8) -> (r: bool) ensures r == (*c < 32 || *c == 127);
pub assume_specification [u8::is_ascii_graphic] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
pub open spec fn octal(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 55 }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
pub open spec fn number(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() - 48) as nat } }
#[verifier::external_body]
pub fn vparse_usize(s: &str) -> (r: Result<usize, AnyError>)
    ensures digits(s.spec_bytes()) ==> (match r { Ok(n) => n == number(s.spec_bytes()), Err(_) => number(s.spec_bytes()) > usize::MAX }),
        s.spec_bytes().len() == 0 ==> r is Err,
{ unimplemented!() }
impl<T, const N: usize> VFrom<[T; N]> for Vec<T> { open spec fn vfrom_ens(v: [T; N], r: Self) -> bool { r@ == v@ }
    #[verifier::external_body] fn vfrom(v: [T; N]) -> (r: Self) { Vec::from(v) } }
/// what `&mut x[a..b]` borrows from
pub trait VMutSlice { spec fn cells(&self) -> Seq<u8>; fn vms(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).cells(), final(self).cells() == final(r)@, final(r)@.len() == r@.len(); }
impl VMutSlice for Vec<u8> { open spec fn cells(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vms(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() } }
impl<const N: usize> VMutSlice for [u8; N] { open spec fn cells(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vms(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() } }
impl VMutSlice for [u8] { open spec fn cells(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vms(&mut self) -> (r: &mut [u8]) { self } }
pub trait VStr { spec fn text(&self) -> Seq<u8>;
    fn vsplitn<'a>(&'a self, n: usize, c: char) -> (r: VSplitN<'a>) requires (c as u32) < 128 ensures r.rest() == Some(self.text()) && r.left() == n && r.sep() == c as u8;
    fn vstrip_suffix<'a>(&'a self, c: char) -> (r: Option<&'a str>) requires (c as u32) < 128
        ensures match r { Some(t) => self.text().len() > 0 && self.text().last() == c as u8 && t.spec_bytes() == self.text().drop_last(), None => self.text().len() == 0 || self.text().last() != c as u8 };
}
impl VStr for str { open spec fn text(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn vsplitn<'a>(&'a self, n: usize, c: char) -> (r: VSplitN<'a>) { unimplemented!() }
    #[verifier::external_body] fn vstrip_suffix<'a>(&'a self, c: char) -> (r: Option<&'a str>) { unimplemented!() }
}
#[verifier::external_body] pub struct VSplitN<'a> { b: &'a u8 }
/// where the first c is (the length, if nowhere)
pub open spec fn first(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first(s.subrange(1, s.len() as int), c) } }
pub broadcast proof fn lemma_first(s: Seq<u8>, c: u8)
    ensures 0 <= #[trigger] first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c)] == c, first(s, c) == s.len() && s.len() > 0 ==> s.last() != c && s[0] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.subrange(1, s.len() as int);
        lemma_first(t, c);
        if t.len() > 0 { assert(s.last() == t.last()); }
    }
}
impl<'a> VSplitN<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn left(&self) -> int;
    pub uninterp spec fn sep(&self) -> u8;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).sep() == old(self).sep(),
            (old(self).left() == 0 || old(self).rest() is None) ==> r is None && *final(self) == *old(self),
            old(self).left() > 0 && old(self).rest() is Some ==> r is Some && final(self).left() == old(self).left() - 1 && ({
                let t = old(self).rest()->0; let k = first(t, old(self).sep());
                if old(self).left() == 1 || k == t.len() { (r->0).spec_bytes() == t && final(self).rest() is None }
                else { (r->0).spec_bytes() == t.subrange(0, k) && final(self).rest() == Some(t.subrange(k + 1, t.len() as int)) } })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vstr_index<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b <= s.spec_bytes().len(), vboundary(s.spec_bytes(), a as int), vboundary(s.spec_bytes(), b as int),
    ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, b as int),
{ &s[a..b] }
#[verifier::external_body]
pub fn vstr_len(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
#[verifier::external_body]
pub fn vstr_is_empty(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() == 0) { s.len() == 0 }

#[verifier::external_body]
pub fn vstr_eq(s: &str, b: &[u8]) -> (r: bool) ensures r == (s.spec_bytes() =~= b@) { s.as_bytes() == b }
/// `contains` of an ASCII character: in UTF-8 its byte stands for nothing else
#[verifier::external_body]
pub fn vstr_starts(s: &str, c: u8) -> (r: bool) ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes()[0] == c) { s.as_bytes().first() == Some(&c) }
#[verifier::external_body]
pub fn vstr_has(s: &str, c: u8) -> (r: bool) ensures r == s.spec_bytes().contains(c) { s.as_bytes().contains(&c) }

// ------------------------------------------------------------------ bytes
pub trait VBytes { spec fn vbytes(&self) -> Seq<u8>; }
impl VBytes for [u8] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for [u8; N] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl VBytes for Vec<u8> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
/// The same view for types a key stream is applied to in place.
pub trait VBytesMut { spec fn vb(&self) -> Seq<u8>; }
impl VBytesMut for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytesMut for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } }
/// `&x[..]`
pub trait VFull: VBytes { fn vfull(&self) -> (r: &[u8]) ensures r@ == self.vbytes(); }
impl VFull for [u8] { fn vfull(&self) -> &[u8] { self } }
impl<const N: usize> VFull for [u8; N] { #[verifier::external_body] fn vfull(&self) -> &[u8] { self } }
impl VFull for Vec<u8> { #[verifier::external_body] fn vfull(&self) -> &[u8] { self } }
/// `unsafe { out.align_to().1 }` on a slice of byte arrays
pub open spec fn flat(s: Seq<[u8; 32]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.subrange(0, s.len() - 1)) + s[s.len() - 1]@ } }
pub proof fn lemma_flat_all(s: Seq<[u8; 32]>)
    ensures forall|i: int, j: int| #![trigger s.subrange(0, i), s.subrange(0, j)] 0 <= i < s.len() && j == i + 1 ==> flat(s.subrange(0, j)) == flat(s.subrange(0, i)) + s[i]@,
        flat(s.subrange(0, s.len() as int)) == flat(s), flat(s.subrange(0, 0)) == Seq::<u8>::empty(),
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|i: int, j: int| #![trigger s.subrange(0, i), s.subrange(0, j)] 0 <= i < s.len() && j == i + 1 implies flat(s.subrange(0, j)) == flat(s.subrange(0, i)) + s[i]@ by {
        assert(s.subrange(0, j).subrange(0, i) =~= s.subrange(0, i));
    }
}
pub broadcast proof fn lemma_flat_upd(s: Seq<[u8; 32]>, i: int, k: [u8; 32])
    requires 0 <= i < s.len(),
    ensures #![trigger s.update(i, k)] flat(s.update(i, k).subrange(0, i + 1)) == flat(s.subrange(0, i)) + k@, i == 0 ==> flat(s.update(i, k).subrange(0, 1)) == k@,
        flat(s.update(i, k).subrange(0, s.len() as int)) == flat(s.update(i, k)),
{
    let t = s.update(i, k);
    assert(t.subrange(0, i + 1).subrange(0, i) =~= s.subrange(0, i));
    assert(t.subrange(0, s.len() as int) =~= t);
    if i == 0 { assert(flat(s.subrange(0, 0)) + k@ =~= k@); }
}
pub broadcast proof fn lemma_empty_add(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s { assert(Seq::<u8>::empty() + s =~= s); }
pub broadcast proof fn lemma_add_empty(s: Seq<u8>) ensures #[trigger] (s + Seq::<u8>::empty()) == s { assert(s + Seq::<u8>::empty() =~= s); }
pub broadcast proof fn lemma_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a@[0]] { assert(a@ =~= seq![a@[0]]); }
pub broadcast proof fn lemma_prefix(a: Seq<u8>, b: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] (a + b).subrange(0, n) == a { assert((a + b).subrange(0, n) =~= a); }
pub broadcast group group_kdf { lemma_flat_upd, lemma_empty_add, lemma_add_empty, lemma_arr1 }
#[verifier::external_body]
pub fn vp_flatten<'a>(x: &'a mut [[u8; 32]]) -> (r: &'a [u8]) ensures final(x)@ == old(x)@, r@ == flat(old(x)@) { unimplemented!() }
impl VBytes for str { open spec fn vbytes(&self) -> Seq<u8> { self.spec_bytes() } }
impl<T: VBytes + ?Sized> VBytes for &T { open spec fn vbytes(&self) -> Seq<u8> { (**self).vbytes() } }
/// `==` on byte strings (slices, arrays, vectors and references to them)
#[verifier::external_body]
pub fn veq<A: VBytes + ?Sized, B: VBytes + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.vbytes() =~= b.vbytes()),
{ unimplemented!() }

pub mod ax {
use super::*;
use vstd::std_specs::cmp::*;
#[verifier::external_body]
pub broadcast proof fn ax_slice_obeys<T: PartialEq>() ensures #[trigger] <[T] as PartialEqSpec<[T]>>::obeys_eq_spec() {}
#[verifier::external_body]
pub broadcast proof fn ax_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ =~= b@) {}
#[verifier::external_body]
pub broadcast proof fn ax_slicearr_obeys<T: PartialEq, const N: usize>() ensures #[trigger] <[T] as PartialEqSpec<[T; N]>>::obeys_eq_spec() {}
#[verifier::external_body]
pub broadcast proof fn ax_slicearr_eq<const N: usize>(a: &[u8], b: &[u8; N]) ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ =~= b@) {}
}
// ------------------------------------------------------------------ conversions
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
pub struct VIntErr;
pub trait VFrom<T>: Sized { spec fn vfrom_ens(v: T, r: Self) -> bool; fn vfrom(v: T) -> (r: Self) ensures Self::vfrom_ens(v, r); }
pub trait VInto<U>: Sized { spec fn vinto_ens(self, r: U) -> bool; fn vinto(self) -> (r: U) ensures self.vinto_ens(r); }
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn vinto_ens(self, r: U) -> bool { U::vfrom_ens(self, r) }
    fn vinto(self) -> U { U::vfrom(self) }
}
pub trait VTryFrom<T>: Sized { type E; spec fn vtry_from_ens(v: T, r: Result<Self, Self::E>) -> bool; fn vtry_from(v: T) -> (r: Result<Self, Self::E>) ensures Self::vtry_from_ens(v, r); }
pub trait VTryInto<U>: Sized { type E; spec fn vtry_into_ens(self, r: Result<U, Self::E>) -> bool; fn vtry_into(self) -> (r: Result<U, Self::E>) ensures self.vtry_into_ens(r); }
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    type E = U::E;
    open spec fn vtry_into_ens(self, r: Result<U, U::E>) -> bool { U::vtry_from_ens(self, r) }
    fn vtry_into(self) -> Result<U, U::E> { U::vtry_from(self) }
}
pub trait VAsRef<T: ?Sized> { spec fn vas_ref_ens(&self, r: &T) -> bool; fn vas_ref(&self) -> (r: &T) ensures self.vas_ref_ens(r); }
impl VAsRef<[u8]> for str {
    open spec fn vas_ref_ens(&self, r: &[u8]) -> bool { r@ == self.spec_bytes() }
    fn vas_ref(&self) -> &[u8] { self.as_bytes() }
}
impl VAsRef<[u8]> for [u8] {
    open spec fn vas_ref_ens(&self, r: &[u8]) -> bool { r@ == self@ }
    fn vas_ref(&self) -> &[u8] { self }
}
impl<const N: usize> VAsRef<[u8]> for [u8; N] {
    open spec fn vas_ref_ens(&self, r: &[u8]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vas_ref(&self) -> &[u8] { self }
}
impl<const N: usize> VAsMutB for [u8; N] { #[verifier::external_body] fn vas_mut(&mut self) -> (r: &mut [u8]) { self } }
impl VAsMutB for [u8] { #[verifier::external_body] fn vas_mut(&mut self) -> (r: &mut [u8]) { self } }
pub trait VAsMutB: VBytesMut { fn vas_mut(&mut self) -> (r: &mut [u8]) ensures (*r)@ == old(self).vb(), final(self).vb() == (*final(r))@; }
pub trait VDefault: Sized { spec fn vdefault_ens(r: Self) -> bool; fn vdefault() -> (r: Self) ensures Self::vdefault_ens(r); }
impl<'a> VDefault for &'a str {
    open spec fn vdefault_ens(r: Self) -> bool { r.spec_bytes() == Seq::<u8>::empty() }
    #[verifier::external_body] fn vdefault() -> (r: Self) { "" }
}
#[verifier::external_body]
pub fn vtake<T: VDefault>(x: &mut T) -> (r: T)
    ensures r == *old(x), T::vdefault_ens(*final(x)),
{ unimplemented!() }

impl VFrom<bool> for u8 { open spec fn vfrom_ens(v: bool, r: u8) -> bool { r == (if v { 1u8 } else { 0u8 }) } fn vfrom(v: bool) -> u8 { if v { 1 } else { 0 } } }
impl VFrom<bool> for usize { open spec fn vfrom_ens(v: bool, r: usize) -> bool { r == (if v { 1usize } else { 0usize }) } fn vfrom(v: bool) -> usize { if v { 1 } else { 0 } } }
impl VFrom<bool> for u32 { open spec fn vfrom_ens(v: bool, r: u32) -> bool { r == (if v { 1u32 } else { 0u32 }) } fn vfrom(v: bool) -> u32 { if v { 1 } else { 0 } } }
impl VFrom<u8> for usize { open spec fn vfrom_ens(v: u8, r: usize) -> bool { r == v } fn vfrom(v: u8) -> usize { v as usize } }
impl VFrom<u8> for u32 { open spec fn vfrom_ens(v: u8, r: u32) -> bool { r == v } fn vfrom(v: u8) -> u32 { v as u32 } }
impl VFrom<u8> for u64 { open spec fn vfrom_ens(v: u8, r: u64) -> bool { r == v } fn vfrom(v: u8) -> u64 { v as u64 } }
impl VFrom<u16> for usize { open spec fn vfrom_ens(v: u16, r: usize) -> bool { r == v } fn vfrom(v: u16) -> usize { v as usize } }
impl VFrom<u32> for u64 { open spec fn vfrom_ens(v: u32, r: u64) -> bool { r == v } fn vfrom(v: u32) -> u64 { v as u64 } }
impl VFrom<usize> for usize { open spec fn vfrom_ens(v: usize, r: usize) -> bool { r == v } fn vfrom(v: usize) -> usize { v } }
impl VTryFrom<u32> for usize { type E = VIntErr;
    open spec fn vtry_from_ens(v: u32, r: Result<usize, VIntErr>) -> bool { r is Ok && r->Ok_0 == v }
    fn vtry_from(v: u32) -> Result<usize, VIntErr> { Ok(v as usize) } }
impl VTryFrom<usize> for u32 { type E = VIntErr;
    open spec fn vtry_from_ens(v: usize, r: Result<u32, VIntErr>) -> bool { if v <= 0xffff_ffff { r is Ok && r->Ok_0 == v } else { r is Err } }
    fn vtry_from(v: usize) -> Result<u32, VIntErr> { if v <= 0xffff_ffff { Ok(v as u32) } else { Err(VIntErr) } } }
impl VTryFrom<usize> for u8 { type E = VIntErr;
    open spec fn vtry_from_ens(v: usize, r: Result<u8, VIntErr>) -> bool { if v <= 255 { r is Ok && r->Ok_0 == v } else { r is Err } }
    fn vtry_from(v: usize) -> Result<u8, VIntErr> { if v <= 255 { Ok(v as u8) } else { Err(VIntErr) } } }
impl VTryFrom<u64> for usize { type E = VIntErr;
    open spec fn vtry_from_ens(v: u64, r: Result<usize, VIntErr>) -> bool { r is Ok && r->Ok_0 == v }
    fn vtry_from(v: u64) -> Result<usize, VIntErr> { Ok(v as usize) } }
impl VTryFrom<usize> for u64 { type E = VIntErr;
    open spec fn vtry_from_ens(v: usize, r: Result<u64, VIntErr>) -> bool { r is Ok && r->Ok_0 == v }
    fn vtry_from(v: usize) -> Result<u64, VIntErr> { Ok(v as u64) } }
impl<const N: usize> VTryFrom<&[u8]> for [u8; N] {
    type E = core::array::TryFromSliceError;
    open spec fn vtry_from_ens(v: &[u8], r: Result<Self, Self::E>) -> bool { if v@.len() == N { r is Ok && r->Ok_0@ == v@ } else { r is Err } }
    #[verifier::external_body]
    fn vtry_from(v: &[u8]) -> Result<Self, Self::E> { v.try_into() }
}
impl<'a> VTryFrom<&'a [u8]> for &'a [u8] { type E = VIntErr;
    open spec fn vtry_from_ens(v: &'a [u8], r: Result<&'a [u8], VIntErr>) -> bool { r == Ok::<&'a [u8], VIntErr>(v) }
    fn vtry_from(v: &'a [u8]) -> (r: Result<&'a [u8], VIntErr>) { Ok(v) }
}
impl<'a> VFrom<&'a str> for Box<str> {
    open spec fn vfrom_ens(v: &'a str, r: Box<str>) -> bool { true }
    #[verifier::external_body] fn vfrom(v: &'a str) -> Box<str> { unimplemented!() }
}
impl<'a, const N: usize> VTryFrom<&'a [u8]> for &'a [u8; N] {
    type E = core::array::TryFromSliceError;
    open spec fn vtry_from_ens(v: &'a [u8], r: Result<Self, Self::E>) -> bool { if v@.len() == N { r is Ok && r->Ok_0@ == v@ } else { r is Err } }
    #[verifier::external_body]
    fn vtry_from(v: &'a [u8]) -> Result<Self, Self::E> { v.try_into() }
}

// ------------------------------------------------------------------ wire vocabulary
pub open spec fn slen(s: Seq<u8>) -> bool { s.len() <= 0xffff_ffff }
#[verifier::opaque]
pub open spec fn e_u32(x: u32) -> Seq<u8> { be32(x as int) }
#[verifier::opaque]
pub open spec fn e_bool(b: bool) -> Seq<u8> { seq![if b { 1u8 } else { 0u8 }] }
#[verifier::opaque]
pub open spec fn e_str(s: Seq<u8>) -> Seq<u8> { be32(s.len() as int) + s }
#[verifier::opaque]
pub open spec fn p_u32(s: Seq<u8>) -> Option<(u32, Seq<u8>)> {
    if s.len() >= 4 { Some((de32(s.subrange(0, 4)) as u32, s.subrange(4, s.len() as int))) } else { None }
}
#[verifier::opaque]
pub open spec fn p_bool(s: Seq<u8>) -> Option<(bool, Seq<u8>)> {
    if s.len() >= 1 { Some((s[0] != 0, s.subrange(1, s.len() as int))) } else { None }
}
#[verifier::opaque]
pub open spec fn p_str(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() >= 4 && 4 + de32(s.subrange(0, 4)) <= s.len() {
        let n = de32(s.subrange(0, 4));
        Some((s.subrange(4, 4 + n), s.subrange(4 + n, s.len() as int)))
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_raw(s: Seq<u8>, n: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() >= n { Some((s.subrange(0, n), s.subrange(n, s.len() as int))) } else { None }
}
/// RFC 4251 section 5 name-list: US-ASCII, comma separated, no empty names.
#[verifier::opaque]
pub open spec fn nl_ok(s: Seq<u8>) -> bool {
    ascii(s)
    && (forall|i: int| 0 <= i < s.len() - 1 ==> !(#[trigger] s[i] == 44u8 && s[i + 1] == 44u8))
    && (s.len() > 0 ==> s[0] != 44u8 && s[s.len() - 1] != 44u8)
}
/// RFC 4251 section 5 mpint of a non-negative number given as big-endian magnitude.
pub open spec fn strip0(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 0 { strip0(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn mpint_body(s: Seq<u8>) -> Seq<u8> {
    let t = strip0(s);
    if t.len() > 0 && t[0] >= 128 { seq![0u8] + t } else { t }
}
pub open spec fn e_mpint(s: Seq<u8>) -> Seq<u8> { e_str(mpint_body(s)) }
pub proof fn lemma_strip0_len(s: Seq<u8>)
    ensures strip0(s).len() <= s.len(), strip0(s).len() == 0 || strip0(s)[0] != 0,
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 0 { lemma_strip0_len(s.subrange(1, s.len() as int)); }
}

pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_sub_sub(s: Seq<u8>, a: int, b: int, n: int, m: int)
    requires 0 <= a <= b <= s.len(), 0 <= n <= m <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(n, m) == s.subrange(a + n, a + m),
{ assert(s.subrange(a, b).subrange(n, m) =~= s.subrange(a + n, a + m)); }
pub broadcast proof fn lemma_sub_all(s: Seq<u8>, b: int)
    requires b == s.len(),
    ensures #[trigger] s.subrange(0, b) == s,
{ assert(s.subrange(0, b) =~= s); }
pub broadcast proof fn lemma_p_u32(x: u32, t: Seq<u8>)
    ensures #[trigger] p_u32(e_u32(x) + t) == Some((x, t)),
{ reveal(p_u32); reveal(e_u32); lemma_be32(x); lemma_be32_len(x as int);
    let s = e_u32(x) + t;
    assert(s.subrange(0, 4) =~= be32(x as int));
    assert(s.subrange(4, s.len() as int) =~= t);
}
pub broadcast proof fn lemma_p_bool(x: bool, t: Seq<u8>)
    ensures #[trigger] p_bool(e_bool(x) + t) == Some((x, t)),
{ reveal(p_bool); reveal(e_bool);
    let s = e_bool(x) + t;
    assert(s.subrange(1, s.len() as int) =~= t);
}
pub broadcast proof fn lemma_p_str(x: Seq<u8>, t: Seq<u8>)
    requires slen(x),
    ensures #[trigger] p_str(e_str(x) + t) == Some((x, t)),
{ reveal(p_str); reveal(e_str); lemma_be32_len(x.len() as int);
    let s = e_str(x) + t;
    lemma_be32(x.len() as u32);
    assert(s.subrange(0, 4) =~= be32(x.len() as int));
    assert(s.subrange(4, 4 + x.len() as int) =~= x);
    assert(s.subrange(4 + x.len() as int, s.len() as int) =~= t);
}
pub broadcast proof fn lemma_p_raw(x: Seq<u8>, t: Seq<u8>, n: int)
    requires n == x.len(),
    ensures #[trigger] p_raw(x + t, n) == Some((x, t)),
{ reveal(p_raw);
    let s = x + t;
    assert(s.subrange(0, n) =~= x);
    assert(s.subrange(n, s.len() as int) =~= t);
}
/// The converse: what was parsed is what was there.
pub broadcast proof fn lemma_p_u32_inv(s: Seq<u8>)
    ensures (#[trigger] p_u32(s)) matches Some((x, t)) ==> s == e_u32(x) + t,
{ reveal(p_u32); reveal(e_u32);
    if s.len() >= 4 { lemma_de32(s.subrange(0, 4)); assert(s =~= s.subrange(0, 4) + s.subrange(4, s.len() as int)); }
}
pub broadcast proof fn lemma_p_str_inv(s: Seq<u8>)
    ensures (#[trigger] p_str(s)) matches Some((x, t)) ==> s == e_str(x) + t && slen(x),
{ reveal(p_str); reveal(e_str);
    if p_str(s) is Some {
        lemma_de32(s.subrange(0, 4));
        let n = de32(s.subrange(0, 4));
        assert(s =~= (s.subrange(0, 4) + s.subrange(4, 4 + n)) + s.subrange(4 + n, s.len() as int));
    }
}
pub broadcast proof fn lemma_e_str_len(x: Seq<u8>)
    ensures (#[trigger] e_str(x)).len() == 4 + x.len(),
{ reveal(e_str); lemma_be32_len(x.len() as int); }

pub broadcast proof fn lemma_be32_len(x: int)
    ensures (#[trigger] be32(x)).len() == 4,
{ reveal(be32); }
pub broadcast proof fn lemma_e_u32_len(x: u32)
    ensures (#[trigger] e_u32(x)).len() == 4,
{ reveal(e_u32); lemma_be32_len(x as int); }
pub broadcast proof fn lemma_e_bool_len(x: bool)
    ensures (#[trigger] e_bool(x)).len() == 1,
{ reveal(e_bool); }
/// `t` is a suffix of `s`.
#[verifier::opaque]
pub open spec fn suf(t: Seq<u8>, s: Seq<u8>) -> bool { t.len() <= s.len() && t =~= s.subrange(s.len() - t.len(), s.len() as int) }
/// `f` is `o` with its first bytes replaced by `e`.
#[verifier::opaque]
pub open spec fn wrote(o: Seq<u8>, f: Seq<u8>, e: Seq<u8>) -> bool { e.len() <= o.len() && f =~= e + o.subrange(e.len() as int, o.len() as int) }
pub broadcast proof fn lemma_suf_len(t: Seq<u8>, s: Seq<u8>)
    requires #[trigger] suf(t, s),
    ensures t.len() <= s.len(),
{ reveal(suf); }
pub broadcast proof fn lemma_suf_trans(t: Seq<u8>, s: Seq<u8>, u: Seq<u8>)
    requires #[trigger] suf(t, s), #[trigger] suf(u, t),
    ensures suf(u, s),
{ reveal(suf); assert(u =~= s.subrange(s.len() - u.len(), s.len() as int)); }
pub broadcast proof fn lemma_suf_sub(s: Seq<u8>, a: int, b: int)
    requires b == s.len(), 0 <= a <= b,
    ensures suf(#[trigger] s.subrange(a, b), s),
{ reveal(suf); }
pub broadcast proof fn lemma_wrote(o: Seq<u8>, f: Seq<u8>, e: Seq<u8>, t: Seq<u8>)
    requires #[trigger] suf(t, o), t.len() == o.len() - e.len(), f == e + t,
    ensures #[trigger] wrote(o, f, e),
{ reveal(suf); reveal(wrote); }
pub broadcast proof fn lemma_wrote_inv(o: Seq<u8>, f: Seq<u8>, e: Seq<u8>)
    requires #[trigger] wrote(o, f, e),
    ensures f == e + o.subrange(e.len() as int, o.len() as int), e.len() <= o.len(),
{ reveal(wrote); }
pub broadcast proof fn lemma_wrote_empty(o: Seq<u8>, e: Seq<u8>)
    requires e.len() == 0,
    ensures #[trigger] wrote(o, o, e),
{ reveal(wrote); assert(e + o.subrange(0, o.len() as int) =~= o); }
pub broadcast proof fn lemma_lenbuf(x: u32, b: Seq<u8>, t: Seq<u8>)
    requires x == b.len(),
    ensures #[trigger] (e_u32(x) + (b + t)) == e_str(b) + t,
{ reveal(e_u32); reveal(e_str); assert(e_u32(x) + (b + t) =~= e_str(b) + t); }
pub broadcast proof fn lemma_e_u32_nil(x: u32, t: Seq<u8>)
    requires t.len() == 0,
    ensures #[trigger] (e_u32(x) + t) == e_u32(x),
{ assert(e_u32(x) + t =~= e_u32(x)); }
/// Rust reference: no slice is larger than isize::MAX bytes.
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff,
{ }
/// A `&mut [u8]` cannot change the length of what it points to.
#[verifier::external_body]
pub broadcast proof fn axiom_mut_slice_len(s: &mut [u8])
    ensures #[trigger] final(s)@.len() == old(s)@.len(),
{ }
pub broadcast group group_vp {
    axiom_slice_len, axiom_mut_slice_len,
    lemma_be32, lemma_de4, lemma_be32_len, lemma_e_u32_len, lemma_e_bool_len,
    lemma_lenbuf, lemma_e_u32_nil,
    axiom_str_utf8, axiom_ascii_utf8, lemma_assoc, lemma_sub_all, lemma_suf_len, lemma_suf_trans, lemma_suf_sub, lemma_wrote, lemma_wrote_inv, lemma_wrote_empty, lemma_e_str_len,
    ax::ax_slice_obeys, ax::ax_slice_eq, ax::ax_slicearr_obeys, ax::ax_slicearr_eq,
}
pub broadcast group group_rt {
    lemma_p_u32, lemma_p_bool, lemma_p_str, lemma_p_raw,
}
}
}
