//! Trusted prelude: models of the standard library, of the `crc` crate and of
//! the storage. Everything `external_body`, `axiom` or `assume_specification`
//! in this file is an assumption and is listed in every evidence file.
use vstd::prelude::*;
#[allow(unused_imports)]
use core::num::NonZero;

verus! {

global size_of usize == 8;

/// Objects are never larger than `isize::MAX` bytes.
pub broadcast axiom fn ax_slice_len(s: &[u8]) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn ax_vec_len(s: Vec<u8>) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff;

// ---------------------------------------------------------------- bytes
pub open spec fn le16(s: Seq<u8>, o: int) -> u16 { (s[o] as int + 0x100 * s[o + 1]) as u16 }
pub open spec fn le32(s: Seq<u8>, o: int) -> u32 {
    (s[o] as int + 0x100 * s[o + 1] + 0x1_0000 * s[o + 2] + 0x100_0000 * s[o + 3]) as u32
}
pub open spec fn be32(s: Seq<u8>, o: int) -> u32 {
    (s[o + 3] as int + 0x100 * s[o + 2] + 0x1_0000 * s[o + 1] + 0x100_0000 * s[o]) as u32
}
pub open spec fn be16(s: Seq<u8>, o: int) -> u16 { (s[o + 1] as int + 0x100 * s[o]) as u16 }
pub open spec fn be64(s: Seq<u8>, o: int) -> u64 {
    (be32(s, o) as int * 0x1_0000_0000 + be32(s, o + 4)) as u64
}
pub open spec fn hilo64(hi: u32, lo: u32) -> u64 { (hi as int * 0x1_0000_0000 + lo) as u64 }
pub open spec fn hilo32(hi: u16, lo: u16) -> u32 { (hi as int * 0x1_0000 + lo) as u32 }
pub open spec fn byte_of(v: int, k: nat) -> u8 {
    (v / (if k == 0 { 1int } else if k == 1 { 0x100 } else if k == 2 { 0x1_0000 } else { 0x100_0000 }) % 0x100) as u8
}
#[verifier::opaque]
pub open spec fn le_bytes32(v: u32) -> Seq<u8> { seq![byte_of(v as int, 0), byte_of(v as int, 1), byte_of(v as int, 2), byte_of(v as int, 3)] }
#[verifier::opaque]
pub open spec fn be_bytes32(v: u32) -> Seq<u8> { seq![byte_of(v as int, 3), byte_of(v as int, 2), byte_of(v as int, 1), byte_of(v as int, 0)] }
#[verifier::opaque]
pub open spec fn le_bytes16(v: u16) -> Seq<u8> { seq![byte_of(v as int, 0), byte_of(v as int, 1)] }

pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@, 0) { b[0] as u16 + 0x100 * b[1] as u16 }
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@, 0) {
    b[0] as u32 + 0x100 * b[1] as u32 + 0x1_0000 * b[2] as u32 + 0x100_0000 * b[3] as u32
}
pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@, 0) {
    b[3] as u32 + 0x100 * b[2] as u32 + 0x1_0000 * b[1] as u32 + 0x100_0000 * b[0] as u32
}
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@, 0) { b[1] as u16 + 0x100 * b[0] as u16 }
pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == be64(b@, 0) {
    let hi = u32_from_be_bytes([b[0], b[1], b[2], b[3]]);
    let lo = u32_from_be_bytes([b[4], b[5], b[6], b[7]]);
    hi as u64 * 0x1_0000_0000 + lo as u64
}
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) { u64::from_le_bytes(b) }
pub trait VxB32: Sized {
    spec fn vx_v(self) -> u32;
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == le_bytes32(self.vx_v());
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be_bytes32(self.vx_v());
}
impl VxB32 for u32 {
    open spec fn vx_v(self) -> u32 { self }
    fn vx_to_le_bytes(self) -> [u8; 4] {
        let r = [(self % 0x100) as u8, (self / 0x100 % 0x100) as u8, (self / 0x1_0000 % 0x100) as u8, (self / 0x100_0000 % 0x100) as u8];
        proof { reveal(le_bytes32); assert(r@ =~= le_bytes32(self)); }
        r
    }
    fn vx_to_be_bytes(self) -> [u8; 4] {
        let r = [(self / 0x100_0000 % 0x100) as u8, (self / 0x1_0000 % 0x100) as u8, (self / 0x100 % 0x100) as u8, (self % 0x100) as u8];
        proof { reveal(be_bytes32); assert(r@ =~= be_bytes32(self)); }
        r
    }
}
pub trait VxB16: Sized {
    spec fn vx_v(self) -> u16;
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == le_bytes16(self.vx_v());
}
pub trait VxB64: Sized {
    spec fn vx_v(self) -> u64;
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r[0] as int == self.vx_v() % 256;
}
impl VxB64 for usize {
    open spec fn vx_v(self) -> u64 { self as u64 }
    fn vx_to_le_bytes(self) -> [u8; 8] {
        let b = |k: u32| -> (r: u8) requires k < 8 { assert(8 * k < 64) by (nonlinear_arith) requires k < 8; ((self >> ((8 * k) as usize)) & 0xff) as u8 };
        [(self % 0x100) as u8, b(1), b(2), b(3), b(4), b(5), b(6), b(7)]
    }
}
impl VxB16 for u16 {
    open spec fn vx_v(self) -> u16 { self }
    fn vx_to_le_bytes(self) -> [u8; 2] {
        let r = [(self % 0x100) as u8, (self / 0x100 % 0x100) as u8];
        proof { reveal(le_bytes16); assert(r@ =~= le_bytes16(self)); }
        r
    }
}

/// A call to this function is a panic: it must be unreachable.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }

// ---------------------------------------------------------------- conversions
#[derive(Debug)]
pub struct VxConvErr;
pub trait VxTryInto<U>: Sized {
    type VxError;
    spec fn vx_ok(self) -> bool;
    spec fn vx_is(self, u: U) -> bool;
    fn vx_try_into(self) -> (r: Result<U, Self::VxError>)
        ensures r is Ok == self.vx_ok(), r matches Ok(u) ==> self.vx_is(u);
}
impl<'a, const N: usize> VxTryInto<[u8; N]> for &'a [u8] {
    type VxError = VxConvErr;
    open spec fn vx_ok(self) -> bool { self@.len() == N }
    open spec fn vx_is(self, u: [u8; N]) -> bool { u@ == self@ }
    fn vx_try_into(self) -> Result<[u8; N], VxConvErr> {
        if self.len() != N { return Err(VxConvErr); }
        let mut a = [0u8; N];
        let mut i: usize = 0;
        while i < N
            invariant i <= N, self@.len() == N, a@.len() == N, forall|j: int| 0 <= j < i ==> a@[j] == self@[j]
            decreases N - i
        {
            a[i] = self[i];
            i = i + 1;
        }
        proof { assert(a@ =~= self@); }
        Ok(a)
    }
}
macro_rules! vx_int {
    ($a:ty, $b:ty) => { verus!{
impl VxTryInto<$b> for $a {
    type VxError = VxConvErr;
    open spec fn vx_ok(self) -> bool { <$b>::MIN <= self && self <= <$b>::MAX }
    open spec fn vx_is(self, u: $b) -> bool { u == self }
    fn vx_try_into(self) -> Result<$b, VxConvErr> {
        let x = self as i128;
        if <$b>::MIN as i128 <= x && x <= <$b>::MAX as i128 { Ok(self as $b) } else { Err(VxConvErr) }
    }
}
    } };
}
vx_int!(u8, u16);
vx_int!(u8, u32);
vx_int!(u8, u64);
vx_int!(u8, usize);
vx_int!(u8, i32);
vx_int!(u8, i64);
vx_int!(u16, u8);
vx_int!(u16, u32);
vx_int!(u16, u64);
vx_int!(u16, usize);
vx_int!(u16, i32);
vx_int!(u16, i64);
vx_int!(u32, u8);
vx_int!(u32, u16);
vx_int!(u32, u64);
vx_int!(u32, usize);
vx_int!(u32, i32);
vx_int!(u32, i64);
vx_int!(u64, u8);
vx_int!(u64, u16);
vx_int!(u64, u32);
vx_int!(u64, usize);
vx_int!(u64, i32);
vx_int!(u64, i64);
vx_int!(usize, u8);
vx_int!(usize, u16);
vx_int!(usize, u32);
vx_int!(usize, u64);
vx_int!(usize, i32);
vx_int!(usize, i64);
vx_int!(i32, u8);
vx_int!(i32, u16);
vx_int!(i32, u32);
vx_int!(i32, u64);
vx_int!(i32, usize);
vx_int!(i32, i64);
vx_int!(i64, u8);
vx_int!(i64, u16);
vx_int!(i64, u32);
vx_int!(i64, u64);
vx_int!(i64, usize);
vx_int!(i64, i32);

pub trait VxDiv<R>: Sized {
    spec fn vx_divisor(r: R) -> int;
    spec fn vx_num(self) -> int;
    fn vx_div(self, r: R) -> (x: Self)
        requires Self::vx_divisor(r) != 0,
        ensures x.vx_num() == self.vx_num() / Self::vx_divisor(r);
    fn vx_rem(self, r: R) -> (x: Self)
        requires Self::vx_divisor(r) != 0,
        ensures x.vx_num() == self.vx_num() % Self::vx_divisor(r);
}
macro_rules! vx_div_impl {
    ($a:ty) => { verus!{
impl VxDiv<$a> for $a {
    open spec fn vx_divisor(r: $a) -> int { r as int }
    open spec fn vx_num(self) -> int { self as int }
    fn vx_div(self, r: $a) -> $a { self / r }
    fn vx_rem(self, r: $a) -> $a { self % r }
}
impl VxDiv<NonZero<$a>> for $a {
    open spec fn vx_divisor(r: NonZero<$a>) -> int { r@ as int }
    open spec fn vx_num(self) -> int { self as int }
    fn vx_div(self, r: NonZero<$a>) -> $a { self / r.get() }
    fn vx_rem(self, r: NonZero<$a>) -> $a { self % r.get() }
}
    } };
}
vx_div_impl!(u8);
vx_div_impl!(u16);
vx_div_impl!(u32);
vx_div_impl!(u64);
vx_div_impl!(usize);

// ---------------------------------------------------------------- std functions
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
pub assume_specification[ u32::checked_pow ](b: u32, e: u32) -> (r: Option<u32>)
    ensures r == (if vstd::arithmetic::power::pow(b as int, e as nat) <= u32::MAX {
        Some(vstd::arithmetic::power::pow(b as int, e as nat) as u32) } else { None });
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::try_reserve_exact ](v: &mut Vec<T, A>, n: usize)
    -> (r: Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@;
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
    requires b != 0
    ensures r as int == (a + b - 1) / b as int;
pub assume_specification[ u32::rotate_left ](a: u32, n: u32) -> (r: u32)
    ensures n < 32 ==> r == (if n == 0 { a } else { (a << n) | (a >> ((32 - n) as u32)) });
pub assume_specification[ u32::reverse_bits ](a: u32) -> (r: u32)
    ensures r == rev32(a);
pub uninterp spec fn rev32(a: u32) -> u32;
pub broadcast axiom fn ax_rev32(a: u32) ensures #[trigger] rev32(rev32(a)) == a;
/// `?` converts the error with `From::from`.
pub broadcast axiom fn ax_question_mark<F: From<E>, E>(e: E, r: F)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<F, E>(e, r)
        ==> (<F as vstd::std_specs::convert::FromSpec<E>>::obeys_from_spec() ==> r == <F as vstd::std_specs::convert::FromSpec<E>>::from_spec(e));
pub axiom fn ax_rev32_ones() ensures rev32(0xffff_ffffu32) == 0xffff_ffffu32;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);

pub broadcast axiom fn ax_sl_eq0()
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sl_eq(x: &[u8], y: &[u8])
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(x, y) == (x@ == y@);
pub broadcast axiom fn ax_sla_eq0<const N: usize>()
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sla_eq<const N: usize>(x: &[u8], y: &[u8; N])
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(x, y) == (x@ == y@);

pub broadcast group vx_axioms { ax_sla_eq0, ax_sla_eq, ax_bytes_of, ax_question_mark, ax_slice_len, ax_vec_len, ax_rev32, ax_sl_eq0, ax_sl_eq }

// ---------------------------------------------------------------- iterator helpers
pub struct VxIter<'a, T> { pub s: &'a [T] }
impl<'a, T> VxIter<'a, T> {
    pub fn position<F: Fn(&'a T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures
            r matches Some(i) ==> i < self.s@.len() && f.ensures((&self.s@[i as int],), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.s@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self.s@.len() ==> f.ensures((&#[trigger] self.s@[j],), false),
    {
        let mut i: usize = 0;
        while i < self.s.len()
            invariant i <= self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
                forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.s@[j],), false),
            decreases self.s@.len() - i
        {
            if f(&self.s[i]) { return Some(i); }
            i = i + 1;
        }
        None
    }
    pub fn any<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.s@.len() && f.ensures((&#[trigger] self.s@[i],), true),
            !r ==> forall|j: int| 0 <= j < self.s@.len() ==> f.ensures((&#[trigger] self.s@[j],), false),
    {
        let mut i: usize = 0;
        while i < self.s.len()
            invariant i <= self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
                forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.s@[j],), false),
            decreases self.s@.len() - i
        {
            if f(&self.s[i]) { return true; }
            i = i + 1;
        }
        false
    }
}

impl<'a, T> VxIter<'a, T> {
    pub fn all<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures
            r ==> forall|j: int| 0 <= j < self.s@.len() ==> f.ensures((&#[trigger] self.s@[j],), true),
            !r ==> exists|i: int| 0 <= i < self.s@.len() && f.ensures((&#[trigger] self.s@[i],), false),
    {
        let mut i: usize = 0;
        while i < self.s.len()
            invariant i <= self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
                forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.s@[j],), true),
            decreases self.s@.len() - i
        {
            if !f(&self.s[i]) { return false; }
            i = i + 1;
        }
        true
    }
    pub fn cloned(self) -> (r: VxIter<'a, T>) ensures r == self { self }
    pub fn copied(self) -> (r: VxIter<'a, T>) ensures r == self { self }
    pub fn skip(self, n: usize) -> (r: VxIter<'a, T>)
        ensures r.s@ == self.s@.skip(if n <= self.s@.len() { n as int } else { self.s@.len() as int }),
    {
        let n = if n <= self.s.len() { n } else { self.s.len() };
        let x = vstd::slice::slice_subrange(self.s, n, self.s.len());
        proof { assert(x@ =~= self.s@.skip(n as int)); }
        VxIter { s: x }
    }
}

/// `<[T]>::chunks`.
pub struct VxChunks<'a, T> { pub s: &'a [T], pub n: usize }
/// `<[T]>::split`: pieces of `s` between the separators; `done` once the last piece was returned.
pub struct VxSplit<'a, T, F> { pub s: &'a [T], pub done: bool, pub f: F }
pub trait VxSlice<T> {
    spec fn vx_slice(&self) -> Seq<T>;
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>) requires n > 0 ensures r.s@ == self.vx_slice(), r.n == n;
    fn vx_split<'a, F: Fn(&T) -> bool>(&'a self, f: F) -> (r: VxSplit<'a, T, F>)
        ensures r.s@ == self.vx_slice(), !r.done, r.f == f;
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_slice(&self) -> Seq<T> { self@ }
    fn vx_chunks<'a>(&'a self, n: usize) -> VxChunks<'a, T> { VxChunks { s: self, n } }
    fn vx_split<'a, F: Fn(&T) -> bool>(&'a self, f: F) -> VxSplit<'a, T, F> { VxSplit { s: self, done: false, f } }
}
impl<'a, T> VxChunks<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        requires old(self).n > 0
        ensures final(self).n == old(self).n,
            old(self).s@.len() == 0 ==> r is None && final(self).s@ == old(self).s@,
            old(self).s@.len() > 0 ==> (r matches Some(c) && {
                let k = if old(self).n <= old(self).s@.len() { old(self).n as int } else { old(self).s@.len() as int };
                c@ == old(self).s@.take(k) && final(self).s@ == old(self).s@.skip(k) }),
    {
        let l = self.s.len();
        if l == 0 { return None; }
        let k = if self.n <= l { self.n } else { l };
        let c = vstd::slice::slice_subrange(self.s, 0, k);
        let rest = vstd::slice::slice_subrange(self.s, k, l);
        proof { assert(c@ =~= self.s@.take(k as int)); assert(rest@ =~= self.s@.skip(k as int)); }
        self.s = rest;
        Some(c)
    }
}
impl<'a, T, F: Fn(&T) -> bool> VxSplit<'a, T, F> {
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        requires forall|i: int| 0 <= i < old(self).s@.len() ==> old(self).f.requires((&#[trigger] old(self).s@[i],)),
        ensures final(self).f == old(self).f,
            old(self).done ==> r is None && final(self).done && final(self).s@ == old(self).s@,
            !old(self).done ==> (r matches Some(c) && c@.len() <= old(self).s@.len()
                && c@ == old(self).s@.take(c@.len() as int)
                && (forall|i: int| 0 <= i < c@.len() ==> old(self).f.ensures((&#[trigger] old(self).s@[i],), false))
                && (if c@.len() == old(self).s@.len() { final(self).done && final(self).s@ == old(self).s@ } else {
                    &&& !final(self).done
                    &&& old(self).f.ensures((&old(self).s@[c@.len() as int],), true)
                    &&& final(self).s@ == old(self).s@.skip(c@.len() as int + 1)
                })),
    {
        if self.done { return None; }
        let mut i: usize = 0;
        let n = self.s.len();
        while i < n
            invariant_except_break i <= n, n == self.s@.len(), !self.done, *self == *old(self),
                forall|i: int| 0 <= i < self.s@.len() ==> self.f.requires((&#[trigger] self.s@[i],)),
                forall|j: int| 0 <= j < i ==> self.f.ensures((&#[trigger] self.s@[j],), false),
            ensures i <= n, n == self.s@.len(), !self.done, *self == *old(self),
                forall|j: int| 0 <= j < i ==> self.f.ensures((&#[trigger] self.s@[j],), false),
                i < n ==> self.f.ensures((&self.s@[i as int],), true),
            decreases n - i
        {
            if (self.f)(&self.s[i]) { break; }
            i = i + 1;
        }
        let c = vstd::slice::slice_subrange(self.s, 0, i);
        proof { assert(c@ =~= self.s@.take(i as int)); }
        if i == n {
            self.done = true;
        } else {
            let rest = vstd::slice::slice_subrange(self.s, i + 1, n);
            proof { assert(rest@ =~= self.s@.skip(i as int + 1)); }
            self.s = rest;
        }
        Some(c)
    }
}
pub trait VxVec {
    spec fn vx_vs(&self) -> Seq<u8>;
    fn vx_drain(&mut self, r: core::ops::Range<usize>)
        requires r.start <= r.end <= old(self).vx_vs().len(),
        ensures final(self).vx_vs() == old(self).vx_vs().take(r.start as int) + old(self).vx_vs().skip(r.end as int);
    fn vx_splice<'a>(&mut self, r: core::ops::Range<usize>, w: VxIter<'a, u8>)
        requires r.start <= r.end <= old(self).vx_vs().len(),
        ensures final(self).vx_vs() == old(self).vx_vs().take(r.start as int) + w.s@ + old(self).vx_vs().skip(r.end as int);
    fn vx_extend(&mut self, w: &[u8]) ensures final(self).vx_vs() == old(self).vx_vs() + w@;
}
impl VxVec for Vec<u8> {
    open spec fn vx_vs(&self) -> Seq<u8> { self@ }
    fn vx_drain(&mut self, r: core::ops::Range<usize>) {
        let mut v: Vec<u8> = Vec::new();
        let l = self.len();
        v.extend_from_slice(vstd::slice::slice_subrange(self.as_slice(), 0, r.start));
        v.extend_from_slice(vstd::slice::slice_subrange(self.as_slice(), r.end, l));
        proof { assert(v@ =~= self@.take(r.start as int) + self@.skip(r.end as int)); }
        *self = v;
    }
    fn vx_splice<'a>(&mut self, r: core::ops::Range<usize>, w: VxIter<'a, u8>) {
        let mut v: Vec<u8> = Vec::new();
        let l = self.len();
        v.extend_from_slice(vstd::slice::slice_subrange(self.as_slice(), 0, r.start));
        v.extend_from_slice(w.s);
        v.extend_from_slice(vstd::slice::slice_subrange(self.as_slice(), r.end, l));
        proof { assert(v@ =~= self@.take(r.start as int) + w.s@ + self@.skip(r.end as int)); }
        *self = v;
    }
    fn vx_extend(&mut self, w: &[u8]) {
        let ghost o = self@;
        self.extend_from_slice(w);
        proof { assert(self@ =~= o + w@); }
    }
}
/// `a.extend(b.iter())` on `BTreeMap`.
#[verifier::external_body]
pub fn vx_btree_extend<K: Ord + Copy, V: Copy>(a: &mut std::collections::BTreeMap<K, V>, b: &std::collections::BTreeMap<K, V>)
    ensures final(a)@ == old(a)@.union_prefer_right(b@)
{ a.extend(b.iter()) }

#[verifier::external_body]
pub fn vx_vecdeque_from<T>(v: Vec<T>) -> (r: std::collections::VecDeque<T>) ensures r@ == v@ { std::collections::VecDeque::from(v) }
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], x: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| x);
pub assume_specification<T, A: core::alloc::Allocator>[ <Vec<T, A> as AsMut<[T]>>::as_mut ](v: &mut Vec<T, A>) -> (r: &mut [T])
    ensures r@ == old(v)@, final(r)@ == final(v)@, final(r)@.len() == r@.len();
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,)),
    ensures
        o is None ==> r is None,
        o matches Some(x) ==> (p.ensures((&x,), true) && r == Some(x)) || (p.ensures((&x,), false) && r is None);
/// The only use is on a value that `Ext4::load_with_reader` has just created,
/// with no other owner.
#[verifier::external_body]
pub fn vx_rc_get_mut<T>(v: &mut std::rc::Rc<T>) -> (r: Option<&mut T>)
    ensures r matches Some(x) && *x == **old(v) && *final(x) == **final(v)
{ std::rc::Rc::get_mut(v) }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
pub open spec fn utf8_of(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn utf8_of_string(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub assume_specification<'a>[ core::str::from_utf8 ](s: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures r is Ok == is_utf8(s@), r matches Ok(x) ==> utf8_of(x) == s@;
pub assume_specification[ String::from_utf8 ](s: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok == is_utf8(s@), r matches Ok(x) ==> utf8_of_string(x) == s@;
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == utf8_of_string(s);
pub assume_specification<'a>[ String::as_bytes ](s: &'a String) -> (r: &'a [u8]) ensures r@ == utf8_of_string(*s);

/// `AsRef`: the bytes an argument converted with `as_ref` stands for.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: ?Sized + std::marker::PointeeSized>: std::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn obeys_as_ref_spec() -> bool;
    spec fn as_ref_bytes(&self) -> Seq<u8>;
    spec fn as_ref_view(t: &T) -> Seq<u8>;
    fn as_ref(&self) -> (r: &T) ensures Self::obeys_as_ref_spec() ==> Self::as_ref_view(r) == self.as_ref_bytes();
}
pub uninterp spec fn bytes_of<T>(s: Seq<T>) -> Seq<u8>;
pub broadcast axiom fn ax_bytes_of(s: Seq<u8>) ensures #[trigger] bytes_of::<u8>(s) == s;
impl<T> AsRefSpecImpl<[T]> for [T] {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { bytes_of(self@) }
    open spec fn as_ref_view(t: &[T]) -> Seq<u8> { bytes_of(t@) }
}
impl<T, const N: usize> AsRefSpecImpl<[T]> for [T; N] {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { bytes_of(self@) }
    open spec fn as_ref_view(t: &[T]) -> Seq<u8> { bytes_of(t@) }
}
impl<T, A: core::alloc::Allocator> AsRefSpecImpl<[T]> for Vec<T, A> {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { bytes_of(self@) }
    open spec fn as_ref_view(t: &[T]) -> Seq<u8> { bytes_of(t@) }
}
impl AsRefSpecImpl<[u8]> for str {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { utf8_of(self) }
    open spec fn as_ref_view(t: &[u8]) -> Seq<u8> { t@ }
}
impl<T: ?Sized + std::marker::PointeeSized + AsRef<U>, U: ?Sized + std::marker::PointeeSized> AsRefSpecImpl<U> for &T {
    open spec fn obeys_as_ref_spec() -> bool { <T as AsRefSpec<U>>::obeys_as_ref_spec() }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { <T as AsRefSpec<U>>::as_ref_bytes(*self) }
    open spec fn as_ref_view(t: &U) -> Seq<u8> { <T as AsRefSpec<U>>::as_ref_view(t) }
}
pub open spec fn ref_bytes<T: AsRef<[u8]> + ?Sized>(t: &T) -> Seq<u8> { <T as AsRefSpec<[u8]>>::as_ref_bytes(t) }
pub open spec fn ref_obeys<T: AsRef<[u8]> + ?Sized>() -> bool {
    <T as AsRefSpec<[u8]>>::obeys_as_ref_spec() && forall|r: &[u8]| #[trigger] <T as AsRefSpec<[u8]>>::as_ref_view(r) == r@
}

/// `core::num::Wrapping`.
#[derive(Clone, Copy)]
pub struct Wrapping<T>(pub T);
impl Wrapping<u32> {
    pub fn default() -> (r: Self) ensures r.0 == 0 { Wrapping(0) }
}
pub open spec fn wadd(a: u32, b: u32) -> u32 { ((a as int + b as int) % 0x1_0000_0000) as u32 }
fn vx_low5(b: usize) -> (r: u32) ensures r == (b & 31) as u32, r <= 31 {
    assert(b & 31 <= 31) by (bit_vector);
    (b & 31) as u32
}
macro_rules! vx_wr {
    ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $rhs:ty, |$a:ident, $b:ident| $spec:expr, |$c:ident, $d:ident| $exec:expr) => { verus!{
impl core::ops::$tr<$rhs> for Wrapping<u32> {
    type Output = Wrapping<u32>;
    fn $m(self, o: $rhs) -> (r: Wrapping<u32>) { let $c = self.0; let $d = o; Wrapping($exec) }
}
impl vstd::std_specs::ops::$sp<$rhs> for Wrapping<u32> {
    open spec fn $ob() -> bool { true }
    open spec fn $rq(self, o: $rhs) -> bool { true }
    open spec fn $ss(self, o: $rhs) -> Wrapping<u32> { let $a = self.0; let $b = o; Wrapping($spec) }
}
    } };
}
vx_wr!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, Wrapping<u32>, |a, b| wadd(a, b.0), |a, b| ((a as u64 + b.0 as u64) % 0x1_0000_0000) as u32);
vx_wr!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, u32, |a, b| wadd(a, b), |a, b| ((a as u64 + b as u64) % 0x1_0000_0000) as u32);
vx_wr!(BitAnd, bitand, BitAndSpecImpl, obeys_bitand_spec, bitand_req, bitand_spec, Wrapping<u32>, |a, b| a & b.0, |a, b| a & b.0);
vx_wr!(BitOr, bitor, BitOrSpecImpl, obeys_bitor_spec, bitor_req, bitor_spec, Wrapping<u32>, |a, b| a | b.0, |a, b| a | b.0);
vx_wr!(BitXor, bitxor, BitXorSpecImpl, obeys_bitxor_spec, bitxor_req, bitxor_spec, Wrapping<u32>, |a, b| a ^ b.0, |a, b| a ^ b.0);
vx_wr!(Shl, shl, ShlSpecImpl, obeys_shl_spec, shl_req, shl_spec, usize, |a, b| a << ((b & 31) as u32), |a, b| a << vx_low5(b));
vx_wr!(Shr, shr, ShrSpecImpl, obeys_shr_spec, shr_req, shr_spec, usize, |a, b| a >> ((b & 31) as u32), |a, b| a >> vx_low5(b));

// ---------------------------------------------------------------- storage
/// Contents of the storage: fixed but arbitrary.
pub uninterp spec fn disk() -> Seq<u8>;
/// Positions on the storage are 64-bit numbers.
pub axiom fn ax_disk_len() ensures disk().len() <= u64::MAX;

/// Stand-in for `Box<dyn Error + Send + Sync>`; `io::Error::other` takes it.
#[verifier::external_body]
pub struct BoxedError { x: u8 }
/// Stand-in for `Box::new` followed by the conversion to `Box<dyn Error + Send + Sync>`.
#[verifier::external_body]
pub fn vx_boxed(e: io::Error) -> BoxedError { unimplemented!() }

/// Stand-in for `core::cell::RefCell`. The invariant of the content holds
/// whenever it is borrowed; that every borrower restores it is proved on the
/// functions that are called on the borrowed value (`get_or_insert_blocks`,
/// `Ext4Read::read`), not at the release of the borrow. The borrow flag is not
/// modelled.
pub trait VxCell: Sized {
    type Tag;
    spec fn vx_tag(&self) -> Self::Tag;
    spec fn vx_inv(&self) -> bool;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T: VxCell> { x: T }
impl<T: VxCell> RefCell<T> {
    pub uninterp spec fn tag(&self) -> T::Tag;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) requires t.vx_inv() ensures r.tag() == t.vx_tag() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> (r: &mut T) ensures r.vx_inv(), r.vx_tag() == self.tag() { unimplemented!() }
}

/// Iterator over a slice by value / by reference, for the `for` desugaring.
pub struct VxValIter<'a, T> { pub s: &'a [T], pub i: usize }
pub fn vx_val_iter<'a, T: Copy>(s: &'a [T]) -> (r: VxValIter<'a, T>) ensures r.s@ == s@, r.i == 0 { VxValIter { s, i: 0 } }
impl<'a, T: Copy> VxValIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { let x = self.s[self.i]; self.i = self.i + 1; Some(x) } else { None }
    }
}
pub struct VxRefIter<'a, T> { pub s: &'a [T], pub i: usize }
pub fn vx_ref_iter<'a, T>(s: &'a [T]) -> (r: VxRefIter<'a, T>) ensures r.s@ == s@, r.i == 0 { VxRefIter { s, i: 0 } }
impl<'a, T> VxRefIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> (r matches Some(x) && *x == old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some(x) } else { None }
    }
}
/// `lo..hi`, its reverse, and `find` on both.
pub struct VxRange<T> { pub lo: T, pub hi: T }
pub struct VxRangeRev<T> { pub lo: T, pub hi: T }
pub struct VxRangeIncl<T> { pub lo: T, pub hi: T }
pub fn vx_range<T>(lo: T, hi: T) -> (r: VxRange<T>) ensures r.lo == lo, r.hi == hi { VxRange { lo, hi } }
pub fn vx_range_incl<T>(lo: T, hi: T) -> (r: VxRangeIncl<T>) ensures r.lo == lo, r.hi == hi { VxRangeIncl { lo, hi } }
macro_rules! vx_range {
    ($t:ty) => { verus!{
impl VxRange<$t> {
    pub fn rev(self) -> (r: VxRangeRev<$t>) ensures r.lo == self.lo, r.hi == self.hi { VxRangeRev { lo: self.lo, hi: self.hi } }
    pub fn next(&mut self) -> (r: Option<$t>)
        ensures final(self).hi == old(self).hi,
            old(self).lo < old(self).hi ==> r == Some(old(self).lo) && final(self).lo == old(self).lo + 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).lo == old(self).lo,
    {
        if self.lo < self.hi { let x = self.lo; self.lo = self.lo + 1; Some(x) } else { None }
    }
    pub fn find<F: Fn(&$t) -> bool>(self, f: F) -> (r: Option<$t>)
        requires forall|i: $t| self.lo <= i < self.hi ==> #[trigger] f.requires((&i,)),
        ensures
            r matches Some(i) ==> self.lo <= i < self.hi && f.ensures((&i,), true)
                && forall|s: Seq<u8>, j: $t| #![trigger s[j as int]] self.lo <= j < i ==> f.ensures((&j,), false),
            r is None ==> forall|s: Seq<u8>, j: $t| #![trigger s[j as int]] self.lo <= j < self.hi ==> f.ensures((&j,), false),
    {
        let mut i = self.lo;
        while i < self.hi
            invariant self.lo <= i, self.lo <= self.hi ==> i <= self.hi,
                forall|i: $t| self.lo <= i < self.hi ==> #[trigger] f.requires((&i,)),
                forall|j: $t| self.lo <= j < i ==> #[trigger] f.ensures((&j,), false),
            decreases self.hi - i
        {
            if f(&i) { return Some(i); }
            i = i + 1;
        }
        None
    }
}
impl VxRangeIncl<$t> {
    pub fn rev(self) -> (r: VxRangeRev<$t>) requires self.hi < <$t>::MAX ensures r.lo == self.lo, r.hi == self.hi + 1 { VxRangeRev { lo: self.lo, hi: self.hi + 1 } }
}
impl VxRangeRev<$t> {
    pub fn next(&mut self) -> (r: Option<$t>)
        ensures final(self).lo == old(self).lo,
            old(self).lo < old(self).hi ==> r == Some((old(self).hi - 1) as $t) && final(self).hi == old(self).hi - 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).hi == old(self).hi,
    {
        if self.lo < self.hi { self.hi = self.hi - 1; Some(self.hi) } else { None }
    }
    pub fn find<F: Fn(&$t) -> bool>(self, f: F) -> (r: Option<$t>)
        requires forall|i: $t| self.lo <= i < self.hi ==> #[trigger] f.requires((&i,)),
        ensures
            r matches Some(i) ==> self.lo <= i < self.hi && f.ensures((&i,), true)
                && forall|s: Seq<u8>, j: $t| #![trigger s[j as int]] i < j < self.hi ==> f.ensures((&j,), false),
            r is None ==> forall|s: Seq<u8>, j: $t| #![trigger s[j as int]] self.lo <= j < self.hi ==> f.ensures((&j,), false),
    {
        let mut i = self.hi;
        while i > self.lo
            invariant i <= self.hi, self.lo <= self.hi ==> self.lo <= i,
                forall|i: $t| self.lo <= i < self.hi ==> #[trigger] f.requires((&i,)),
                forall|j: $t| i <= j < self.hi ==> #[trigger] f.ensures((&j,), false),
            decreases i
        {
            i = i - 1;
            if f(&i) { return Some(i); }
        }
        None
    }
}
    } };
}
/// `lo..=hi` in a `for`.
pub struct VxIncl<T> { pub lo: T, pub hi: T, pub done: bool }
pub fn vx_incl<T>(lo: T, hi: T) -> (r: VxIncl<T>) ensures r.lo == lo, r.hi == hi, !r.done { VxIncl { lo, hi, done: false } }
macro_rules! vx_incl {
    ($t:ty) => { verus!{
impl VxIncl<$t> {
    pub fn next(&mut self) -> (r: Option<$t>)
        ensures final(self).hi == old(self).hi,
            r is Some == (!old(self).done && old(self).lo <= old(self).hi),
            r matches Some(x) ==> x == old(self).lo && final(self).done == (x == old(self).hi)
                && final(self).lo == (if x == old(self).hi { x as int } else { x + 1 }),
            r is None ==> *final(self) == *old(self),
    {
        if self.done || self.lo > self.hi { None }
        else {
            let x = self.lo;
            if self.lo == self.hi { self.done = true; } else { self.lo = self.lo + 1; }
            Some(x)
        }
    }
}
    } };
}
vx_incl!(u8);
vx_incl!(u16);
vx_incl!(u32);
vx_incl!(u64);
vx_incl!(usize);
vx_range!(u32);
vx_range!(usize);
vx_range!(u64);
/// `for` over a range with a `break`.
pub fn vx_range_of<T>(x: core::ops::Range<T>) -> (r: VxRange<T>) ensures r.lo == x.start, r.hi == x.end { VxRange { lo: x.start, hi: x.end } }

#[verifier::external_body]
pub fn vx_box_slice_mut<'a>(b: &'a mut Box<[u8]>) -> (r: &'a mut [u8])
    ensures r@ == old(b)@, final(r)@ == final(b)@
{ &mut *b }
pub fn vx_box_copy_from_slice(b: &mut Box<[u8]>, s: &[u8])
    requires old(b)@.len() == s@.len()
    ensures final(b)@ == s@
{ vx_box_slice_mut(b).copy_from_slice(s); }
#[verifier::external_body]
pub fn vx_vec_mut<'a>(b: &'a mut Vec<u8>) -> (r: &'a mut [u8])
    ensures r@ == old(b)@, final(r)@ == final(b)@
{ &mut *b }

// ---------------------------------------------------------------- crc crate
/// The CRC32C register after feeding `data` starting from register value `state`.
pub uninterp spec fn crc32c(state: u32, data: Seq<u8>) -> u32;

} // verus!

pub mod crc {
    use vstd::prelude::*;
    use super::*;
    verus! {
    pub struct Algorithm<W> { pub init: W, pub id: u8 }
    pub const CRC_32_ISCSI: Algorithm<u32> = Algorithm { init: 0xffff_ffff, id: 1 };
    #[verifier::external_body]
    #[verifier::reject_recursive_types(W)]
    pub struct Crc<W> { x: W }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(W)]
    pub struct Digest<'a, W> { x: &'a W }
    impl<'a> Digest<'a, u32> {
        pub uninterp spec fn alg(&self) -> u8;
        pub uninterp spec fn init(&self) -> u32;
        pub uninterp spec fn data(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn update(&mut self, d: &[u8])
            ensures final(self).init() == old(self).init(), final(self).alg() == old(self).alg(),
                final(self).data() == old(self).data() + d@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: u32)
            ensures self.alg() == 1 ==> r == crc32c(rev32(self.init()), self.data()) ^ 0xffff_ffffu32,
        { unimplemented!() }
    }
    impl<'a> Clone for Digest<'a, u32> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self)
            ensures r.init() == self.init(), r.data() == self.data(), r.alg() == self.alg(),
        { unimplemented!() }
    }
    impl Crc<u32> {
        pub uninterp spec fn alg(&self) -> u8;
        #[verifier::external_body]
        pub fn new(a: &Algorithm<u32>) -> (r: Self) ensures r.alg() == a.id { unimplemented!() }
        #[verifier::external_body]
        pub fn digest_with_initial(&self, init: u32) -> (r: Digest<'static, u32>)
            ensures r.init() == init, r.data() == Seq::<u8>::empty(), r.alg() == self.alg(),
        { unimplemented!() }
    }
    }
}

verus! {
/// `.iter()` adaptors that Verus does not model are routed through `VxIter`.
pub trait VxIterExt<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) ensures r.s@ == self.vx_seq();
}
impl<T> VxIterExt<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> VxIter<'a, T> { VxIter { s: self } }
}
impl<T, const N: usize> VxIterExt<T> for [T; N] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> VxIter<'a, T> { VxIter { s: self.as_slice() } }
}
impl<T> VxIterExt<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> VxIter<'a, T> { VxIter { s: self.as_slice() } }
}
impl<T> VxIterExt<T> for std::collections::VecDeque<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> VxIter<'a, T> { unimplemented!() }
}
}

/// Stand-in for `std::io` (all `std::io` paths are renamed to it).
pub mod io {
    use vstd::prelude::*;
    use super::*;
    verus! {
    #[derive(PartialEq, Eq, Structural, Clone, Copy)]
    pub enum ErrorKind { InvalidInput, FileTooLarge, IsADirectory, NotADirectory, NotFound, InvalidData, PermissionDenied, Other, UnexpectedEof }
    pub struct Error { pub kind: ErrorKind }
    pub type Result<T> = core::result::Result<T, Error>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    impl From<ErrorKind> for Error {
        fn from(k: ErrorKind) -> (r: Error) ensures r.kind == k { Error { kind: k } }
    }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k } }
    }
    impl Error {
        pub fn other<T>(t: T) -> (r: Error) ensures r.kind == ErrorKind::Other { Error { kind: ErrorKind::Other } }
    }
    pub trait Read { fn read(&mut self, buf: &mut [u8]) -> Result<usize>; }
    pub trait Seek { fn seek(&mut self, pos: SeekFrom) -> Result<u64>; }
    }
}

/// Stand-ins for `std::ffi`, `std::os::unix::ffi`, `std::path` and `std::fs` (Unix): strings of bytes, and files
/// whose bytes do not change.
pub mod ffi {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct OsStr { x: u8 }
    #[verifier::external_body]
    pub struct OsString { x: u8 }
    impl OsStr { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
    impl OsString { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
    }
}
pub mod os { pub mod unix { pub mod ffi {
    use vstd::prelude::*;
    use crate::vx::ffi::*;
    verus! {
    pub trait OsStrExt {
        spec fn os_bytes(&self) -> Seq<u8>;
        fn from_bytes(b: &[u8]) -> (r: &Self) ensures r.os_bytes() == b@;
        fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.os_bytes();
    }
    impl OsStrExt for OsStr {
        open spec fn os_bytes(&self) -> Seq<u8> { self.bytes() }
        #[verifier::external_body]
        fn from_bytes(b: &[u8]) -> (r: &OsStr) { unimplemented!() }
        #[verifier::external_body]
        fn as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    }
    pub trait OsStringExt: Sized {
        spec fn os_bytes(&self) -> Seq<u8>;
        fn from_vec(v: Vec<u8>) -> (r: Self) ensures r.os_bytes() == v@;
        fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self.os_bytes();
    }
    impl OsStringExt for OsString {
        open spec fn os_bytes(&self) -> Seq<u8> { self.bytes() }
        #[verifier::external_body]
        fn from_vec(v: Vec<u8>) -> (r: OsString) { unimplemented!() }
        #[verifier::external_body]
        fn into_vec(self) -> (r: Vec<u8>) { unimplemented!() }
    }
    }
} } }
pub mod path {
    use vstd::prelude::*;
    use crate::vx::ffi::*;
    verus! {
    #[verifier::external_body]
    pub struct Path { x: u8 }
    #[verifier::external_body]
    pub struct PathBuf { x: u8 }
    impl Path {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new(s: &OsStr) -> (r: &Path) ensures r.bytes() == s.bytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn as_os_str(&self) -> (r: &OsStr) ensures r.bytes() == self.bytes() { unimplemented!() }
    }
    impl PathBuf {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn into_os_string(self) -> (r: OsString) ensures r.bytes() == self.bytes() { unimplemented!() }
    }
    impl From<OsString> for PathBuf {
        #[verifier::external_body]
        fn from(s: OsString) -> (r: PathBuf) ensures r.bytes() == s.bytes() { unimplemented!() }
    }
    impl AsRef<Path> for Path {
        #[verifier::external_body]
        fn as_ref(&self) -> (r: &Path) { unimplemented!() }
    }
    }
}
pub mod fs {
    use vstd::prelude::*;
    use crate::vx::io;
    verus! {
    #[verifier::external_body]
    pub struct File { x: u8 }
    impl File {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        /// Where the next read starts.
        pub uninterp spec fn at(&self) -> int;
        /// The storage is whatever file is opened.
        #[verifier::external_body]
        pub fn open(path: &crate::vx::path::Path) -> (r: io::Result<File>)
            ensures r matches Ok(f) ==> f.bytes() == crate::vx::disk()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
            ensures final(self).bytes() == old(self).bytes(), final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> 0 <= old(self).at() && old(self).at() + old(buf)@.len() <= old(self).bytes().len()
                    && final(self).at() == old(self).at() + old(buf)@.len()
                    && final(buf)@ == old(self).bytes().subrange(old(self).at(), old(self).at() + old(buf)@.len())
        { unimplemented!() }
    }
    impl io::Read for File {
        /// Perhaps fewer bytes than wanted.
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    }
    impl io::Seek for File {
        #[verifier::external_body]
        fn seek(&mut self, pos: io::SeekFrom) -> (r: io::Result<u64>)
            ensures final(self).bytes() == old(self).bytes(),
                r is Ok ==> (pos matches io::SeekFrom::Start(n) ==> final(self).at() == n)
        { unimplemented!() }
    }
    }
}

// ---------------------------------------------------------------- formatting
verus! {
/// Stand-in for `core::fmt::Formatter` (without flags): the bytes of the text written so far.
/// A sink that refuses a write stays in the `failed` state; an error is only ever its error.
#[verifier::external_body]
pub struct Formatter { x: u8 }
#[verifier::external_body]
pub struct FmtError { x: u8 }
pub type FmtResult = core::result::Result<(), FmtError>;
impl Formatter {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    pub uninterp spec fn failed(&self) -> bool;
    /// Nothing but `s` was written to `old`, or the sink refused a write.
    pub open spec fn wrote(old: &Formatter, new: &Formatter, r: FmtResult, s: Seq<u8>) -> bool {
        &&& r is Ok ==> new.text() == old.text() + s && new.failed() == old.failed()
        &&& r is Err ==> new.failed()
    }
    /// The same, element by element.
    pub open spec fn wrote_all(old: &Formatter, new: &Formatter, r: FmtResult, s: Seq<u8>) -> bool {
        &&& r is Ok ==> new.text() =~= old.text() + s && new.failed() == old.failed()
        &&& r is Err ==> new.failed()
    }
    #[verifier::external_body]
    pub fn vx_byte(&mut self, b: u8) -> (r: FmtResult)
        ensures Formatter::wrote(old(self), final(self), r, seq![b])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lit(&mut self, s: &[u8]) -> (r: FmtResult)
        ensures Formatter::wrote(old(self), final(self), r, s@)
    { unimplemented!() }
}
pub open spec fn hex_digit(d: int) -> u8 { (if d < 10 { 0x30 + d } else { 0x57 + d }) as u8 }
/// Two lower-case hexadecimal digits.
pub open spec fn hex2(b: u8) -> Seq<u8> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
pub trait VxHex { fn vx_hex02(&self, f: &mut Formatter) -> FmtResult; }
impl VxHex for u8 {
    /// `{:02x}`
    #[verifier::external_body]
    fn vx_hex02(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures Formatter::wrote(old(f), final(f), r, hex2(*self))
    { unimplemented!() }
}
/// A piece of text produced by a function of the standard library.
#[verifier::external_body]
pub struct Text { x: u8 }
impl Text {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_display(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures Formatter::wrote(old(f), final(f), r, self.text())
    { unimplemented!() }
}
/// `str::escape_debug`, `<[u8]>::escape_ascii` and the replacement of invalid sequences of `String::from_utf8_lossy`:
/// functions of the standard library, not specified further.
pub uninterp spec fn escaped_utf8(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn escaped_ascii(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn replaced(s: Seq<u8>) -> Seq<u8>;
/// Valid text is left as it is.
pub open spec fn lossy(s: Seq<u8>) -> Seq<u8> { if is_utf8(s) { s } else { replaced(s) } }
pub trait VxEscape {
    spec fn bytes(&self) -> Seq<u8>;
    fn vx_escape_debug(&self) -> (r: Text) ensures r.text() == escaped_utf8(self.bytes());
    fn vx_escape_ascii(&self) -> (r: Text) ensures r.text() == escaped_ascii(self.bytes());
}
impl VxEscape for str {
    open spec fn bytes(&self) -> Seq<u8> { utf8_of(self) }
    #[verifier::external_body]
    fn vx_escape_debug(&self) -> (r: Text) { unimplemented!() }
    #[verifier::external_body]
    fn vx_escape_ascii(&self) -> (r: Text) { unimplemented!() }
}
impl VxEscape for [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_escape_debug(&self) -> (r: Text) { unimplemented!() }
    #[verifier::external_body]
    fn vx_escape_ascii(&self) -> (r: Text) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_lossy(s: &[u8]) -> (r: Text) ensures r.text() == lossy(s@) { unimplemented!() }
/// A write whose format string the model does not cover.
#[verifier::external_body]
pub fn vx_unmodelled_fmt(f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }

// ---------------------------------------------------------------- used only when the source does
//@if abs_diff
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a > b { a - b } else { b - a });
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == (if a > b { a - b } else { b - a });
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a - b } else { b - a });
//@end
//@if div_ceil
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r as int == (a + b - 1) / b as int;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a + b - 1) / b as int;
//@end
//@if pow
pub assume_specification[ u32::pow ](b: u32, e: u32) -> (r: u32)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u32::MAX ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
pub assume_specification[ u64::pow ](b: u64, e: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u64::MAX ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
pub assume_specification[ usize::pow ](b: usize, e: u32) -> (r: usize)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= usize::MAX ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
//@end
//@if or
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
//@end
//@if and
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
//@end
//@if unwrap_or
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, b: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => b });
//@end
//@if replace
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
//@end
//@if then_some
pub assume_specification<T>[ bool::then_some ](a: bool, b: T) -> (r: Option<T>) ensures r == (if a { Some(b) } else { None });
//@end
//@if is_some_and
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> !r, o matches Some(x) ==> f.ensures((x,), r);
//@end
//@if is_none_or
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r, o matches Some(x) ==> f.ensures((x,), r);
//@end
//@if map_or
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> f.ensures((x,), r);
//@end
//@if or_else
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
//@end
}
