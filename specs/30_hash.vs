%% module dir_entry_hash
// The directory hash, written after fs/ext4/hash.c of the Linux kernel.
pub struct Quad { pub a: u32, pub b: u32, pub c: u32, pub d: u32 }
pub open spec fn rol(x: u32, s: u32) -> u32 { (x << s) | (x >> ((32 - s) as u32)) }
/// The round functions: 0 is F, 1 is G, 2 is H.
pub open spec fn rf(k: int, x: u32, y: u32, z: u32) -> u32 {
    if k == 0 { z ^ (x & (y ^ z)) } else if k == 1 { wadd(x & y, (x ^ y) & z) } else { x ^ y ^ z }
}
/// `ROUND(f, a, b, c, d, x, s)`: the new value of `a`.
pub open spec fn round(k: int, a: u32, b: u32, c: u32, d: u32, x: u32, s: u32) -> u32 { rol(wadd(wadd(a, rf(k, b, c, d)), x), s) }
/// Four consecutive rounds, for a, d, c and b in turn.
pub open spec fn four(k: int, q: Quad, x0: u32, x1: u32, x2: u32, x3: u32, s0: u32, s1: u32, s2: u32, s3: u32) -> Quad {
    let a = round(k, q.a, q.b, q.c, q.d, x0, s0);
    let d = round(k, q.d, a, q.b, q.c, x1, s1);
    let c = round(k, q.c, d, a, q.b, x2, s2);
    let b = round(k, q.b, c, d, a, x3, s3);
    Quad { a, b, c, d }
}
pub open spec fn md4_1(q: Quad, i: Seq<u32>) -> Quad { four(0, q, i[0], i[1], i[2], i[3], 3, 7, 11, 19) }
pub open spec fn md4_2(q: Quad, i: Seq<u32>) -> Quad { four(0, md4_1(q, i), i[4], i[5], i[6], i[7], 3, 7, 11, 19) }
pub open spec fn k2(x: u32) -> u32 { wadd(x, 0x5A82_7999) }
pub open spec fn k3(x: u32) -> u32 { wadd(x, 0x6ED9_EBA1) }
pub open spec fn md4_3(q: Quad, i: Seq<u32>) -> Quad { four(1, md4_2(q, i), k2(i[1]), k2(i[3]), k2(i[5]), k2(i[7]), 3, 5, 9, 13) }
pub open spec fn md4_4(q: Quad, i: Seq<u32>) -> Quad { four(1, md4_3(q, i), k2(i[0]), k2(i[2]), k2(i[4]), k2(i[6]), 3, 5, 9, 13) }
pub open spec fn md4_5(q: Quad, i: Seq<u32>) -> Quad { four(2, md4_4(q, i), k3(i[3]), k3(i[7]), k3(i[2]), k3(i[6]), 3, 9, 11, 15) }
pub open spec fn md4_6(q: Quad, i: Seq<u32>) -> Quad { four(2, md4_5(q, i), k3(i[1]), k3(i[5]), k3(i[0]), k3(i[4]), 3, 9, 11, 15) }
/// `half_md4_transform`.
pub open spec fn md4_of(q: Quad, i: Seq<u32>) -> Quad {
    let r = md4_6(q, i);
    Quad { a: wadd(q.a, r.a), b: wadd(q.b, r.b), c: wadd(q.c, r.c), d: wadd(q.d, r.d) }
}
/// `TEA_transform`: (sum, b0, b1) after `n` of the 16 rounds.
pub open spec fn tea_n(b0: u32, b1: u32, i: Seq<u32>, n: nat) -> (u32, u32, u32) decreases n {
    if n == 0 { (0, b0, b1) }
    else {
        let (sum0, x0, y0) = tea_n(b0, b1, i, (n - 1) as nat);
        let sum = wadd(sum0, 0x9E37_79B9);
        let x = wadd(x0, wadd(y0 << 4u32, i[0]) ^ wadd(y0, sum) ^ wadd(y0 >> 5u32, i[1]));
        let y = wadd(y0, wadd(x << 4u32, i[2]) ^ wadd(x, sum) ^ wadd(x >> 5u32, i[3]));
        (sum, x, y)
    }
}
pub open spec fn tea_of(q: Quad, i: Seq<u32>) -> Quad {
    let (_s, x, y) = tea_n(q.a, q.b, i, 16);
    Quad { a: wadd(q.a, x), b: wadd(q.b, y), c: q.c, d: q.d }
}
/// `str2hashbuf_signed`: byte values are sign-extended.
pub open spec fn sext(b: u8) -> u32 { if b < 128 { b as u32 } else { (0xffff_ff00 + b) as u32 } }
/// Up to four bytes of the name from `o` on, after `n` of them; starts with the padding.
pub open spec fn word(src: Seq<u8>, o: int, n: nat) -> u32 decreases n {
    if n == 0 { let p = (src.len() % 256) as u8; le32(seq![p, p, p, p], 0) }
    else {
        let e = word(src, o, (n - 1) as nat);
        if o + n - 1 < src.len() { wadd(sext(src[o + n - 1]), e << 8u32) } else { e }
    }
}
pub open spec fn hash_buf(src: Seq<u8>, n: nat) -> Seq<u32> { Seq::new(n, |j: int| word(src, 4 * j, 4)) }
/// The state after all of `name`.
pub open spec fn absorb(alg: HashAlg, q: Quad, name: Seq<u8>) -> Quad decreases name.len() {
    let n: int = if alg is HalfMd4 { 32 } else { 16 };
    if name.len() == 0 { q }
    else {
        let c = name.take(if n <= name.len() { n } else { name.len() as int });
        absorb(alg, if alg is HalfMd4 { md4_of(q, hash_buf(c, 8)) } else { tea_of(q, hash_buf(c, 4)) }, name.skip(c.len() as int))
    }
}
pub open spec fn zero_seed(s: Seq<u32>) -> bool { s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == 0 }
pub open spec fn start_state(s: Seq<u32>) -> Quad {
    if zero_seed(s) { Quad { a: 0x6745_2301, b: 0xefcd_ab89, c: 0x98ba_dcfe, d: 0x1032_5476 } } else { Quad { a: s[0], b: s[1], c: s[2], d: s[3] } }
}
/// C12: the hash of a file name; the lowest bit is clear and the end marker is never used.
pub open spec fn dir_hash(alg: HashAlg, name: Seq<u8>, seed: Seq<u32>) -> u32 {
    let q = absorb(alg, start_state(seed), name);
    let h = (if alg is HalfMd4 { q.b } else { q.a }) & 0xffff_fffe;
    if h == 0xffff_fffe { 0xffff_fffc } else { h }
}
pub open spec fn quad_of(s: Seq<Wu32>) -> Quad { Quad { a: s[0].0, b: s[1].0, c: s[2].0, d: s[3].0 } }
pub open spec fn vals(s: Seq<Wu32>) -> Seq<u32> { s.map_values(|w: Wu32| w.0) }
pub proof fn lemma_maj(x: u32, y: u32, z: u32)
    ensures (x & y) | (x & z) | (y & z) == wadd(x & y, (x ^ y) & z)
{
    let a = x & y;
    let b = (x ^ y) & z;
    assert((x & y) & ((x ^ y) & z) == 0) by (bit_vector);
    assert((x & y) | (x & z) | (y & z) == ((x & y) | ((x ^ y) & z))) by (bit_vector);
    assert((a | b) as u64 == a as u64 + b as u64) by (bit_vector) requires a & b == 0;
}
/// Trusted: the layout of arrays of four-byte integers (Rust reference, "Array layout").
#[verifier::external_body]
pub proof fn ax_size_blocks()
    ensures vstd::layout::size_of::<[Wu32; 8]>() == 32, vstd::layout::size_of::<[Wu32; 4]>() == 16
{}
%% fn dir_entry_hash::HashAlg::from_u8
@props C12 C11 C04
@ret r
@spec
    ensures
        r matches Ok(a) ==> (alg == 1 && a is HalfMd4) || (alg == 2 && a is Tea),
        r matches Err(e) ==> alg != 1 && alg != 2 && e is Incompatible,
%% fn dir_entry_hash::md4_half::f
@props C12
@ret r
@spec
    ensures r.0 == rf(0, x.0, y.0, z.0)
%% fn dir_entry_hash::md4_half::g
@props C12
@ret r
@spec
    ensures r.0 == rf(1, x.0, y.0, z.0)
@start
    proof { lemma_maj(x.0, y.0, z.0); }
%% fn dir_entry_hash::md4_half::h
@props C12
@ret r
@spec
    ensures r.0 == rf(2, x.0, y.0, z.0)
%% fn dir_entry_hash::md4_half::op
@props C12
@ret r
@spec
    requires f.requires((b, c, d)), 0 < s < 32
    ensures exists|t: Wu32| #[trigger] f.ensures((b, c, d), t) && r.0 == rol(wadd(wadd(a.0, t.0), k.0), s)
%% fn dir_entry_hash::md4_half
@props C12
@spec
    ensures quad_of(final(state)@) == md4_of(quad_of(old(state)@), vals(data@))
@start
    let ghost q = quad_of(state@);
    let ghost v = vals(data@);
    proof { assert(forall|j: int| 0 <= j < 8 ==> #[trigger] v[j] == data@[j].0); }
@loop 0
    invariant
        state@ == old(state)@, v == vals(data@), data@.len() == 8,
        forall|j: int| 0 <= j < 8 ==> #[trigger] v[j] == data@[j].0,
        vx_it0.s@ == seq![0usize, 4usize], 0 <= vx_it0.i <= 2,
        (Quad { a: a.0, b: b.0, c: c.0, d: d.0 }) == (if vx_it0.i == 0 { q } else if vx_it0.i == 1 { md4_1(q, v) } else { md4_2(q, v) }),
    ensures vx_it0.i == 2
    decreases 2 - vx_it0.i
@loop 1
    invariant
        state@ == old(state)@, v == vals(data@), data@.len() == 8, K1.0 == 0x5a82_7999u32,
        forall|j: int| 0 <= j < 8 ==> #[trigger] v[j] == data@[j].0,
        vx_it1.s@ == seq![1usize, 0usize], 0 <= vx_it1.i <= 2,
        (Quad { a: a.0, b: b.0, c: c.0, d: d.0 }) == (if vx_it1.i == 0 { md4_2(q, v) } else if vx_it1.i == 1 { md4_3(q, v) } else { md4_4(q, v) }),
    ensures vx_it1.i == 2
    decreases 2 - vx_it1.i
@loop 2
    invariant
        state@ == old(state)@, v == vals(data@), data@.len() == 8, K2.0 == 0x6ed9_eba1u32,
        forall|j: int| 0 <= j < 8 ==> #[trigger] v[j] == data@[j].0,
        vx_it2.s@ == seq![2usize, 0usize], 0 <= vx_it2.i <= 2,
        (Quad { a: a.0, b: b.0, c: c.0, d: d.0 }) == (if vx_it2.i == 0 { md4_4(q, v) } else if vx_it2.i == 1 { md4_5(q, v) } else { md4_6(q, v) }),
    ensures vx_it2.i == 2
    decreases 2 - vx_it2.i
%% fn dir_entry_hash::tea
@props C12
@spec
    ensures quad_of(final(state)@) == tea_of(quad_of(old(state)@), vals(data@))
@start
    let ghost v = vals(data@);
    proof { assert(forall|j: int| 0 <= j < 4 ==> #[trigger] v[j] == data@[j].0); }
@for 0 crate::vx::vx_range_of::<u32>($E)
@loop 0
    invariant
        state@ == old(state)@, v == vals(data@), data@.len() == 4,
        forall|j: int| 0 <= j < 4 ==> #[trigger] v[j] == data@[j].0,
        0 <= vx_it0.lo <= 16, vx_it0.hi == 16,
        (sum.0, v0.0, v1.0) == tea_n(state@[0].0, state@[1].0, v, vx_it0.lo as nat),
    ensures vx_it0.lo == 16
    decreases 16 - vx_it0.lo
@loopstart 0
    proof { assert(5u32 & 31 == 5 && 4u32 & 31 == 4) by (bit_vector); assert(5usize & 31 == 5 && 4usize & 31 == 4) by (bit_vector); }
%% fn dir_entry_hash::sign_extend_byte_to_u32
@props C12
@ret r
@spec
    ensures r == sext(byte)
@start
    proof { assert(((byte as i8) as u32) == (if byte < 128 { byte as u32 } else { add(0xffffff00u32, byte as u32) })) by (bit_vector); }
%% fn dir_entry_hash::create_hash_block
@props C12
@ret r
@spec
    requires N <= 8
    ensures vals(r@) == hash_buf(src@, N as nat)
@start
    let ghost s0 = src@;
@loop 0
    invariant
        dst@.len() == N, 0 <= vx_i0 <= N, N <= 8,
        pad == word(s0, 0, 0),
        src@ == s0.skip(if 4 * vx_i0 <= s0.len() { 4 * vx_i0 } else { s0.len() as int }),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] dst@[j].0 == word(s0, 4 * j, 4),
    ensures vx_i0 == N
    decreases N - vx_i0
@loopstart 0
    let ghost o = 4 * (vx_i0 - 1);
@for 1 crate::vx::vx_range_of::<u32>($E)
@loop 1
    invariant
        0 <= vx_it1.lo <= 4, vx_it1.hi == 4,
        src@ == s0.skip(if o + vx_it1.lo <= s0.len() { o + vx_it1.lo } else { s0.len() as int }),
        elem == word(s0, o, vx_it1.lo as nat), o >= 0,
    ensures vx_it1.lo == 4
    decreases 4 - vx_it1.lo
@tail
    proof { assert(vals(dst@) =~= hash_buf(s0, N as nat)); }
%% fn dir_entry_hash::HashAlg::hash
@attr #[verifier::rlimit(60)]
@props C12 C11
@ret r
@replace StateBlock::default() ==> [Wu32::default(); 4]
@spec
    requires name.wf()
    ensures r == dir_hash(*self, name.0@, seed@)
@start
    hide(md4_of); hide(tea_of); hide(hash_buf);
    let ghost seed0 = seed@;
    proof { ax_size_blocks(); }
@loop 0
    invariant
        state@.len() == 4, seed@.len() == 4,
        forall|j: int| 0 <= j < i ==> #[trigger] state@[j].0 == seed@[j],
@loop 1
    invariant
        vx_it1.n == 32,
        absorb(*self, quad_of(state@), vx_it1.s@) == absorb(*self, start_state(seed0), name.0@),
        *self is HalfMd4, state@.len() == 4,
    ensures vx_it1.s@.len() == 0
    decreases vx_it1.s@.len()
@loop 2
    invariant
        vx_it2.n == 16,
        absorb(*self, quad_of(state@), vx_it2.s@) == absorb(*self, start_state(seed0), name.0@),
        *self is Tea, state@.len() == 4,
    ensures vx_it2.s@.len() == 0
    decreases vx_it2.s@.len()
@before ^let hash = hash & !1;
    proof { assert(!1u32 == 0xffff_fffeu32) by (bit_vector); }
@before ^let hash = match self {
    proof { assert(quad_of(state@) == start_state(seed0)); }
