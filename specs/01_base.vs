%% fn util::usize_from_u32
@props C06
@ret r
@spec
    ensures r == val
%% fn util::u64_from_hilo
@props C04 C06 C10
@ret r
@spec
    ensures r == hilo64(hi, lo)
@start
    assert((((hi as u64) << 32) | (lo as u64)) == (hi as u64) * 0x1_0000_0000 + (lo as u64)) by (bit_vector);
%% fn util::u32_from_hilo
@props C04 C06 C10
@ret r
@spec
    ensures r == hilo32(hi, lo)
@start
    assert((((hi as u32) << 16) | (lo as u32)) == (hi as u32) * 0x1_0000 + (lo as u32)) by (bit_vector);
%% fn util::read_u16le
@props C04 C06 C10
@ret r
@spec
    requires offset + 2 <= bytes@.len()
    ensures r == le16(bytes@, offset as int)
%% fn util::read_u32le
@props C04 C06 C10
@ret r
@spec
    requires offset + 4 <= bytes@.len()
    ensures r == le32(bytes@, offset as int)
%% fn util::read_u32be
@props C04 C06 C10
@ret r
@spec
    requires offset + 4 <= bytes@.len()
    ensures r == be32(bytes@, offset as int)

%% module block_size
impl BlockSize {
    pub open spec fn v(self) -> int { self.0@ as int }
}
%% fn block_size::BlockSize::from_superblock_value
@props C04
@ret r
@spec
    ensures
        r is Some == (log_block_size < 22),
        r matches Some(b) ==> b.v() == vstd::arithmetic::power::pow(2, (log_block_size + 10) as nat) && b.v() >= 1024,
@start
    proof {
        lemma_pow2_u32(log_block_size as nat + 10);
    }
%% module block_size
pub proof fn lemma_pow2_u32(e: nat)
    requires e >= 10
    ensures
        (vstd::arithmetic::power::pow(2, e) <= u32::MAX) == (e < 32),
        vstd::arithmetic::power::pow(2, e) >= 1024,
{
    use vstd::arithmetic::power::*;
    reveal(pow);
    assert(pow(2, 10) == 1024) by { reveal_with_fuel(pow, 11); }
    assert(pow(2, 31) == 0x8000_0000) by { reveal_with_fuel(pow, 32); }
    assert(pow(2, 32) == 0x1_0000_0000) by { reveal_with_fuel(pow, 33); }
    if e < 32 { lemma_pow_increases(2, e, 31); } else { lemma_pow_increases(2, 32, e); }
    lemma_pow_increases(2, 10, e);
}
%% fn block_size::BlockSize::to_u32
@props C04
@ret r
@spec
    ensures r == self.v(), r != 0
%% fn block_size::BlockSize::to_nz_u32
@props C04
@ret r
@spec
    ensures r@ == self.v()
%% fn block_size::BlockSize::to_u64
@props C04
@ret r
@spec
    ensures r == self.v(), r != 0
%% fn block_size::BlockSize::to_nz_u64
@props C04
@ret r
@spec
    ensures r@ == self.v()
%% fn block_size::BlockSize::to_usize
@props C04
@ret r
@spec
    ensures r == self.v(), r != 0
%% module block_size
impl vstd::std_specs::cmp::PartialEqSpecImpl<u32> for BlockSize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u32) -> bool { self.v() == *o }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<BlockSize> for u16 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockSize) -> bool { *self == o.v() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<BlockSize> for u32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockSize) -> bool { *self == o.v() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<BlockSize> for usize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockSize) -> bool { *self == o.v() }
}
pub open spec fn ord(a: int, b: int) -> Option<core::cmp::Ordering> {
    Some(if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<BlockSize> for u16 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlockSize) -> Option<core::cmp::Ordering> { ord(*self as int, o.v()) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<BlockSize> for u32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlockSize) -> Option<core::cmp::Ordering> { ord(*self as int, o.v()) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<BlockSize> for usize {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BlockSize) -> Option<core::cmp::Ordering> { ord(*self as int, o.v()) }
}

%% module checksum
impl Checksum {
    /// Register value the checksum started from, and the bytes fed so far.
    pub open spec fn seed(&self) -> u32 { rev32(self.digest.init()) }
    pub open spec fn data(&self) -> Seq<u8> { self.digest.data() }
    pub open spec fn wf(&self) -> bool { self.digest.alg() == 1 }
    pub open spec fn same(&self, o: &Checksum) -> bool { self.seed() == o.seed() && self.data() == o.data() && self.wf() == o.wf() }
}
%% fn checksum::Checksum::new
@props C05 C15
@ret r
@spec
    ensures r.wf(), r.seed() == 0xffff_ffffu32, r.data() == Seq::<u8>::empty()
@start
    proof { ax_rev32_ones(); }
%% fn checksum::Checksum::update
@props C05 C15
@spec
    ensures final(self).wf() == old(self).wf(), final(self).seed() == old(self).seed(), final(self).data() == old(self).data() + data@
%% fn checksum::Checksum::update_u32_be
@props C05 C15
@spec
    ensures final(self).wf() == old(self).wf(), final(self).seed() == old(self).seed(), final(self).data() == old(self).data() + be_bytes32(data)
%% fn checksum::Checksum::update_u16_le
@props C05 C15
@spec
    ensures final(self).wf() == old(self).wf(), final(self).seed() == old(self).seed(), final(self).data() == old(self).data() + le_bytes16(data)
%% fn checksum::Checksum::update_u32_le
@props C05 C15
@spec
    ensures final(self).wf() == old(self).wf(), final(self).seed() == old(self).seed(), final(self).data() == old(self).data() + le_bytes32(data)
%% fn checksum::Checksum::finalize
@props C05 C15
@ret r
@spec
    requires self.wf()
    ensures r == crc32c(self.seed(), self.data())
@start
    assert(forall|a: u32| #![trigger a ^ 0xffff_ffffu32] (a ^ 0xffff_ffffu32) ^ !0u32 == a) by (bit_vector);

%% removeimpl error::Ext4Error@PartialEq<CorruptKind>
%% removeimpl error::Ext4Error@PartialEq<IncompatibleKind>
%% module error
impl vstd::std_specs::convert::FromSpecImpl<CorruptKind> for Ext4Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: CorruptKind) -> Ext4Error { Ext4Error::Corrupt(Corrupt(c)) }
}
impl vstd::std_specs::convert::FromSpecImpl<IncompatibleKind> for Ext4Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: IncompatibleKind) -> Ext4Error { Ext4Error::Incompatible(Incompatible(c)) }
}
impl Ext4Error {
    /// `self` reports corruption.
    pub open spec fn is_corrupt(self) -> bool { self is Corrupt }
}
/// The error a failed inode/block/... check yields.
pub open spec fn corrupt(c: CorruptKind) -> Ext4Error { Ext4Error::Corrupt(Corrupt(c)) }
pub open spec fn incompat(c: IncompatibleKind) -> Ext4Error { Ext4Error::Incompatible(Incompatible(c)) }
%% fn error::crate::vx::io::Error@From<Ext4Error>::from
@props C16
@ret r
@spec
    ensures r.kind == io_kind(e)
%% module error
impl vstd::std_specs::convert::FromSpecImpl<Ext4Error> for crate::vx::io::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Ext4Error) -> crate::vx::io::Error { crate::vx::io::Error { kind: io_kind(e) } }
}
/// C17: the documented mapping to `std::io::ErrorKind`.
pub open spec fn io_kind(e: Ext4Error) -> crate::vx::io::ErrorKind {
    match e {
        Ext4Error::IsASpecialFile | Ext4Error::MalformedPath | Ext4Error::NotASymlink | Ext4Error::NotAbsolute => crate::vx::io::ErrorKind::InvalidInput,
        Ext4Error::Corrupt(_) | Ext4Error::Incompatible(_) | Ext4Error::PathTooLong | Ext4Error::TooManySymlinks | Ext4Error::Io(_) => crate::vx::io::ErrorKind::Other,
        Ext4Error::FileTooLarge => crate::vx::io::ErrorKind::FileTooLarge,
        Ext4Error::IsADirectory => crate::vx::io::ErrorKind::IsADirectory,
        Ext4Error::NotADirectory => crate::vx::io::ErrorKind::NotADirectory,
        Ext4Error::NotFound => crate::vx::io::ErrorKind::NotFound,
        Ext4Error::NotUtf8 => crate::vx::io::ErrorKind::InvalidData,
        Ext4Error::Encrypted => crate::vx::io::ErrorKind::PermissionDenied,
    }
}

%% fn uuid::Uuid::new
@props C18 C04
@ret r
@spec
    ensures r.0 == bytes
%% fn uuid::Uuid::as_bytes
@props C18 C04
@ret r
@spec
    ensures *r == self.0
%% fn label::Label::new
@props C18 C04
@ret r
@spec
    ensures r.0 == bytes
%% fn label::Label::as_bytes
@props C18 C04
@ret r
@spec
    ensures *r == self.0
%% module label
/// Length of the part before the first zero byte.
pub open spec fn nul_len(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 || s[0] == 0 { 0 } else { 1 + nul_len(s.skip(1)) }
}
pub proof fn lemma_nul_len(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != 0, n < s.len() ==> s[n] == 0
    ensures nul_len(s) == n
    decreases s.len()
{
    if n > 0 {
        assert(s[0] != 0);
        assert forall|i: int| 0 <= i < n - 1 implies s.skip(1)[i] != 0 by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_nul_len(s.skip(1), n - 1);
    }
}
%% fn label::Label::as_bytes_up_to_first_null
@props C18 C04
@ret r
@spec
    ensures r@ == self.0@.take(nul_len(self.0@))
@closure 0 |c: &u8| -> (b: bool) ensures b == (*c == 0)
@before ^&self.0[..index]
    proof { lemma_nul_len(self.0@, index as int); assert(self.0@.take(index as int) =~= self.0@.subrange(0, index as int)); }
@before ^&self.0
    proof { lemma_nul_len(self.0@, 16); assert(self.0@.take(16) =~= self.0@); }
%% fn label::Label::to_str
@props C18 C04
@ret r
@spec
    ensures r is Ok == is_utf8(self.0@.take(nul_len(self.0@))),
        r matches Ok(x) ==> utf8_of(x) == self.0@.take(nul_len(self.0@)),
%% inimpl reader::Vec<u8>@Ext4Read
    open spec fn content(&self) -> Seq<u8> { self@ }
%% fn reader::read_from_bytes
@props C16
@ret r
@spec
    ensures final(dst)@.len() == old(dst)@.len(),
        r is Some == (start_byte + old(dst)@.len() <= src@.len()),
        r is Some ==> final(dst)@ == src@.subrange(start_byte as int, start_byte + old(dst)@.len()),
