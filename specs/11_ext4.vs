%% module lib
use crate::vx::disk;
impl Ext4 {
    pub open spec fn sb(&self) -> Superblock { self.0.superblock }
    pub open spec fn bs(&self) -> int { self.0.superblock.block_size.v() }
    pub open spec fn jmap(&self) -> Map<u64, u64> { self.0.journal.block_map@ }
    pub open spec fn bgds(&self) -> Seq<BlockGroupDescriptor> { self.0.block_group_descriptors@ }
    /// Invariant of a loaded filesystem.
    pub open spec fn wf(&self) -> bool {
        &&& self.sb().wf()
        &&& self.0.block_cache.tag() == (self.sb().block_size, self.sb().blocks_count)
        &&& block_group::bgds_ok(&self.sb(), disk(), self.bgds())
    }
    /// Where block `i` of the filesystem is stored: its latest journaled copy, or its own place.
    pub open spec fn phys(&self, i: u64) -> u64 { if self.jmap().contains_key(i) { self.jmap()[i] } else { i } }
    /// Contents of block `i` of the filesystem.
    pub open spec fn block(&self, i: u64) -> Seq<u8> { block_cache::raw_block(self.bs(), self.phys(i) as int) }
    /// A read of `len` bytes at `off` in block `i` is allowed.
    pub open spec fn block_in_range(&self, i: u64, off: int, len: int) -> bool {
        &&& !(self.phys(i) == 0 && off < 1024)
        &&& self.phys(i) < self.sb().blocks_count
        &&& off < self.bs()
        &&& off + len <= self.bs()
    }
    pub open spec fn readable(&self, i: u64, off: int, len: int) -> bool {
        &&& self.block_in_range(i, off, len)
        &&& block_cache::raw_block_ok(self.bs(), self.phys(i) as int)
    }
    /// The errors a block read may give.
    pub open spec fn block_read_err(&self, i: u64, off: u32, len: int, e: Ext4Error) -> bool {
        ||| e is Io && self.block_in_range(i, off as int, len)
        ||| e == error::corrupt(CorruptKind::BlockRead { block_index: self.phys(i), original_block_index: i, offset_within_block: off, read_len: len as usize })
            && !self.readable(i, off as int, len)
    }
}
%% fn journal::Journal::map_block_index
@props C15
@ret r
@spec
    ensures r == (if self.block_map@.contains_key(block_index) { self.block_map@[block_index] } else { block_index })
%% fn journal::Journal::empty
@props C15
@ret r
@spec
    ensures r.block_map@ == Map::<u64, u64>::empty()
%% fn lib::Ext4::has_metadata_checksums
@props C05
@ret r
@spec
    ensures r == self.sb().has_csum()
@start
    proof { superblock::lemma_feature_consts(); }
%% fn lib::Ext4::label
@props C18
@ret r
@spec
    ensures *r == self.sb().label
%% fn lib::Ext4::uuid
@props C18
@ret r
@spec
    ensures r == self.sb().uuid
%% fn lib::Ext4::read_from_block
@props C01 C03 C15 C16 C17
@ret r
@spec
    requires self.wf()
    ensures
        final(dst)@.len() == old(dst)@.len(),
        r is Ok ==> self.readable(original_block_index, offset_within_block as int, old(dst)@.len() as int)
            && final(dst)@ == self.block(original_block_index).subrange(offset_within_block as int, offset_within_block + old(dst)@.len()),
        r matches Err(e) ==> self.block_read_err(original_block_index, offset_within_block, old(dst)@.len() as int, e),
@start
    proof { crate::vx::ax_disk_len(); }
@closure 0 || -> (e: Ext4Error) ensures e == error::corrupt(CorruptKind::BlockRead { block_index, original_block_index, offset_within_block, read_len: dst@.len() as usize })
@closure 1 |buf: &mut [u8]| -> (q: Result<(), Ext4Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            q is Ok ==> block_index * block_size.v() + old(buf)@.len() <= disk().len()
                && final(buf)@ == disk().subrange(block_index * block_size.v(), block_index * block_size.v() + old(buf)@.len()),
            q matches Err(e) ==> e is Io || (e == error::corrupt(CorruptKind::BlockRead { block_index, original_block_index, offset_within_block, read_len: dst@.len() as usize }) && block_index * block_size.v() > u64::MAX),
