%% noderive block_cache::CacheEntry => Clone
%% module block_cache
use crate::vx::disk;
impl crate::vx::VxCell for BlockCache {
    type Tag = (BlockSize, u64);
    open spec fn vx_tag(&self) -> (BlockSize, u64) { (self.block_size, self.num_fs_blocks) }
    open spec fn vx_inv(&self) -> bool { self.wf() }
}
impl Clone for CacheEntry {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.block_index == self.block_index, r.data@ == self.data@ { unimplemented!() }
}
/// Contents of block `i` of the storage.
pub open spec fn raw_block(bs: int, i: int) -> Seq<u8> { disk().subrange(i * bs, i * bs + bs) }
pub open spec fn raw_block_ok(bs: int, i: int) -> bool { i * bs + bs <= disk().len() }
impl CacheEntry {
    /// Either unused, or a copy of the block of that index.
    pub open spec fn ok(&self, bs: int, n: u64) -> bool {
        &&& self.data@.len() == bs
        &&& (self.block_index == u64::MAX || (self.block_index < n && raw_block_ok(bs, self.block_index as int)
            && self.data@ == raw_block(bs, self.block_index as int)))
    }
}
impl BlockCache {
    pub open spec fn sized(&self) -> bool {
        &&& crate::superblock::is_block_size(self.block_size.v())
        &&& 1 <= self.max_blocks_per_read <= 32
        &&& self.max_blocks_per_read <= self.entries@.len()
        &&& self.read_buf@.len() == self.max_blocks_per_read * self.block_size.v()
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.sized()
        &&& forall|i: int| 0 <= i < self.entries@.len() ==> (#[trigger] self.entries@[i]).ok(self.block_size.v(), self.num_fs_blocks)
    }
}
/// `f` fills its buffer with the storage content from `start`.
#[verifier::prophetic]
pub open spec fn reads_at<F: FnOnce(&mut [u8]) -> Result<(), Ext4Error>>(f: F, start: int) -> bool {
    &&& forall|b: &mut [u8]| #[trigger] f.requires((b,))
    &&& forall|b: &mut [u8], r: Result<(), Ext4Error>| #[trigger] f.ensures((b,), r) ==> final(b)@.len() == b@.len()
        && (r is Ok ==> start + b@.len() <= disk().len() && final(b)@ == disk().subrange(start, start + b@.len()))
}
%% fn block_cache::BlockCache::new
@props C01 C03
@ret r
@spec
    requires crate::superblock::is_block_size(block_size.v())
    ensures r matches Ok(c) && c.wf() && c.block_size == block_size && c.num_fs_blocks == num_fs_blocks
%% fn block_cache::BlockCache::with_opts
@props C01 C03
@ret r
@spec
    requires opts.ok()
    ensures r matches Ok(c) && c.wf() && c.block_size == opts.block_size && c.num_fs_blocks == num_fs_blocks
@replace VecDeque::from(entries) ==> crate::vx::vx_vecdeque_from(entries)
@before ^Ok(Self
    proof {
        assert(forall|i: int| 0 <= i < entries@.len() ==> (#[trigger] entries@[i]).block_index == u64::MAX && entries@[i].data@.len() == opts.block_size.v());
    }
%% module block_cache
impl CacheOpts {
    pub open spec fn ok(&self) -> bool {
        &&& crate::superblock::is_block_size(self.block_size.v())
        &&& 1 <= self.max_blocks_per_read <= 32
        &&& self.max_blocks_per_read <= self.num_entries <= 256
    }
}
%% fn block_cache::CacheOpts::new
@props C01 C03
@ret r
@spec
    requires crate::superblock::is_block_size(block_size.v())
    ensures r.ok(), r.block_size == block_size
@start
    proof {
        let b = block_size.v();
        assert((8 * 4096) as int / b <= 32) by (nonlinear_arith) requires b >= 1024;
        assert((8 * 4096) as int / b >= 0) by (nonlinear_arith) requires b >= 1024;
    }
%% fn block_cache::CacheOpts::read_buf_size_in_bytes
@props C01 C03
@ret r
@spec
    requires self.ok()
    ensures r == self.max_blocks_per_read * self.block_size.v()
@start
    proof {
        assert(self.max_blocks_per_read * self.block_size.v() <= 32 * 65536) by (nonlinear_arith)
            requires self.max_blocks_per_read <= 32, 0 <= self.block_size.v() <= 65536;
    }
%% fn block_cache::BlockCache::num_blocks_to_read
@props C01 C03
@ret r
@spec
    requires block_index < self.num_fs_blocks, self.sized()
    ensures 1 <= r <= self.max_blocks_per_read, block_index + r <= self.num_fs_blocks
%% fn block_cache::BlockCache::get_or_insert_blocks
@props C01 C03 C16
@ret r
@spec
    requires old(self).wf(), block_index < old(self).num_fs_blocks,
        reads_at(f, block_index * old(self).block_size.v()),
    ensures
        final(self).wf(), final(self).vx_tag() == old(self).vx_tag(),
        r matches Ok(s) ==> raw_block_ok(old(self).block_size.v(), block_index as int)
            && s@ == raw_block(old(self).block_size.v(), block_index as int),
        r matches Err(e) ==> exists|b: &mut [u8]| #[trigger] f.ensures((b,), Err::<(), Ext4Error>(e)),
@replace &mut self.read_buf[..num_bytes] ==> &mut crate::vx::vx_box_slice_mut(&mut self.read_buf)[..num_bytes]
@closure 0 |entry: &CacheEntry| -> (b: bool) ensures b == (entry.block_index == block_index)
@loop 0
    invariant
        self.wf(), self.vx_tag() == old(self).vx_tag(), self.max_blocks_per_read == old(self).max_blocks_per_read,
        block_index < self.num_fs_blocks,
        bi == block_index,
        1 <= num_blocks <= self.max_blocks_per_read, block_index + num_blocks <= self.num_fs_blocks,
        vx_it0.lo == 0, vx_it0.hi <= num_blocks,
        block_index * self.block_size.v() + num_blocks * self.block_size.v() <= disk().len(),
        forall|j: int| 0 <= j < num_blocks ==> self.read_buf@.subrange(j * self.block_size.v(), j * self.block_size.v() + self.block_size.v())
            == #[trigger] raw_block(self.block_size.v(), block_index + j),
        vx_it0.hi < num_blocks ==> self.entries@[0].block_index == block_index + vx_it0.hi,
    ensures vx_it0.hi == 0
    decreases vx_it0.hi
@start
    let ghost bi = block_index;
@before self.insert_block(block_index, i);
    proof {
        let b = self.block_size.v();
        assert((bi + i) * b + b <= bi * b + num_blocks * b) by (nonlinear_arith) requires i + 1 <= num_blocks, b >= 0;
    }
%% fn block_cache::BlockCache::insert_block
@props C01 C03
@spec
    requires old(self).wf(), block_within_read_buf < old(self).max_blocks_per_read,
        block_index < old(self).num_fs_blocks,
        raw_block_ok(old(self).block_size.v(), block_index as int),
        old(self).read_buf@.subrange(block_within_read_buf * old(self).block_size.v(), block_within_read_buf * old(self).block_size.v() + old(self).block_size.v())
            == raw_block(old(self).block_size.v(), block_index as int),
    ensures
        final(self).wf(), final(self).vx_tag() == old(self).vx_tag(), final(self).max_blocks_per_read == old(self).max_blocks_per_read,
        final(self).read_buf@ == old(self).read_buf@,
        final(self).entries@[0].block_index == block_index,
@replace entry.data.copy_from_slice(src) ==> crate::vx::vx_box_copy_from_slice(&mut entry.data, src)
@start
    proof {
        let b = self.block_size.v();
        assert((block_within_read_buf + 1) * b <= self.max_blocks_per_read * b) by (nonlinear_arith)
            requires block_within_read_buf + 1 <= self.max_blocks_per_read, b > 0;
        assert((block_within_read_buf + 1) * b == block_within_read_buf * b + b) by (nonlinear_arith);
        assert(self.max_blocks_per_read * b <= 32 * 65536) by (nonlinear_arith)
            requires self.max_blocks_per_read <= 32, 0 <= b <= 65536;
    }

%% module lib
impl crate::vx::VxCell for Box<dyn Ext4Read> {
    type Tag = ();
    open spec fn vx_tag(&self) -> () { () }
    open spec fn vx_inv(&self) -> bool { self.content() == crate::vx::disk() }
}
