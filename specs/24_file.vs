%% module file
use crate::iters::file_blocks::{inode_at, inode_end, layout_ok};
/// Byte `i` of the file: its block's content, or zero in a hole.
pub open spec fn file_byte(fs: &Ext4, inode: &Inode, i: int) -> u8 {
    let b = inode_at(fs, inode, i / fs.bs());
    if b == 0 { 0 } else { fs.block(b)[i % fs.bs()] }
}
/// Why reading the file at byte `i` may fail.
pub open spec fn file_err(fs: &Ext4, inode: &Inode, i: int, e: Ext4Error) -> bool {
    ||| e is Io
    ||| e is Corrupt && !layout_ok(fs, inode)
    ||| e is Corrupt && inode_at(fs, inode, i / fs.bs()) != 0 && !fs.readable(inode_at(fs, inode, i / fs.bs()), i % fs.bs(), 1)
}
pub proof fn lemma_div_lt(p: int, size: int, bs: int)
    requires 0 <= p < size, bs > 0
    ensures p / bs < crate::inode::div_ceil(size, bs)
{
    assert(p / bs < (size + bs - 1) / bs) by (nonlinear_arith) requires 0 <= p, p + 1 <= size, bs > 0;
}
pub proof fn lemma_same_block(p: int, k: int, bs: int)
    requires 0 <= p, 0 <= k, bs > 0, p % bs + k < bs
    ensures (p + k) / bs == p / bs, (p + k) % bs == p % bs + k
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, bs);
    assert(bs * (p / bs) == (p / bs) * bs) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + k, bs, p / bs, p % bs + k);
}
pub proof fn lemma_next_block(p: int, k: int, bs: int)
    requires 0 <= p, 0 <= k, bs > 0, p % bs + k == bs
    ensures (p + k) / bs == p / bs + 1, (p + k) % bs == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, bs);
    assert(bs * (p / bs) + bs == (p / bs + 1) * bs) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + k, bs, p / bs + 1, 0);
}
impl File {
    pub open spec fn size(&self) -> int { self.inode.metadata.size_in_bytes as int }
    pub open spec fn blk(&self) -> int { self.position as int / self.fs.bs() }
    pub open spec fn wf(&self) -> bool {
        &&& self.fs.wf()
        &&& self.inode.wf(&self.fs)
        &&& self.file_blocks.over(&self.fs, &self.inode)
        &&& match self.block_index {
            Some(b) => self.blk() < inode_end(&self.fs, &self.inode) && b == inode_at(&self.fs, &self.inode, self.blk())
                && (!self.file_blocks.done() ==> self.file_blocks.pos() == self.blk() + 1),
            None => !self.file_blocks.done() ==> self.file_blocks.pos() == self.blk(),
        }
    }
    /// Same file; an earlier call has not failed.
    pub open spec fn same(&self, o: &File) -> bool { self.fs == o.fs && self.inode == o.inode }
}
%% fn file::File::open_inode
@props C01 C09 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs)
    ensures
        r matches Ok(f) ==> f.wf() && f.fs == *fs && f.inode == inode && f.position == 0 && f.block_index is None && !f.file_blocks.done(),
        r matches Err(e) ==> e is Corrupt && !layout_ok(fs, &inode),
@start
    proof { assert(0int / fs.bs() == 0) by (nonlinear_arith) requires fs.bs() > 0; }
%% fn file::File::position
@props C09
@ret r
@spec
    ensures r == self.position
%% fn file::File::metadata
@props C09 C18
@ret r
@spec
    ensures *r == self.inode.metadata
%% fn file::File::read_bytes
@props C01 C07 C08 C09 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) ==> n <= old(buf)@.len() && final(self).position == old(self).position + n
            && (n == 0) == (old(buf)@.len() == 0 || old(self).position >= old(self).size())
            && (n > 0 ==> old(self).position + n <= old(self).size())
            && (forall|k: int| 0 <= k < n ==> #[trigger] final(buf)@[k] == file_byte(&old(self).fs, &old(self).inode, old(self).position + k))
            && (forall|k: int| n <= k < old(buf)@.len() ==> #[trigger] final(buf)@[k] == old(buf)@[k])
            && (!old(self).file_blocks.done() ==> !final(self).file_blocks.done()),
        r matches Err(e) ==> final(self).position == old(self).position && old(self).position < old(self).size() && old(buf)@.len() > 0
            && (e is Io || e is Corrupt) && (file_err(&old(self).fs, &old(self).inode, old(self).position as int, e) || old(self).file_blocks.done()),
@attr #[verifier::rlimit(60)]
@start
    let ghost b0 = buf@;
    let ghost p0 = self.position as int;
    let ghost bs = self.fs.bs();
    let ghost fb0 = self.file_blocks;
    let ghost fs0 = self.fs;
    let ghost ino = self.inode;
@before let block_index = if
    let ghost b1 = buf@;
    proof {
        lemma_div_lt(p0, self.size(), bs);
        assert(0 < b1.len() <= b0.len() && p0 + b1.len() <= self.size());
    }
@before let offset_within_block: u32
    proof {
        assert(block_index == inode_at(&fs0, &ino, p0 / bs));
        assert(0 <= p0 % bs < bs) by (nonlinear_arith) requires bs > 0;
    }
@before let buf_len_u32: u32
    let ghost b2 = buf@;
    proof {
        assert(0 < b2.len() <= b1.len() && b2.len() + offset_within_block <= bs);
    }
@before let new_offset_within_block: u32
    proof {
        assert forall|k: int| 0 <= k < buf@.len() implies #[trigger] buf@[k] == file_byte(&fs0, &ino, p0 + k) by { lemma_same_block(p0, k, bs); }
        if p0 % bs + buf@.len() == bs { lemma_next_block(p0, buf@.len() as int, bs); } else { lemma_same_block(p0, buf@.len() as int, bs); }
    }
%% fn file::File::seek_to
@props C01 C02 C09 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        r is Ok ==> final(self).position == position && final(self).block_index is None
            && (final(self).file_blocks.done() ==> position as int / old(self).fs.bs() >= inode_end(&old(self).fs, &old(self).inode)),
        r matches Err(e) ==> *final(self) == *old(self) && (e is Io || (e is Corrupt && !layout_ok(&old(self).fs, &old(self).inode))),
@for 0 crate::vx::vx_range_of($E)
@loop 0
    invariant
        *self == *old(self), self.wf(),
        file_blocks.over(&self.fs, &self.inode),
        vx_it0.hi == num_blocks, 0 <= vx_it0.lo <= num_blocks,
        !file_blocks.done() ==> file_blocks.pos() == vx_it0.lo,
        file_blocks.done() ==> num_blocks >= inode_end(&self.fs, &self.inode),
    ensures !file_blocks.done() ==> file_blocks.pos() == num_blocks
    decreases num_blocks - vx_it0.lo
@loopstart 0
    let ghost fb = file_blocks;
%% fn file::File@Read::read
@props C09 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        r matches Ok(n) ==> n <= old(buf)@.len() && final(self).position == old(self).position + n
            && (n == 0) == (old(buf)@.len() == 0 || old(self).position >= old(self).size())
            && (forall|k: int| 0 <= k < n ==> #[trigger] final(buf)@[k] == file_byte(&old(self).fs, &old(self).inode, old(self).position + k)),
        r is Err ==> final(self).position == old(self).position,
%% fn file::File@Seek::seek
@props C09 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        r matches Ok(p) ==> final(self).position == p && (match pos {
            SeekFrom::Start(o) => p == o,
            SeekFrom::End(o) => p == old(self).size() + o,
            SeekFrom::Current(o) => p == old(self).position + o,
        }),
        r is Err ==> *final(self) == *old(self),
@closure 0 |pos: i64| -> (q: Option<i64>) ensures q == (if i64::MIN <= pos + offset <= i64::MAX { Some((pos + offset) as i64) } else { None })
@closure 1 |pos: i64| -> (q: Option<u64>) ensures q == (if pos >= 0 { Some(pos as u64) } else { None })
@closure 2 |pos: i64| -> (q: Option<i64>) ensures q == (if i64::MIN <= pos + offset <= i64::MAX { Some((pos + offset) as i64) } else { None })
@closure 3 |pos: i64| -> (q: Option<u64>) ensures q == (if pos >= 0 { Some(pos as u64) } else { None })
@start
    let ghost from = pos;
@before self.seek_to(pos)?;
    proof {
        match from {
            SeekFrom::Start(o) => { assert(pos == o); }
            SeekFrom::End(o) => { assert(self.size() <= i64::MAX); assert(i64::MIN <= self.size() + o <= i64::MAX); assert(pos == self.size() + o); }
            SeekFrom::Current(o) => { assert(pos == self.position + o); }
        }
    }
