%% module iters::file_blocks::extents_blocks
use crate::iters::extents::{Walk, nothing, broken};
/// The block of position `p` of a file with these extents; zero is a hole.
pub open spec fn ext_at(exts: Seq<Extent>, p: int) -> u64 decreases exts.len() {
    if exts.len() == 0 { 0 }
    else {
        let e = exts[0];
        if p < e.block_within_file { 0 }
        else if p < e.block_within_file + e.num_blocks { (e.start_block + (p - e.block_within_file)) as u64 }
        else { ext_at(exts.skip(1), p) }
    }
}
/// Sorted by position, no overlap, block numbers of 64 bits, from position `lo` on.
pub open spec fn sorted(exts: Seq<Extent>, lo: int) -> bool decreases exts.len() {
    exts.len() > 0 ==> exts[0].block_within_file >= lo && exts[0].start_block + exts[0].num_blocks <= u64::MAX
        && sorted(exts.skip(1), exts[0].block_within_file + exts[0].num_blocks)
}
pub open spec fn tree_ok(w: Walk) -> bool { w.ok && sorted(w.exts, 0) }
pub proof fn lemma_sorted_lo(exts: Seq<Extent>, a: int, b: int)
    requires sorted(exts, a), b <= a
    ensures sorted(exts, b)
{}
impl ExtentsBlocks {
    pub open spec fn pos(&self) -> int { self.block_within_file as int }
    pub open spec fn wf(&self) -> bool {
        !self.is_done ==> {
            &&& self.extents.ext4.wf()
            &&& self.pos() <= self.num_blocks_total
            &&& match self.extent {
                Some(e) => {
                    &&& self.block_within_extent <= e.num_blocks
                    &&& self.pos() + self.blocks_remaining_in_hole == e.block_within_file + self.block_within_extent
                    &&& self.blocks_remaining_in_hole > 0 ==> self.block_within_extent == 0
                    &&& !self.extents.is_done && self.extents.wf()
                }
                None => {
                    if self.blocks_remaining_in_hole > 0 {
                        self.pos() + self.blocks_remaining_in_hole == self.num_blocks_total && self.extents.is_done
                    } else {
                        if self.pos() >= self.num_blocks_total { true }
                        else { !self.extents.is_done && self.extents.wf() }
                    }
                }
            }
        }
    }
    /// What is still to come.
    pub open spec fn rest(&self) -> Walk {
        match self.extent {
            Some(e) => Walk { exts: seq![e] + self.extents.rest().exts, ok: self.extents.rest().ok },
            None => if self.extents.is_done { nothing() } else { self.extents.rest() },
        }
    }
    pub open spec fn at(&self, p: int) -> u64 { ext_at(self.rest().exts, p) }
    /// The part of the tree still to come is well formed.
    pub open spec fn ok(&self) -> bool {
        &&& self.rest().ok
        &&& match self.extent {
            Some(e) => e.start_block + e.num_blocks <= u64::MAX && sorted(self.extents.rest().exts, e.block_within_file + e.num_blocks),
            None => sorted(self.rest().exts, self.pos()),
        }
    }
    pub open spec fn left(&self) -> int {
        if self.is_done { 0 } else {
            1 + 4 * self.rest().exts.len() + (if self.extents.is_done { 0int } else { 2 }) + (if self.blocks_remaining_in_hole > 0 { 0int } else { 1 })
                - (if self.extent is Some { 1int } else { 0 })
        }
    }
    pub open spec fn same(&self, o: &ExtentsBlocks) -> bool {
        self.extents.same(&o.extents) && self.num_blocks_total == o.num_blocks_total && self.inode == o.inode
    }
}
%% fn iters::file_blocks::extents_blocks::ExtentsBlocks::new
@props C01 C07
@ret r
@spec
    requires fs.wf(), inode.checksum_base.wf()
    ensures
        r matches Ok(x) ==> x.wf() && !x.is_done && x.pos() == 0 && x.num_blocks_total == inode.file_size_in_blocks && x.extents.ext4 == fs
            && crate::iters::extents::node_ok(inode.inline_data@) && x.rest() == crate::iters::extents::tree(&fs, inode.checksum_base, inode.inline_data@)
            && x.extent is None,
        r matches Err(e) ==> e is Corrupt && !crate::iters::extents::node_ok(inode.inline_data@),
%% fn iters::file_blocks::extents_blocks::ExtentsBlocks::next_impl
@props C01 C02 C07 C17
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        final(self).same(old(self)),
        r is Ok ==> final(self).wf(),
        r is Ok && old(self).ok() && !final(self).is_done ==> final(self).ok(),
        r is Ok && !final(self).is_done ==> forall|p: int| p >= final(self).pos() ==> #[trigger] final(self).at(p) == old(self).at(p),
        r matches Ok(Some(b)) ==> old(self).pos() < old(self).num_blocks_total && !final(self).is_done && final(self).pos() == old(self).pos() + 1
            && b == old(self).at(old(self).pos()),
        r is Ok && r->Ok_0 is None ==> final(self).pos() == old(self).pos() && 0 <= final(self).left() < old(self).left()
            && (final(self).is_done ==> old(self).pos() >= old(self).num_blocks_total),
        r matches Err(e) ==> old(self).pos() < old(self).num_blocks_total && (e is Io || (e is Corrupt && !old(self).ok())),
@start
    proof {
        let w = self.extents.rest().exts;
        if w.len() > 0 { assert(seq![w[0]] + w.skip(1) =~= w); }
        match &self.extent { Some(e) => { assert((seq![*e] + w).skip(1) =~= w); } None => {} }
    }
%% fn iters::file_blocks::extents_blocks::ExtentsBlocks@Iterator::next
@props C01 C02 C07 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).same(old(self)), final(self).wf(),
        old(self).is_done ==> r is None,
        old(self).ok() && !final(self).is_done ==> final(self).ok(),
        !final(self).is_done ==> forall|p: int| p >= final(self).pos() ==> #[trigger] final(self).at(p) == old(self).at(p),
        r is None ==> final(self).is_done && (old(self).is_done || old(self).pos() >= old(self).num_blocks_total),
        r matches Some(Ok(b)) ==> old(self).pos() < old(self).num_blocks_total && !final(self).is_done && final(self).pos() == old(self).pos() + 1
            && b == old(self).at(old(self).pos()),
        r matches Some(Err(e)) ==> final(self).is_done && old(self).pos() < old(self).num_blocks_total && (e is Io || (e is Corrupt && !old(self).ok())),
@loop 0
    invariant
        self.same(old(self)), self.wf(),
        old(self).is_done ==> self.is_done,
        self.pos() == old(self).pos(),
        old(self).ok() && !self.is_done ==> self.ok(),
        !self.is_done ==> forall|p: int| p >= self.pos() ==> #[trigger] self.at(p) == old(self).at(p),
        !old(self).is_done && self.is_done ==> old(self).pos() >= old(self).num_blocks_total,
    decreases self.left()
