%% module iters::file_blocks::block_map
/// Pointers per indirect block.
pub open spec fn ppb(fs: &Ext4) -> int { fs.bs() / 4 }
/// Pointer `i` of indirect block `b`; a zero `b` is a hole.
pub open spec fn ind1(fs: &Ext4, b: u32, i: int) -> u32 { if b == 0 { 0 } else { le32(fs.block(b as u64), 4 * i) } }
pub open spec fn ind2(fs: &Ext4, b: u32, i: int) -> u32 { ind1(fs, ind1(fs, b, i / ppb(fs)), i % ppb(fs)) }
pub open spec fn ind3(fs: &Ext4, b: u32, i: int) -> u32 {
    ind2(fs, ind1(fs, b, i / (ppb(fs) * ppb(fs))), i % (ppb(fs) * ppb(fs)))
}
/// Number of blocks a block map can address.
pub open spec fn map_cap(fs: &Ext4) -> int { 12 + ppb(fs) + ppb(fs) * ppb(fs) + ppb(fs) * ppb(fs) * ppb(fs) }
/// C08: block `p` of a file with the block map `root`.
pub open spec fn map_at(fs: &Ext4, root: Seq<u32>, p: int) -> u32 {
    let q = ppb(fs);
    if p < 12 { root[p] }
    else if p < 12 + q { ind1(fs, root[12], p - 12) }
    else if p < 12 + q + q * q { ind2(fs, root[13], p - 12 - q) }
    else { ind3(fs, root[14], p - 12 - q - q * q) }
}
/// Reading indirect block `x` failed with `e`.
pub open spec fn ind_err(fs: &Ext4, x: u32, e: Ext4Error) -> bool { x != 0 && fs.block_read_err(x as u64, 0, fs.bs(), e) }
/// Reading one of the indirect blocks on the way to pointer `i` failed with `e`.
pub open spec fn ind_err2(fs: &Ext4, b: u32, i: int, e: Ext4Error) -> bool { ind_err(fs, b, e) || ind_err(fs, ind1(fs, b, i / ppb(fs)), e) }
pub open spec fn ind_err3(fs: &Ext4, b: u32, i: int, e: Ext4Error) -> bool {
    ind_err(fs, b, e) || ind_err2(fs, ind1(fs, b, i / (ppb(fs) * ppb(fs))), i % (ppb(fs) * ppb(fs)), e)
}
pub open spec fn map_err(fs: &Ext4, root: Seq<u32>, p: int, e: Ext4Error) -> bool {
    let q = ppb(fs);
    if p < 12 { false }
    else if p < 12 + q { ind_err(fs, root[12], e) }
    else if p < 12 + q + q * q { ind_err2(fs, root[13], p - 12 - q, e) }
    else { ind_err3(fs, root[14], p - 12 - q - q * q, e) }
}
pub proof fn lemma_ppb(fs: &Ext4)
    requires fs.wf()
    ensures 256 <= ppb(fs) <= 16384, 4 * ppb(fs) == fs.bs()
{}
pub proof fn lemma_dm(a: int, q: int, k: int, j: int)
    requires q > 0, a == k * q + j, 0 <= j < q
    ensures a / q == k, a % q == j
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, q, k, j);
}
impl IndirectBlockIter {
    pub open spec fn wf(&self) -> bool {
        self.block@.len() % 4 == 0 && 1024 <= self.block@.len() <= 65536 && self.index_within_block % 4 == 0 && self.index_within_block <= self.block@.len()
    }
    /// Iterates over indirect block `b`.
    pub open spec fn over(&self, fs: &Ext4, b: u32) -> bool {
        &&& self.wf()
        &&& self.block@.len() == fs.bs()
        &&& forall|i: int| 0 <= i < ppb(fs) ==> le32(self.block@, #[trigger] (4 * i)) == ind1(fs, b, i)
    }
    pub open spec fn pos(&self) -> int { self.index_within_block as int / 4 }
}
%% fn iters::file_blocks::block_map::IndirectBlockIter::new
@props C01 C08 C16 C17
@ret r
@spec
    requires fs.wf()
    ensures
        r matches Ok(i) ==> i.over(&fs, block_index) && i.index_within_block == 0,
        r matches Err(e) ==> ind_err(&fs, block_index, e),
@before ^Ok(Self
    proof { if block_index != 0 { assert(block@ =~= fs.block(block_index as u64)); } }
%% fn iters::file_blocks::block_map::IndirectBlockIter@Iterator::next
@props C01 C02 C08
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).block@ == old(self).block@,
        r is Some == (old(self).index_within_block < old(self).block@.len()),
        r matches Some(v) ==> v == le32(old(self).block@, old(self).index_within_block as int) && final(self).index_within_block == old(self).index_within_block + 4,
        r is None ==> final(self).index_within_block == old(self).index_within_block,
%% module iters::file_blocks::block_map
impl DoubleIndirectBlockIter {
    pub open spec fn wf(&self) -> bool {
        &&& self.fs.wf()
        &&& self.indirect_0.wf()
        &&& self.indirect_0.block@.len() == self.fs.bs()
        &&& (self.indirect_1 matches Some(i) ==> i.wf())
    }
    pub open spec fn over(&self, b: u32) -> bool {
        &&& self.wf()
        &&& self.indirect_0.over(&self.fs, b)
        &&& (self.indirect_1 matches Some(i) ==> self.indirect_0.pos() >= 1 && i.over(&self.fs, ind1(&self.fs, b, self.indirect_0.pos() - 1)))
    }
    pub open spec fn pos(&self) -> int {
        match self.indirect_1 {
            Some(i) => (self.indirect_0.pos() - 1) * ppb(&self.fs) + i.pos(),
            None => self.indirect_0.pos() * ppb(&self.fs),
        }
    }
    pub open spec fn left(&self) -> int {
        if self.is_done { 0 } else {
            2 + 2 * (ppb(&self.fs) - self.indirect_0.pos()) + (if self.indirect_1 is Some { 1int } else { 0 })
        }
    }
}
impl TripleIndirectBlockIter {
    pub open spec fn wf(&self) -> bool {
        &&& self.fs.wf()
        &&& self.indirect_0.wf()
        &&& self.indirect_0.block@.len() == self.fs.bs()
        &&& (self.indirect_1 matches Some(i) ==> i.wf() && i.fs == self.fs)
    }
    pub open spec fn over(&self, b: u32) -> bool {
        &&& self.wf()
        &&& self.indirect_0.over(&self.fs, b)
        &&& (self.indirect_1 matches Some(i) ==> !i.is_done && self.indirect_0.pos() >= 1 && i.over(ind1(&self.fs, b, self.indirect_0.pos() - 1)))
    }
    pub open spec fn pos(&self) -> int {
        match self.indirect_1 {
            Some(i) => (self.indirect_0.pos() - 1) * (ppb(&self.fs) * ppb(&self.fs)) + i.pos(),
            None => self.indirect_0.pos() * (ppb(&self.fs) * ppb(&self.fs)),
        }
    }
    pub open spec fn left(&self) -> int {
        if self.is_done { 0 } else {
            2 + 2 * (ppb(&self.fs) - self.indirect_0.pos()) + (if self.indirect_1 is Some { 1int } else { 0 })
        }
    }
}
%% fn iters::file_blocks::block_map::DoubleIndirectBlockIter::new
@props C01 C08 C16 C17
@ret r
@spec
    requires fs.wf()
    ensures
        r matches Ok(i) ==> i.over(block_index) && i.fs == fs && !i.is_done && i.pos() == 0,
        r matches Err(e) ==> ind_err(&fs, block_index, e),
@start
    proof { let s = ppb(&fs) * ppb(&fs); assert(0 * s == 0); assert(0 * ppb(&fs) == 0); }
%% fn iters::file_blocks::block_map::TripleIndirectBlockIter::new
@props C01 C08 C16 C17
@ret r
@spec
    requires fs.wf()
    ensures
        r matches Ok(i) ==> i.over(block_index) && i.fs == fs && !i.is_done && i.pos() == 0,
        r matches Err(e) ==> ind_err(&fs, block_index, e),
@start
    proof { let s = ppb(&fs) * ppb(&fs); assert(0 * s == 0); assert(0 * ppb(&fs) == 0); }
%% fn iters::file_blocks::block_map::DoubleIndirectBlockIter::next_impl
@props C01 C02 C08
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        final(self).wf(), final(self).fs == old(self).fs,
        r is Ok && r->Ok_0 is None ==> 0 <= final(self).left() < old(self).left(),
        forall|b: u32| #[trigger] old(self).over(b) ==> {
            &&& r matches Ok(Some(v)) ==> final(self).over(b) && !final(self).is_done && final(self).pos() == old(self).pos() + 1
                && 0 <= old(self).pos() < ppb(&old(self).fs) * ppb(&old(self).fs) && v == ind2(&old(self).fs, b, old(self).pos())
            &&& (r matches Ok(None)) ==> final(self).over(b) && final(self).pos() == old(self).pos()
                && (final(self).is_done ==> old(self).pos() == ppb(&old(self).fs) * ppb(&old(self).fs))
            &&& r matches Err(e) ==> 0 <= old(self).pos() < ppb(&old(self).fs) * ppb(&old(self).fs)
                && ind_err(&old(self).fs, ind1(&old(self).fs, b, old(self).pos() / ppb(&old(self).fs)), e)
        },
@start
    proof {
        let q = ppb(&self.fs);
        lemma_ppb(&self.fs);
        match &self.indirect_1 {
            Some(i) => {
                let k = self.indirect_0.pos() - 1;
                let j = i.pos();
                if 0 <= k < q && 0 <= j < q {
                    lemma_dm(k * q + j, q, k, j);
                    assert(k * q + j < q * q) by (nonlinear_arith) requires 0 <= k < q, 0 <= j < q;
                    assert(k * q >= 0) by (nonlinear_arith) requires 0 <= k, 0 < q;
                }
                if j == q { assert(k * q + j == (k + 1) * q) by (nonlinear_arith) requires j == q; }
            }
            None => {
                let k = self.indirect_0.pos();
                lemma_dm(k * q, q, k, 0);
                if 0 <= k < q { assert(k * q < q * q) by (nonlinear_arith) requires 0 <= k < q; assert(k * q >= 0) by (nonlinear_arith) requires 0 <= k, 0 < q; }
                if k == q { assert(k * q == q * q); }
            }
        }
    }
%% fn iters::file_blocks::block_map::DoubleIndirectBlockIter@Iterator::next
@props C01 C02 C08
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).fs == old(self).fs,
        old(self).is_done ==> r is None,
        forall|b: u32| #[trigger] old(self).over(b) && !old(self).is_done ==> {
            &&& r matches Some(Ok(v)) ==> final(self).over(b) && !final(self).is_done && final(self).pos() == old(self).pos() + 1
                && 0 <= old(self).pos() < ppb(&old(self).fs) * ppb(&old(self).fs) && v == ind2(&old(self).fs, b, old(self).pos())
            &&& r is None ==> old(self).pos() == ppb(&old(self).fs) * ppb(&old(self).fs)
            &&& r matches Some(Err(e)) ==> 0 <= old(self).pos() < ppb(&old(self).fs) * ppb(&old(self).fs)
                && ind_err(&old(self).fs, ind1(&old(self).fs, b, old(self).pos() / ppb(&old(self).fs)), e)
        },
@loop 0
    invariant
        self.wf(), self.fs == old(self).fs,
        old(self).is_done ==> self.is_done,
        forall|b: u32| #[trigger] old(self).over(b) && !old(self).is_done ==> self.over(b) && self.pos() == old(self).pos()
            && (self.is_done ==> self.pos() == ppb(&self.fs) * ppb(&self.fs)),
    decreases self.left()
%% fn iters::file_blocks::block_map::TripleIndirectBlockIter::next_impl
@props C01 C02 C08
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        final(self).wf(), final(self).fs == old(self).fs,
        r is Ok && r->Ok_0 is None ==> 0 <= final(self).left() < old(self).left(),
        forall|b: u32| #[trigger] old(self).over(b) ==> {
            let q = ppb(&old(self).fs);
            &&& r matches Ok(Some(v)) ==> final(self).over(b) && !final(self).is_done && final(self).pos() == old(self).pos() + 1
                && 0 <= old(self).pos() < q * q * q && v == ind3(&old(self).fs, b, old(self).pos())
            &&& (r matches Ok(None)) ==> final(self).over(b) && final(self).pos() == old(self).pos()
                && (final(self).is_done ==> old(self).pos() == q * q * q)
            &&& r matches Err(e) ==> 0 <= old(self).pos() < q * q * q
                && ind_err3(&old(self).fs, b, old(self).pos(), e)
        },
@start
    let ghost q = ppb(&self.fs);
    proof {
        lemma_ppb(&self.fs);
        let s = q * q;
        assert(q * q * q == q * s) by (nonlinear_arith) requires s == q * q;
        assert(s > 0) by (nonlinear_arith) requires s == q * q, q > 0;
        match &self.indirect_1 {
            Some(i) => {
                let k = self.indirect_0.pos() - 1;
                let j = i.pos();
                if 0 <= k < q && 0 <= j < s {
                    lemma_dm(k * s + j, s, k, j);
                    assert(k * s + j < q * s) by (nonlinear_arith) requires 0 <= k < q, 0 <= j < s;
                    assert(k * s >= 0) by (nonlinear_arith) requires 0 <= k, 0 < s;
                }
                if j == s { assert(k * s + j == (k + 1) * s) by (nonlinear_arith) requires j == s; }
            }
            None => {
                let k = self.indirect_0.pos();
                lemma_dm(k * s, s, k, 0);
                if 0 <= k < q { assert(k * s < q * s) by (nonlinear_arith) requires 0 <= k < q, 0 < s; assert(k * s >= 0) by (nonlinear_arith) requires 0 <= k, 0 < s; }
                if k == q { assert(k * s == q * s); }
            }
        }
    }
%% fn iters::file_blocks::block_map::TripleIndirectBlockIter@Iterator::next
@props C01 C02 C08
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).fs == old(self).fs,
        old(self).is_done ==> r is None,
        forall|b: u32| #[trigger] old(self).over(b) && !old(self).is_done ==> {
            let q = ppb(&old(self).fs);
            &&& r matches Some(Ok(v)) ==> final(self).over(b) && !final(self).is_done && final(self).pos() == old(self).pos() + 1
                && 0 <= old(self).pos() < q * q * q && v == ind3(&old(self).fs, b, old(self).pos())
            &&& r is None ==> old(self).pos() == q * q * q
            &&& r matches Some(Err(e)) ==> 0 <= old(self).pos() < q * q * q
                && ind_err3(&old(self).fs, b, old(self).pos(), e)
        },
@loop 0
    invariant
        self.wf(), self.fs == old(self).fs,
        old(self).is_done ==> self.is_done,
        forall|b: u32| #[trigger] old(self).over(b) && !old(self).is_done ==> self.over(b) && self.pos() == old(self).pos()
            && (self.is_done ==> self.pos() == ppb(&self.fs) * ppb(&self.fs) * ppb(&self.fs)),
    decreases self.left()
%% module iters::file_blocks::block_map
impl BlockMap {
    pub open spec fn root(&self) -> Seq<u32> { self.level_0@ }
    pub open spec fn wf(&self) -> bool {
        let q = ppb(&self.fs);
        let p = self.num_blocks_yielded as int;
        &&& self.fs.wf()
        &&& !self.is_done ==> {
            &&& p <= self.num_blocks_total
            &&& self.level_0_index <= 15
            &&& self.level_0_index <= 11 ==> p == self.level_0_index
            &&& self.level_0_index == 12 ==> p == 12 + (match self.level_1 { Some(i) => i.pos(), None => 0 })
            &&& self.level_0_index == 13 ==> p == 12 + q + (match self.level_2 { Some(i) => i.pos(), None => 0 })
            &&& self.level_0_index == 14 ==> p == 12 + q + q * q + (match self.level_3 { Some(i) => i.pos(), None => 0 })
            &&& self.level_0_index == 15 ==> p == map_cap(&self.fs)
            &&& (self.level_1 matches Some(i) ==> self.level_0_index == 12 && i.over(&self.fs, self.level_0@[12]))
            &&& (self.level_2 matches Some(i) ==> self.level_0_index == 13 && !i.is_done && i.fs == self.fs && i.over(self.level_0@[13]))
            &&& (self.level_3 matches Some(i) ==> self.level_0_index == 14 && !i.is_done && i.fs == self.fs && i.over(self.level_0@[14]))
        }
    }
    pub open spec fn end(&self) -> int { if self.num_blocks_total < map_cap(&self.fs) { self.num_blocks_total as int } else { map_cap(&self.fs) } }
    pub open spec fn left(&self) -> int {
        if self.is_done { 0 } else {
            1 + 3 * (15 - self.level_0_index) + (if self.level_1 is Some || self.level_2 is Some || self.level_3 is Some { 1int } else { 2 })
        }
    }
    pub open spec fn same(&self, o: &BlockMap) -> bool {
        self.fs == o.fs && self.level_0@ == o.level_0@ && self.num_blocks_total == o.num_blocks_total
    }
    /// Reading the block at the current position may fail with `e`.
    pub open spec fn may_fail(&self, e: Ext4Error) -> bool {
        map_err(&self.fs, self.root(), self.num_blocks_yielded as int, e)
    }
}
pub open spec fn root_of(d: Seq<u8>) -> Seq<u32> { Seq::new(15, |i: int| le32(d, 4 * i)) }
%% fn iters::file_blocks::block_map::BlockMap::new
@props C01 C08
@ret r
@spec
    requires fs.wf()
    ensures r.wf(), !r.is_done, r.fs == fs, r.num_blocks_yielded == 0, r.num_blocks_total == inode.file_size_in_blocks,
        r.root() == root_of(inode.inline_data@),
@loop 0
    invariant
        vx_i0 <= 15,
        forall|j: int| 0 <= j < vx_i0 ==> level_0@[j] == le32(inode.inline_data@, #[trigger] (4 * j)),
    ensures vx_i0 == 15
    decreases 15 - vx_i0
@before ^Self
    proof { assert(level_0@ =~= root_of(inode.inline_data@)); }
%% fn iters::file_blocks::block_map::BlockMap::increment_num_blocks_yielded
@props C01 C08
@spec
    requires old(self).num_blocks_yielded < u32::MAX
    ensures *final(self) == (BlockMap { num_blocks_yielded: (old(self).num_blocks_yielded + 1) as u32, ..*old(self) })
%% fn iters::file_blocks::block_map::BlockMap::next_impl
@attr #[verifier::rlimit(60)]
@props C01 C02 C08 C17
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        r is Ok ==> final(self).wf(), final(self).same(old(self)),
        r matches Ok(Some(b)) ==> old(self).num_blocks_yielded < old(self).end() && !final(self).is_done
            && final(self).num_blocks_yielded == old(self).num_blocks_yielded + 1
            && b == map_at(&old(self).fs, old(self).root(), old(self).num_blocks_yielded as int),
        r is Ok && r->Ok_0 is None ==> final(self).num_blocks_yielded == old(self).num_blocks_yielded && 0 <= final(self).left() < old(self).left()
            && (final(self).is_done ==> old(self).num_blocks_yielded >= old(self).end()),
        r matches Err(e) ==> old(self).num_blocks_yielded < old(self).end() && old(self).may_fail(e),
@start
    proof {
        lemma_ppb(&self.fs);
        let q = ppb(&self.fs);
        assert(q * q > 0) by (nonlinear_arith) requires q > 0;
        assert(q * q * q > 0) by (nonlinear_arith) requires q > 0;
    }
%% fn iters::file_blocks::block_map::BlockMap@Iterator::next
@props C01 C02 C08 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        old(self).is_done ==> r is None,
        r is None ==> final(self).is_done && (old(self).is_done || old(self).num_blocks_yielded >= old(self).end()),
        r matches Some(Ok(b)) ==> old(self).num_blocks_yielded < old(self).end() && !final(self).is_done
            && final(self).num_blocks_yielded == old(self).num_blocks_yielded + 1
            && b == map_at(&old(self).fs, old(self).root(), old(self).num_blocks_yielded as int),
        r matches Some(Err(e)) ==> final(self).is_done && old(self).num_blocks_yielded < old(self).end() && old(self).may_fail(e),
@loop 0
    invariant
        self.wf(), self.same(old(self)), self.num_blocks_yielded == old(self).num_blocks_yielded,
        old(self).is_done ==> self.is_done,
        !old(self).is_done && self.is_done ==> old(self).num_blocks_yielded >= old(self).end(),
    decreases self.left()
