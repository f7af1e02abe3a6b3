%% module iters::read_dir
use crate::dir_block::{dir_csum_bad, is_leaf};
use crate::dir_entry::{entry_is, entry_live, reclen};
use crate::iters::file_blocks::{inode_at, inode_end, layout_ok};
/// A live entry of a directory.
pub struct Ent { pub ino: u32, pub name: Seq<u8>, pub ty: FileType }
pub use crate::FileType;
/// The entries found, in order, and whether everything up to the end was well formed.
pub struct Listing { pub ents: Seq<Ent>, pub ok: bool }
/// The entry in the record at the start of `b`.
pub open spec fn ent_of(b: Seq<u8>) -> Ent {
    Ent { ino: le32(b, 0), name: b.subrange(8, 8 + b[6]), ty: crate::file_type::entry_type(b[7])->0 }
}
/// The record at the start of `b` is malformed.
pub open spec fn record_bad(bs: int, b: Seq<u8>) -> bool {
    b.len() < 8 || reclen(bs, le16(b, 4)) < 8 || (le32(b, 0) != 0 && !entry_live(bs, b))
}
pub proof fn lemma_block_ents(bs: int, b: Seq<u8>, o: int)
    requires 0 <= o
    ensures
        o >= b.len() ==> block_ents(bs, b, o) == none_left(),
        o < b.len() && record_bad(bs, b.skip(o)) ==> block_ents(bs, b, o) == bad_listing(),
        o < b.len() && !record_bad(bs, b.skip(o)) ==> {
            let r = b.skip(o);
            let t = block_ents(bs, b, o + reclen(bs, le16(r, 4)));
            block_ents(bs, b, o) == (if le32(r, 0) == 0 { t } else { Listing { ents: seq![ent_of(r)] + t.ents, ok: t.ok } })
        },
{}
pub open spec fn none_left() -> Listing { Listing { ents: Seq::empty(), ok: true } }
pub open spec fn bad_listing() -> Listing { Listing { ents: Seq::empty(), ok: false } }
pub open spec fn then(a: Listing, b: Listing) -> Listing { if a.ok { Listing { ents: a.ents + b.ents, ok: b.ok } } else { a } }
/// The entries of a directory block from offset `o` on.
pub open spec fn block_ents(bs: int, b: Seq<u8>, o: int) -> Listing decreases (if 0 <= o < b.len() { b.len() - o } else { 0 })
    when 0 <= o
{
    if o >= b.len() { none_left() }
    else {
        let r = b.skip(o);
        if record_bad(bs, r) { bad_listing() }
        else {
            let t = block_ents(bs, b, o + reclen(bs, le16(r, 4)));
            if le32(r, 0) == 0 { t } else { Listing { ents: seq![ent_of(r)] + t.ents, ok: t.ok } }
        }
    }
}
/// What the checks of a directory's blocks depend on.
pub struct Ctx { pub fs: Ext4, pub ino: InodeIndex, pub has_htree: bool, pub base: Checksum }
pub open spec fn ctx_of(fs: &Ext4, inode: &Inode) -> Ctx {
    Ctx { fs: *fs, ino: inode.index, has_htree: inode.flags.0 & 0x1000 == 0x1000, base: inode.checksum_base }
}
pub open spec fn blk_of(c: &Ctx, first: bool, x: u64) -> DirBlock<'static> {
    DirBlock { fs: &c.fs, dir_inode: c.ino, block_index: x, is_first: first, has_htree: c.has_htree, checksum_base: c.base }
}
/// The entries of directory block `x`, whose checksum must be right.
pub open spec fn dir_block_ents(c: &Ctx, first: bool, x: u64) -> Listing {
    if !c.fs.readable(x, 0, c.fs.bs()) || dir_csum_bad(&blk_of(c, first, x), c.fs.block(x)) { bad_listing() }
    else { block_ents(c.fs.bs(), c.fs.block(x), 0) }
}
/// The entries in blocks `p` to `end` of the directory.
pub open spec fn ents_from(c: &Ctx, at: spec_fn(int) -> u64, p: int, end: int) -> Listing decreases end - p
{
    if p >= end { none_left() } else { then(dir_block_ents(c, p == 0, at(p)), ents_from(c, at, p + 1, end)) }
}
/// C10: the entries of a directory.
pub open spec fn dir_ents(fs: &Ext4, inode: &Inode) -> Listing {
    ents_from(&ctx_of(fs, inode), |p: int| inode_at(fs, inode, p), 0, inode_end(fs, inode))
}
pub proof fn lemma_ents_eq(c: &Ctx, f: spec_fn(int) -> u64, g: spec_fn(int) -> u64, p: int, end: int)
    requires forall|q: int| p <= q < end ==> #[trigger] f(q) == g(q)
    ensures ents_from(c, f, p, end) == ents_from(c, g, p, end)
    decreases end - p
{
    if p < end { assert(f(p) == g(p)); lemma_ents_eq(c, f, g, p + 1, end); }
}
pub proof fn lemma_then_none(a: Listing)
    ensures then(none_left(), a) == a, then(a, none_left()) == a, then(bad_listing(), a) == bad_listing()
{
    assert(Seq::<Ent>::empty() + a.ents =~= a.ents);
    assert(a.ents + Seq::<Ent>::empty() =~= a.ents);
}
pub open spec fn ent_is(d: &DirEntry, e: Ent) -> bool { d.inode@ == e.ino && d.name_bytes() == e.name && d.file_type == e.ty }
impl ReadDir {
    pub open spec fn ctx(&self) -> Ctx { Ctx { fs: self.fs, ino: self.inode, has_htree: self.has_htree, base: self.checksum_base } }
    pub open spec fn bs(&self) -> int { self.fs.bs() }
    pub open spec fn at(&self) -> spec_fn(int) -> u64 { |p: int| self.file_blocks.at(p) }
    pub open spec fn wf(&self) -> bool {
        &&& self.fs.wf() && self.path.wf() && self.checksum_base.wf()
        &&& self.file_blocks.wf() && self.file_blocks.fs() == self.fs
        &&& self.block@.len() == self.bs()
        &&& !self.is_done ==> {
            &&& !self.file_blocks.done()
            &&& 0 <= self.file_blocks.pos()
            &&& match self.block_index {
                Some(x) => {
                    &&& self.file_blocks.pos() >= 1
                    &&& self.is_first_block == (self.file_blocks.pos() == 1)
                    &&& self.offset_within_block == 0 || self.block@ == self.fs.block(x)
                }
                None => self.is_first_block == (self.file_blocks.pos() == 0)
            }
        }
    }
    /// The entries of the current block still to come.
    pub open spec fn cur(&self) -> Listing {
        match self.block_index {
            None => none_left(),
            Some(x) => if self.offset_within_block == 0 { dir_block_ents(&self.ctx(), self.is_first_block, x) }
                else { block_ents(self.bs(), self.fs.block(x), self.offset_within_block as int) },
        }
    }
    /// The entries still to come.
    pub open spec fn rest(&self) -> Listing {
        if self.is_done { none_left() }
        else { then(self.cur(), ents_from(&self.ctx(), self.at(), self.file_blocks.pos(), self.file_blocks.end())) }
    }
    /// The extent tree or block map still to be read is well formed.
    pub open spec fn layout(&self) -> bool { !self.is_done ==> self.file_blocks.ok() }
    /// Blocks to come, and bytes to come in the current block.
    pub open spec fn l0(&self) -> nat { if self.is_done { 0 } else { 1 } }
    pub open spec fn l1(&self) -> nat { if self.file_blocks.end() > self.file_blocks.pos() { (self.file_blocks.end() - self.file_blocks.pos()) as nat } else { 0 } }
    pub open spec fn l2(&self) -> nat {
        match self.block_index { None => 0, Some(_) => (1 + if self.offset_within_block < self.bs() { self.bs() - self.offset_within_block } else { 0 }) as nat }
    }
    pub open spec fn less(&self, o: &ReadDir) -> bool {
        self.l0() < o.l0() || self.l0() == o.l0() && (self.l1() < o.l1() || self.l1() == o.l1() && self.l2() < o.l2())
    }
    pub open spec fn same(&self, o: &ReadDir) -> bool {
        self.fs == o.fs && self.path == o.path && self.inode == o.inode && self.has_htree == o.has_htree && self.checksum_base == o.checksum_base
    }
}
/// One more block is fetched.
proof fn lemma_pull(o: &ReadDir, m: &ReadDir, x: u64)
    requires
        o.wf(), !o.is_done, !m.is_done, o.block_index is None, m.block_index == Some(x), m.offset_within_block == 0, m.same(o),
        m.is_first_block == o.is_first_block, o.file_blocks.step(&m.file_blocks, Some(Ok(x))),
    ensures m.rest() == o.rest(), m.l1() < o.l1()
{
    hide(dir_block_ents);
    let p = o.file_blocks.pos();
    let end = o.file_blocks.end();
    let e1 = ents_from(&m.ctx(), m.at(), p + 1, end);
    assert(m.ctx() == o.ctx());
    lemma_ents_eq(&o.ctx(), o.at(), m.at(), p + 1, end);
    assert(ents_from(&o.ctx(), o.at(), p, end) == then(dir_block_ents(&o.ctx(), p == 0, x), e1));
    lemma_then_none(ents_from(&o.ctx(), o.at(), p, end));
}
/// What is left of the current block.
proof fn lemma_cur(m: &ReadDir, x: u64)
    requires !m.is_done, m.block_index == Some(x)
    ensures
        m.offset_within_block == 0 ==> m.cur() == dir_block_ents(&m.ctx(), m.is_first_block, x),
        m.offset_within_block == 0 && (!m.fs.readable(x, 0, m.bs()) || dir_csum_bad(&blk_of(&m.ctx(), m.is_first_block, x), m.fs.block(x))) ==> m.cur() == bad_listing(),
        m.offset_within_block == 0 && m.fs.readable(x, 0, m.bs()) && !dir_csum_bad(&blk_of(&m.ctx(), m.is_first_block, x), m.fs.block(x))
            ==> m.cur() == block_ents(m.bs(), m.fs.block(x), 0),
        m.offset_within_block != 0 ==> m.cur() == block_ents(m.bs(), m.fs.block(x), m.offset_within_block as int),
        m.cur() == bad_listing() ==> m.rest() == bad_listing(),
{
    lemma_then_none(ents_from(&m.ctx(), m.at(), m.file_blocks.pos(), m.file_blocks.end()));
}
/// Nothing is left.
proof fn lemma_end(o: &ReadDir)
    requires !o.is_done, o.block_index is None, o.file_blocks.pos() >= o.file_blocks.end()
    ensures o.rest() == none_left(), forall|f: ReadDir| #![trigger f.rest()] f.is_done ==> f.rest() == none_left()
{
    lemma_then_none(none_left());
}
/// Nothing is left of the current block.
proof fn lemma_block_done(m: &ReadDir, x: u64)
    requires !m.is_done, m.block_index == Some(x), m.offset_within_block >= m.fs.block(x).len(), m.offset_within_block > 0
    ensures forall|f: ReadDir| #![trigger f.rest()] f.same(m) && !f.is_done && f.file_blocks == m.file_blocks && f.block_index is None ==> f.rest() == m.rest()
{
    assert(m.cur() == none_left());
}
/// One record is consumed.
proof fn lemma_emit(m: &ReadDir, f: &ReadDir, x: u64)
    requires
        !m.is_done, !f.is_done, m.block_index == Some(x), f.block_index == Some(x), f.same(m), f.file_blocks == m.file_blocks,
        f.is_first_block == m.is_first_block, m.offset_within_block < m.fs.block(x).len(),
        m.cur() == block_ents(m.bs(), m.fs.block(x), m.offset_within_block as int),
        !record_bad(m.bs(), m.fs.block(x).skip(m.offset_within_block as int)),
        f.offset_within_block == m.offset_within_block + reclen(m.bs(), le16(m.fs.block(x).skip(m.offset_within_block as int), 4)),
    ensures ({
        let r = m.fs.block(x).skip(m.offset_within_block as int);
        &&& le32(r, 0) == 0 ==> f.rest() == m.rest()
        &&& le32(r, 0) != 0 ==> m.rest().ents.len() > 0 && m.rest().ents[0] == ent_of(r)
            && f.rest().ents == m.rest().ents.skip(1) && f.rest().ok == m.rest().ok
    })
{
    let r = m.fs.block(x).skip(m.offset_within_block as int);
    let e1 = ents_from(&m.ctx(), m.at(), m.file_blocks.pos(), m.file_blocks.end());
    let t = block_ents(m.bs(), m.fs.block(x), f.offset_within_block as int);
    let e = ent_of(r);
    assert(f.cur() == t);
    assert(f.ctx() == m.ctx());
    assert(m.rest() == then(m.cur(), e1));
    assert(f.rest() == then(t, e1));
    assert((seq![e] + t.ents).skip(1) =~= t.ents);
    assert((seq![e] + t.ents + e1.ents).skip(1) =~= t.ents + e1.ents);
}
%% fn iters::read_dir::ReadDir::new
@props C01 C10 C17
@ret r
@spec
    requires fs.wf(), inode.wf(&fs), path.wf()
    ensures
        r matches Ok(d) ==> d.wf() && !d.is_done && d.fs == fs && *d.path == path && d.rest() == dir_ents(&fs, inode)
            && (layout_ok(&fs, inode) ==> d.layout()) && inode.flags.0 & 0x800 != 0x800,
        r matches Err(e) ==> (e is Encrypted && inode.flags.0 & 0x800 == 0x800)
            || (e is Corrupt && !layout_ok(&fs, inode) && inode.flags.0 & 0x800 != 0x800),
@start
    proof {
        crate::iters::file_blocks::lemma_flags();
        lemma_then_none(dir_ents(&fs, inode));
        assert forall|x: FileBlocks| #[trigger] x.over(&fs, inode) && !x.done() && x.pos() == 0 implies
            ents_from(&ctx_of(&fs, inode), |p: int| x.at(p), 0, x.end()) == dir_ents(&fs, inode) by {
            lemma_ents_eq(&ctx_of(&fs, inode), |p: int| x.at(p), |p: int| inode_at(&fs, inode, p), 0, x.end());
        }
    }
%% fn iters::read_dir::ReadDir::next_impl
@props C01 C02 C05 C10 C16 C17
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        final(self).same(old(self)),
        r is Ok ==> final(self).wf() && (old(self).layout() ==> final(self).layout()),
        r matches Ok(Some(d)) ==> !final(self).is_done && d.wf() && d.fs == old(self).fs && d.path == old(self).path
            && old(self).rest().ents.len() > 0 && ent_is(&d, old(self).rest().ents[0])
            && final(self).rest().ents == old(self).rest().ents.skip(1) && final(self).rest().ok == old(self).rest().ok,
        r is Ok && r->Ok_0 is None ==> final(self).rest() == old(self).rest() && final(self).less(old(self))
            && (final(self).is_done ==> old(self).rest() == none_left()),
        r matches Err(e) ==> e is Io || (e is Corrupt && (!old(self).layout() || old(self).rest() == bad_listing())),
@start
    hide(FileBlocks::wf);
    hide(FileBlocks::ok);
    hide(FileBlocks::at);
    hide(FileBlocks::end);
    hide(FileBlocks::pos);
    hide(FileBlocks::done);
    hide(FileBlocks::fs);
    hide(dir_csum_bad);
    hide(Ext4::wf);
    hide(block_ents);
    hide(dir_block_ents);
    hide(ents_from);
    hide(crate::Ext4::block);
    hide(ReadDir::rest);
    hide(ReadDir::cur);
    let ghost o = *self;
@before ^self.is_done = true;
    proof { lemma_end(&o); }
@before ^let block_size = self.fs.0.superblock.block_size;
    let ghost m = *self;
    proof {
        if o.block_index is None { lemma_pull(&o, &m, block_index); }
        assert(m.rest() == o.rest());
        lemma_cur(&m, block_index);
    }
@before ^self.is_first_block = false;
    proof { lemma_block_done(&m, block_index); }
@before ^let (entry, entry_size) = DirEntry::from_bytes(
    let ghost b = self.fs.block(block_index);
    let ghost off = self.offset_within_block as int;
    let ghost r = b.skip(off);
    proof {
        assert(m.cur() == block_ents(m.bs(), b, off));
        assert(self.block@.subrange(off, b.len() as int) =~= r);
        lemma_block_ents(m.bs(), b, off);
    }
@tail
    proof { lemma_emit(&m, self, block_index); }
%% fn iters::read_dir::ReadDir@Iterator::next
@props C01 C02 C05 C10 C16 C17
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).same(old(self)),
        r is None || r->0 is Ok ==> final(self).wf() && (old(self).layout() ==> final(self).layout()),
        old(self).is_done ==> r is None,
        r is None ==> final(self).is_done && old(self).rest() == none_left(),
        r matches Some(Ok(d)) ==> !old(self).is_done && !final(self).is_done && d.wf() && d.fs == old(self).fs && d.path == old(self).path
            && old(self).rest().ents.len() > 0 && ent_is(&d, old(self).rest().ents[0])
            && final(self).rest().ents == old(self).rest().ents.skip(1) && final(self).rest().ok == old(self).rest().ok,
        r matches Some(Err(e)) ==> final(self).is_done && (e is Io || (e is Corrupt && (!old(self).layout() || old(self).rest() == bad_listing()))),
@loop 0
    invariant
        self.same(old(self)), self.wf(), old(self).layout() ==> self.layout(),
        old(self).is_done ==> self.is_done,
        self.rest() == old(self).rest(),
        !old(self).is_done && self.is_done ==> old(self).rest() == none_left(),
    decreases self.l0(), self.l1(), self.l2()
