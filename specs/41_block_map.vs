%% module journal::block_map
use crate::iters::file_blocks::{inode_at, inode_end, layout_ok};
use crate::journal::block_header::is_journal_block;
use crate::journal::commit_block::commit_csum;
use crate::journal::descriptor_block::{tail_csum_ok, tag_flags, tag_size, tag_fits, tag_block, tag_csum};
use crate::journal::revocation_block::{revoked, table_ok};
/// Where the journal is: its superblock and the blocks of its file.
pub struct Jc { pub fs: Ext4, pub js: JournalSuperblock, pub at: spec_fn(int) -> u64, pub end: int }
/// Sequence numbers wrap around.
pub open spec fn seq_after(s: u32) -> u32 { if s == u32::MAX { 0 } else { (s + 1) as u32 } }
/// State of a replay: next sequence number, committed and uncommitted blocks, revoked blocks.
pub struct JSt { pub seq: u32, pub map: Map<u64, u64>, pub un: Map<u64, u64>, pub rev: Seq<u64> }
/// What a journal block does: go on at a position, end the replay with a map, or fail.
pub enum Jr { Next(JSt, int), Stop(Map<u64, u64>), Fail(Ext4Error) }
pub enum Dr { Done(Map<u64, u64>, int), Stop, Fail(Ext4Error) }
pub enum Jend { Map(Map<u64, u64>), Fail(Ext4Error) }
/// The journaled copy in block `i` is the one its tag describes.
pub open spec fn data_ok(c: Jc, seq: u32, i: u64, sum: u32) -> bool {
    c.fs.readable(i, 0, c.fs.bs())
    && crc32c(0xffff_ffff, c.js.uuid.0@ + be_bytes32(seq) + c.fs.block(i)) == sum
}
/// The tags `b` of a descriptor block whose data starts at journal position `p`.
pub open spec fn descs(c: Jc, seq: u32, b: Seq<u8>, p: int, un: Map<u64, u64>) -> Dr
    decreases b.len()
{
    if !tag_fits(b) { Dr::Stop }
    else if tag_flags(b) & 1 == 1 { Dr::Fail(crate::error::incompat(IncompatibleKind::JournalBlockEscaped)) }
    else if p >= c.end { Dr::Stop }
    else if !data_ok(c, seq, (c.at)(p), tag_csum(b)) { Dr::Stop }
    else {
        let un2 = un.insert(tag_block(b), (c.at)(p));
        if tag_flags(b) & 8 == 8 { Dr::Done(un2, p + 1) } else { descs(c, seq, b.skip(tag_size(b)), p + 1, un2) }
    }
}
/// `m` without the blocks of `rev`.
pub open spec fn without(m: Map<u64, u64>, rev: Seq<u64>) -> Map<u64, u64>
    decreases rev.len()
{
    if rev.len() == 0 { m } else { without(m, rev.drop_last()).remove(rev.last()) }
}
/// A commit: revoked blocks go, the rest of the transaction replaces what came before.
pub open spec fn committed(s: JSt) -> Map<u64, u64> { without(s.map, s.rev).union_prefer_right(without(s.un, s.rev)) }
/// Journal block `i`, followed by position `p`.
#[verifier::opaque]
pub open spec fn blk(c: Jc, i: u64, p: int, s: JSt) -> Jr {
    let b = c.fs.block(i);
    if !c.fs.readable(i, 0, c.fs.bs()) { Jr::Stop(s.map) }
    else if !is_journal_block(b) { Jr::Stop(s.map) }
    else if be32(b, 8) != s.seq { Jr::Stop(s.map) }
    else if be32(b, 4) == 1 {
        if !tail_csum_ok(c.js.uuid.0@, b) { Jr::Stop(s.map) }
        else { match descs(c, s.seq, b.skip(12), p, s.un) {
            Dr::Done(un, q) => Jr::Next(JSt { seq: s.seq, map: s.map, un, rev: s.rev }, q),
            Dr::Stop => Jr::Stop(s.map),
            Dr::Fail(e) => Jr::Fail(e),
        } }
    }
    else if be32(b, 4) == 5 {
        if !tail_csum_ok(c.js.uuid.0@, b) || !table_ok(b) { Jr::Stop(s.map) }
        else { Jr::Next(JSt { seq: s.seq, map: s.map, un: s.un, rev: s.rev + revoked(b) }, p) }
    }
    else if be32(b, 4) == 2 {
        if commit_csum(c.js.uuid.0@, b) != be32(b, 16) { Jr::Stop(s.map) }
        else { Jr::Next(JSt { seq: seq_after(s.seq), map: committed(s), un: Map::empty(), rev: Seq::empty() }, p) }
    }
    else { Jr::Fail(crate::error::incompat(IncompatibleKind::JournalBlockType(be32(b, 4)))) }
}
/// C15: replaying the journal from position `p` in state `s`.
#[verifier::opaque]
pub open spec fn replay(c: Jc, p: int, s: JSt) -> Jend
    decreases (if c.end > p { c.end - p } else { 0 })
{
    if p >= c.end { Jend::Map(s.map) }
    else { match blk(c, (c.at)(p), p + 1, s) {
        Jr::Stop(m) => Jend::Map(m),
        Jr::Fail(e) => Jend::Fail(e),
        Jr::Next(t, q) => if q > p { replay(c, q, t) } else { Jend::Map(s.map) },
    } }
}
pub proof fn lemma_replay(c: Jc, p: int, s: JSt)
    ensures
        p >= c.end ==> replay(c, p, s) == Jend::Map(s.map),
        p < c.end ==> replay(c, p, s) == match blk(c, (c.at)(p), p + 1, s) {
            Jr::Stop(m) => Jend::Map(m),
            Jr::Fail(e) => Jend::Fail(e),
            Jr::Next(t, q) => if q > p { replay(c, q, t) } else { Jend::Map(s.map) },
        },
{
    reveal_with_fuel(replay, 2);
}
pub proof fn lemma_descs(c: Jc, seq: u32, b: Seq<u8>, p: int, un: Map<u64, u64>)
    ensures descs(c, seq, b, p, un) matches Dr::Done(u, q) ==> q > p
    decreases b.len()
{
    if tag_fits(b) { lemma_descs(c, seq, b.skip(tag_size(b)), p + 1, un.insert(tag_block(b), (c.at)(p))); }
}
pub proof fn lemma_fail(c: Jc, seq: u32, b: Seq<u8>, p: int, un: Map<u64, u64>)
    ensures descs(c, seq, b, p, un) matches Dr::Fail(e) ==> e is Incompatible
    decreases b.len()
{
    if tag_fits(b) { lemma_fail(c, seq, b.skip(tag_size(b)), p + 1, un.insert(tag_block(b), (c.at)(p))); }
}
pub proof fn lemma_blk(c: Jc, i: u64, p: int, s: JSt)
    ensures blk(c, i, p, s) matches Jr::Fail(e) ==> e is Incompatible
{
    reveal(blk);
    lemma_fail(c, s.seq, c.fs.block(i).skip(12), p, s.un);
}
pub proof fn lemma_without(m: Map<u64, u64>, rev: Seq<u64>, i: int)
    requires 0 <= i < rev.len()
    ensures without(m, rev.take(i + 1)) == without(m, rev.take(i)).remove(rev[i])
{
    assert(rev.take(i + 1).drop_last() =~= rev.take(i));
    assert(rev.take(i + 1).last() == rev[i]);
}
pub open spec fn jstart(js: &JournalSuperblock) -> JSt { JSt { seq: js.sequence, map: Map::empty(), un: Map::empty(), rev: Seq::empty() } }
pub open spec fn jctx(fs: &Ext4, js: &JournalSuperblock, inode: &Inode) -> Jc {
    Jc { fs: *fs, js: *js, at: |p: int| inode_at(fs, inode, p), end: inode_end(fs, inode) }
}
/// C15: the blocks that the journal replaces, and where their latest committed copies are.
pub open spec fn journal_result(fs: &Ext4, js: &JournalSuperblock, inode: &Inode) -> Jend {
    if js.start_block == 0 { Jend::Map(Map::empty()) } else { replay(jctx(fs, js, inode), js.start_block as int, jstart(js)) }
}
/// Why the journal cannot be replayed.
pub open spec fn replay_err(fs: &Ext4, i: &Inode, js: &JournalSuperblock, e: Ext4Error) -> bool {
    e is Io || ((e is Corrupt || e is Incompatible) && !layout_ok(fs, i)) || journal_result(fs, js, i) == Jend::Fail(e)
}
impl<'a> BlockMapLoader<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.fs.wf()
        &&& self.block@.len() == self.fs.bs()
        &&& self.data_block@.len() == self.fs.bs()
        &&& self.journal_block_iter.wf()
        &&& self.journal_block_iter.fs() == *self.fs
    }
    pub open spec fn st(&self) -> JSt {
        JSt { seq: self.sequence, map: self.block_map@, un: self.uncommitted_block_map@, rev: self.revoked_blocks@ }
    }
    /// The rest of the iteration is over the blocks of the journal `c`.
    pub open spec fn ctx(&self, c: Jc) -> bool {
        let it = self.journal_block_iter;
        &&& c.fs == *self.fs
        &&& c.js == *self.superblock
        &&& c.end == it.end()
        &&& forall|p: int| it.pos() <= p < it.end() ==> #[trigger] it.at(p) == (c.at)(p)
    }
    pub open spec fn fixed(&self, o: &Self) -> bool {
        &&& self.fs == o.fs && self.superblock == o.superblock
        &&& self.journal_block_iter.end() == o.journal_block_iter.end()
        &&& !self.journal_block_iter.done() ==> self.journal_block_iter.pos() >= o.journal_block_iter.pos()
        &&& o.journal_block_iter.ok() && !self.journal_block_iter.done() ==> self.journal_block_iter.ok()
    }
}
%% fn journal::block_map::BlockMapLoader::new
@props C01 C15
@ret r
@spec
    requires fs.wf(), journal_inode.wf(fs)
    ensures
        r matches Ok(l) ==> l.wf() && l.fs == fs && l.superblock == superblock && l.st() == jstart(superblock) && !l.is_done
            && l.journal_block_iter.over(fs, journal_inode)
            && (if l.journal_block_iter.done() { inode_end(fs, journal_inode) <= superblock.start_block }
                else { l.journal_block_iter.pos() == superblock.start_block }),
        r matches Err(e) ==> e is Io || (e is Corrupt && !layout_ok(fs, journal_inode)),
@for 0 crate::vx::vx_range_of::<u32>($E)
@loop 0
    invariant
        fs.wf(), journal_inode.wf(fs),
        vx_it0.lo <= vx_it0.hi, vx_it0.hi == superblock.start_block,
        journal_block_iter.over(fs, journal_inode),
        journal_block_iter.done() ==> inode_end(fs, journal_inode) <= superblock.start_block,
        !journal_block_iter.done() ==> journal_block_iter.pos() == vx_it0.lo,
    ensures
        !journal_block_iter.done() ==> vx_it0.lo == vx_it0.hi,
    decreases vx_it0.hi - vx_it0.lo
%% fn journal::block_map::BlockMapLoader::process_commit_block
@props C01 C15
@replace self.block_map.extend(self.uncommitted_block_map.iter()) ==> crate::vx::vx_btree_extend(&mut self.block_map, &self.uncommitted_block_map)
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).fs == old(self).fs, final(self).superblock == old(self).superblock,
        final(self).journal_block_iter == old(self).journal_block_iter, final(self).is_done == old(self).is_done,
        final(self).block@ == old(self).block@,
        ({
            let good = commit_csum(old(self).superblock.uuid.0@, old(self).block@) == be32(old(self).block@, 16);
            &&& r is Ok ==> good && final(self).st() == (JSt { seq: seq_after(old(self).sequence), map: committed(old(self).st()), un: Map::empty(), rev: Seq::empty() })
            &&& r matches Err(e) ==> e is Corrupt && !good && final(self).block_map@ == old(self).block_map@
        }),
@loop 0
    invariant
        vx_it0.s@ == old(self).revoked_blocks@, 0 <= vx_it0.i <= vx_it0.s@.len(),
        self.uncommitted_block_map@ == without(old(self).uncommitted_block_map@, vx_it0.s@.take(vx_it0.i as int)),
        self.block_map@ == without(old(self).block_map@, vx_it0.s@.take(vx_it0.i as int)),
        self.wf(), self.fs == old(self).fs, self.superblock == old(self).superblock, self.revoked_blocks@ == old(self).revoked_blocks@,
        self.journal_block_iter == old(self).journal_block_iter, self.is_done == old(self).is_done,
        self.block@ == old(self).block@, self.sequence == old(self).sequence,
    ensures vx_it0.i == vx_it0.s@.len()
    decreases vx_it0.s@.len() - vx_it0.i
@loopend 0
    proof {
        lemma_without(old(self).uncommitted_block_map@, vx_it0.s@, vx_it0.i - 1);
        lemma_without(old(self).block_map@, vx_it0.s@, vx_it0.i - 1);
    }
@before ^self.revoked_blocks.clear()
    proof { assert(old(self).revoked_blocks@.take(old(self).revoked_blocks@.len() as int) =~= old(self).revoked_blocks@); }
%% fn journal::block_map::BlockMapLoader::process_revocation_block
@props C01 C15
@ret r
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).fs == old(self).fs, final(self).superblock == old(self).superblock,
        final(self).journal_block_iter == old(self).journal_block_iter, final(self).is_done == old(self).is_done,
        final(self).sequence == old(self).sequence, final(self).block_map@ == old(self).block_map@,
        final(self).uncommitted_block_map@ == old(self).uncommitted_block_map@,
        r is Ok == (tail_csum_ok(old(self).superblock.uuid.0@, old(self).block@) && table_ok(old(self).block@)),
        r is Ok ==> final(self).revoked_blocks@ == old(self).revoked_blocks@ + revoked(old(self).block@),
        r matches Err(e) ==> e is Corrupt,
%% fn journal::block_map::BlockMapLoader::process_descriptor_block
@props C01 C02 C15
@ret r
@spec
    requires old(self).wf(), !old(self).journal_block_iter.done()
    ensures
        final(self).wf(), final(self).fixed(old(self)), final(self).is_done == old(self).is_done,
        final(self).sequence == old(self).sequence, final(self).block_map@ == old(self).block_map@, final(self).revoked_blocks@ == old(self).revoked_blocks@,
        r is Ok ==> !final(self).journal_block_iter.done(),
        r matches Err(e) ==> e is Io || e is Corrupt || e is Incompatible,
        forall|c: Jc| #[trigger] old(self).ctx(c) ==> {
            let good = tail_csum_ok(c.js.uuid.0@, old(self).block@);
            let d = descs(c, old(self).sequence, old(self).block@.skip(12), old(self).journal_block_iter.pos(), old(self).uncommitted_block_map@);
            &&& r is Ok ==> good && d == Dr::Done(final(self).uncommitted_block_map@, final(self).journal_block_iter.pos()) && final(self).ctx(c)
            &&& r matches Err(e) ==> e is Io || (e is Corrupt && (!old(self).journal_block_iter.ok() || !good || d is Stop)) || (good && d == Dr::Fail(e))
        },
@loop 0
    invariant
        self.wf(), self.fixed(old(self)), !self.journal_block_iter.done(), self.is_done == old(self).is_done,
        self.sequence == old(self).sequence, self.block_map@ == old(self).block_map@, self.revoked_blocks@ == old(self).revoked_blocks@,
        tail_csum_ok(old(self).superblock.uuid.0@, old(self).block@),
        forall|c: Jc| #[trigger] old(self).ctx(c) ==> {
            let d = descs(c, old(self).sequence, old(self).block@.skip(12), old(self).journal_block_iter.pos(), old(self).uncommitted_block_map@);
            &&& self.ctx(c)
            &&& d == (if vx_it0.is_done { Dr::Done(self.uncommitted_block_map@, self.journal_block_iter.pos()) }
                      else { descs(c, self.sequence, vx_it0.bytes@, self.journal_block_iter.pos(), self.uncommitted_block_map@) })
        },
    ensures vx_it0.is_done
    decreases (if vx_it0.is_done { 0int } else { 1 + vx_it0.bytes@.len() as int })
@before ^if checksum.finalize() != tag.checksum
    proof {
        assert(self.data_block@ =~= self.fs.block(block_index));
        assert(checksum.data() =~= self.superblock.uuid.0@ + be_bytes32(self.sequence) + self.fs.block(block_index));
    }
%% fn journal::block_map::BlockMapLoader::process_next
@start
    proof { reveal(blk); }
@before ^let Some(header) =
    proof {
        assert(self.block@ =~= self.fs.block(self.block_index));
        assert forall|c: Jc| #[trigger] old(self).ctx(c) implies self.ctx(c) by {}
    }
@props C01 C02 C15 C17
@ret r
@spec
    requires old(self).wf(), !old(self).journal_block_iter.done(), !old(self).is_done
    ensures
        final(self).wf(), final(self).fixed(old(self)),
        r is Ok ==> !final(self).journal_block_iter.done(),
        r matches Err(e) ==> e is Io || e is Corrupt || e is Incompatible,
        forall|c: Jc| #[trigger] old(self).ctx(c) ==> {
            let d = blk(c, old(self).block_index, old(self).journal_block_iter.pos(), old(self).st());
            &&& r is Ok ==> match d {
                Jr::Next(t, q) => !final(self).is_done && final(self).st() == t && final(self).journal_block_iter.pos() == q && final(self).ctx(c),
                Jr::Stop(m) => final(self).is_done && final(self).block_map@ == m,
                Jr::Fail(e) => false,
            }
            &&& r matches Err(e) ==> e is Io || (e is Corrupt && (!old(self).journal_block_iter.ok() || (d matches Jr::Stop(m) && m == final(self).block_map@))) || d == Jr::Fail(e)
        },
%% fn journal::block_map::load_block_map
@props C01 C02 C15
@ret r
@spec
    requires fs.wf(), journal_inode.wf(fs)
    ensures
        r matches Ok(m) ==> layout_ok(fs, journal_inode) ==> journal_result(fs, superblock, journal_inode) == Jend::Map(m@),
        r matches Err(e) ==> replay_err(fs, journal_inode, superblock, e),
@before ^loader.block_index = block_index?
    let ghost p0 = loader.journal_block_iter.pos();
    let ghost s0 = loader.st();
    proof {
        assert(lay && block_index is Ok ==> all == replay(c, p0 - 1, s0) && loader.ctx(c));
        lemma_replay(c, p0 - 1, s0);
    }
@before ^if let Ext4Error::Corrupt(_) = err
    proof {
        let d = blk(c, b0, p0, s0);
        lemma_blk(c, b0, p0, s0);
        assert(lay ==> err is Io || (err is Corrupt && (d matches Jr::Stop(m) && m == loader.block_map@)) || d == Jr::Fail(err));
    }
@before ^if let Err(err) = loader.process_next()
    let ghost b0 = loader.block_index;
    proof { assert(lay ==> loader.ctx(c)); assert(loader.st() == s0); }
@before ^while let Some(block_index)
    let ghost c = jctx(fs, superblock, journal_inode);
    let ghost lay = layout_ok(fs, journal_inode);
    let ghost all = journal_result(fs, superblock, journal_inode);
    proof {
        lemma_replay(c, superblock.start_block as int, loader.st());
        assert(lay && !loader.journal_block_iter.done() ==> loader.ctx(c));
    }
@loopstart 0
    proof { lemma_replay(c, loader.journal_block_iter.pos(), loader.st()); }
@loop 0
    invariant_except_break
        loader.wf(), loader.fs == fs, loader.superblock == superblock, !loader.is_done,
        lay ==> if loader.journal_block_iter.done() { all == Jend::Map(loader.block_map@) } else {
            &&& loader.journal_block_iter.ok()
            &&& loader.ctx(c)
            &&& all == replay(c, loader.journal_block_iter.pos(), loader.st())
        },
    invariant
        c == jctx(fs, superblock, journal_inode), lay == layout_ok(fs, journal_inode), all == journal_result(fs, superblock, journal_inode),
    ensures
        lay ==> all == Jend::Map(loader.block_map@),
    decreases (if loader.journal_block_iter.done() { 0 } else if loader.journal_block_iter.end() > loader.journal_block_iter.pos() { 1 + loader.journal_block_iter.end() - loader.journal_block_iter.pos() } else { 1 })
%% module journal
use crate::iters::file_blocks::layout_ok;
use crate::journal::block_map::{journal_result, replay_err, Jend};
use crate::journal::superblock::{js_loaded, js_load_err};
/// Journal inode `i` with superblock `js` gives the replacement map `m`.
pub open spec fn journal_at(fs: &Ext4, i: &Inode, js: &JournalSuperblock, m: Map<u64, u64>) -> bool {
    &&& i.loaded(fs)
    &&& js_loaded(fs, i, js)
    &&& layout_ok(fs, i) ==> journal_result(fs, js, i) == Jend::Map(m)
}
/// C15: `m` is the outcome of the journal of the filesystem `fs`; none without a journal.
pub open spec fn journal_is(fs: &Ext4, m: Map<u64, u64>) -> bool {
    match fs.sb().journal_inode {
        None => m == Map::<u64, u64>::empty(),
        Some(n) => exists|i: Inode, js: JournalSuperblock| i.index == n && #[trigger] journal_at(fs, &i, &js, m),
    }
}
/// Why the journal cannot be loaded.
pub open spec fn journal_err(fs: &Ext4, e: Ext4Error) -> bool {
    fs.sb().journal_inode matches Some(n) && {
        ||| crate::inode::inode_read_err(fs, n, e)
        ||| exists|i: Inode| i.index == n && i.loaded(fs) && #[trigger] js_load_err(fs, &i, e)
        ||| exists|i: Inode, js: JournalSuperblock| i.index == n && i.loaded(fs) && js_loaded(fs, &i, &js) && #[trigger] replay_err(fs, &i, &js, e)
    }
}
%% fn journal::Journal::load
@props C01 C15 C17
@ret r
@spec
    requires fs.wf()
    ensures
        r matches Ok(j) ==> journal_is(fs, j.block_map@),
        r matches Err(e) ==> journal_err(fs, e),
@before ^let block_map = load_block_map
    let ghost js = superblock;
    let ghost ino = journal_inode;
    proof { assert(js_loaded(fs, &ino, &js)); }
@after let block_map = load_block_map
    proof { assert(journal_at(fs, &ino, &js, block_map@)); }
%% module lib
/// The superblock on the storage.
pub open spec fn disk_sb() -> Seq<u8> { disk().subrange(1024, 2048) }
/// C06/C15: what a filesystem is, from the bytes of the storage alone.
pub open spec fn fs_is(fs: &Ext4) -> bool {
    &&& fs.wf()
    &&& superblock::sb_ok(disk_sb())
    &&& superblock::sb_is(&fs.sb(), disk_sb())
    &&& exists|base: Ext4| base.wf() && base.sb() == fs.sb() && base.bgds() == fs.bgds() && base.jmap() == Map::<u64, u64>::empty()
            && #[trigger] journal::journal_is(&base, fs.jmap())
}
pub open spec fn load_err(e: Ext4Error) -> bool {
    ||| e is Io
    ||| superblock::sb_err(disk_sb(), e)
    ||| exists|sb: Superblock| superblock::sb_is(&sb, disk_sb()) && #[trigger] block_group::bgd_err(&sb, disk(), e)
    ||| exists|base: Ext4| base.wf() && superblock::sb_is(&base.sb(), disk_sb()) && base.jmap() == Map::<u64, u64>::empty() && #[trigger] journal::journal_err(&base, e)
}
%% fn lib::Ext4::load
@props C01 C04 C05 C06 C15 C16 C17 C18
@replace Rc::get_mut(&mut fs.0) ==> crate::vx::vx_rc_get_mut(&mut fs.0)
@ret r
@spec
    requires reader.content() == disk()
    ensures
        r matches Ok(fs) ==> fs_is(&fs),
        r matches Err(e) ==> load_err(e),
@before ^let superblock = Superblock::from_bytes
    proof { assert(data@ =~= disk_sb()); }
@after let journal = Journal::load
    let ghost base = fs;
@tail
    proof { assert(journal::journal_is(&base, fs.jmap())); }
