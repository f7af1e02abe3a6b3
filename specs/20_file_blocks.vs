%% module iters::file_blocks
use crate::iters::extents as xt;
use extents_blocks as xb;
use block_map as bm;
pub open spec fn has_extents(inode: &Inode) -> bool { inode.flags.0 & 0x8_0000 == 0x8_0000 }
/// The extents of an inode.
pub open spec fn tree_of(fs: &Ext4, inode: &Inode) -> xt::Walk { xt::tree(fs, inode.checksum_base, inode.inline_data@) }
/// C07/C08: block `p` of the file; zero is a hole.
pub open spec fn inode_at(fs: &Ext4, inode: &Inode, p: int) -> u64 {
    if has_extents(inode) { xb::ext_at(tree_of(fs, inode).exts, p) } else { bm::map_at(fs, bm::root_of(inode.inline_data@), p) as u64 }
}
/// Number of blocks of the file that the block map can address.
pub open spec fn inode_end(fs: &Ext4, inode: &Inode) -> int {
    if has_extents(inode) || inode.file_size_in_blocks < bm::map_cap(fs) { inode.file_size_in_blocks as int } else { bm::map_cap(fs) }
}
/// The extent tree or block map of the inode is well formed and readable.
pub open spec fn layout_ok(fs: &Ext4, inode: &Inode) -> bool {
    if has_extents(inode) { xt::node_ok(inode.inline_data@) && xb::tree_ok(tree_of(fs, inode)) }
    else {
        inode.file_size_in_blocks <= bm::map_cap(fs)
        && forall|p: int, e: Ext4Error| 0 <= p < inode_end(fs, inode) && #[trigger] bm::map_err(fs, bm::root_of(inode.inline_data@), p, e) ==> e is Io
    }
}
pub proof fn lemma_flags()
    ensures InodeFlags::EXTENTS.0 == 0x8_0000, InodeFlags::DIRECTORY_HTREE.0 == 0x1000, InodeFlags::DIRECTORY_ENCRYPTED.0 == 0x800,
{}
impl FileBlocks {
    pub open spec fn wf(&self) -> bool {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.wf(), FileBlocksInner::BlockMap(x) => x.wf() }
    }
    pub open spec fn done(&self) -> bool {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.is_done, FileBlocksInner::BlockMap(x) => x.is_done }
    }
    pub open spec fn pos(&self) -> int {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.pos(), FileBlocksInner::BlockMap(x) => x.num_blocks_yielded as int }
    }
    pub open spec fn end(&self) -> int {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.num_blocks_total as int, FileBlocksInner::BlockMap(x) => x.end() }
    }
    pub open spec fn fs(&self) -> Ext4 {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.extents.ext4, FileBlocksInner::BlockMap(x) => x.fs }
    }
    /// Block `p`, for the positions still to come.
    pub open spec fn at(&self, p: int) -> u64 {
        match self.0 { FileBlocksInner::ExtentsBlocks(x) => x.at(p), FileBlocksInner::BlockMap(x) => bm::map_at(&x.fs, x.root(), p) as u64 }
    }
    /// The part still to come is well formed and readable.
    pub open spec fn ok(&self) -> bool {
        match self.0 {
            FileBlocksInner::ExtentsBlocks(x) => x.ok(),
            FileBlocksInner::BlockMap(x) => forall|p: int, e: Ext4Error| self.pos() <= p < self.end() && #[trigger] bm::map_err(&x.fs, x.root(), p, e) ==> e is Io,
        }
    }
    /// Iterates over the blocks of this inode.
    pub open spec fn over(&self, fs: &Ext4, inode: &Inode) -> bool {
        &&& self.wf()
        &&& self.end() == inode_end(fs, inode)
        &&& self.fs() == *fs
        &&& !self.done() ==> {
            &&& 0 <= self.pos() <= self.end()
            &&& forall|p: int| self.pos() <= p < self.end() ==> #[trigger] self.at(p) == inode_at(fs, inode, p)
            &&& layout_ok(fs, inode) ==> self.ok()
        }
    }
    /// `nxt` is the state after one step from `self` that gave `r`.
    pub open spec fn step(&self, nxt: &FileBlocks, r: Option<Result<FsBlockIndex, Ext4Error>>) -> bool {
        &&& nxt.wf()
        &&& nxt.end() == self.end()
        &&& nxt.fs() == self.fs()
        &&& self.done() ==> r is None
        &&& self.ok() && !nxt.done() ==> nxt.ok()
        &&& !nxt.done() ==> forall|p: int| p >= nxt.pos() ==> #[trigger] nxt.at(p) == self.at(p)
        &&& r is None ==> nxt.done() && (self.done() || self.pos() >= self.end())
        &&& r matches Some(Ok(b)) ==> !self.done() && self.pos() < self.end() && !nxt.done() && nxt.pos() == self.pos() + 1 && b == self.at(self.pos())
        &&& r matches Some(Err(e)) ==> nxt.done() && self.pos() < self.end() && (e is Io || (e is Corrupt && !self.ok()))
    }
}
%% fn iters::file_blocks::FileBlocks::new
@props C01 C07 C08 C09 C10 C13
@ret r
@spec
    requires fs.wf(), inode.wf(&fs)
    ensures
        r matches Ok(x) ==> x.over(&fs, inode) && !x.done() && x.pos() == 0,
        r matches Err(e) ==> e is Corrupt && !layout_ok(&fs, inode),
@start
    proof { lemma_flags(); }
%% fn iters::file_blocks::FileBlocks@Iterator::next
@props C01 C02 C07 C08 C09 C10 C17
@ret r
@spec
    requires old(self).wf()
    ensures old(self).step(final(self), r)
%% module iters::file_blocks
/// Model of `core::iter::Skip<FileBlocks>`.
pub struct VxSkip<T> { pub iter: T, pub n: usize }
impl FileBlocks {
    /// `Iterator::nth`.
    pub fn nth(&mut self, n: usize) -> Option<Result<FsBlockIndex, Ext4Error>>
        requires old(self).wf()
        ensures final(self).wf()
    {
        let mut i = 0;
        while i < n
            invariant self.wf()
            decreases n - i
        {
            match self.next() { None => { return None; } Some(_) => {} }
            i = i + 1;
        }
        self.next()
    }
    /// `Iterator::skip`.
    pub fn skip(self, n: usize) -> (r: VxSkip<FileBlocks>)
        ensures r.iter == self, r.n == n
    { VxSkip { iter: self, n } }
}
impl VxSkip<FileBlocks> {
    pub fn next(&mut self) -> Option<Result<FsBlockIndex, Ext4Error>>
        requires old(self).iter.wf()
        ensures final(self).iter.wf()
    {
        if self.n > 0 {
            let n = self.n;
            self.n = 0;
            self.iter.nth(n)
        } else {
            self.iter.next()
        }
    }
}
