%% module lib
/// Every block of the file can be found and read.
pub open spec fn file_ok(fs: &Ext4, inode: &Inode) -> bool {
    &&& crate::iters::file_blocks::layout_ok(fs, inode)
    &&& forall|i: int| 0 <= i < inode.metadata.size_in_bytes ==> {
            let b = #[trigger] crate::iters::file_blocks::inode_at(fs, inode, i / fs.bs());
            b == 0 || fs.readable(b, i % fs.bs(), 1)
        }
}
/// The bytes of the file.
pub open spec fn content(fs: &Ext4, inode: &Inode) -> Seq<u8> {
    Seq::new(inode.metadata.size_in_bytes as nat, |i: int| crate::file::file_byte(fs, inode, i))
}
pub proof fn lemma_file_err(fs: &Ext4, inode: &Inode, i: int, e: Ext4Error)
    requires 0 <= i < inode.metadata.size_in_bytes, crate::file::file_err(fs, inode, i, e)
    ensures e is Io || (e is Corrupt && !file_ok(fs, inode))
{
    let b = crate::iters::file_blocks::inode_at(fs, inode, i / fs.bs());
}
pub proof fn lemma_not_ok(fs: &Ext4, inode: &Inode)
    requires !crate::iters::file_blocks::layout_ok(fs, inode)
    ensures !file_ok(fs, inode)
{}
%% fn lib::Ext4::read_inode_file
@props C01 C02 C07 C08 C09 C13 C17
@ret r
@spec
    requires self.wf(), inode.wf(self)
    ensures
        r matches Ok(v) ==> v@ == content(self, inode),
        r matches Err(e) ==> e is Io || e is FileTooLarge || (e is Corrupt && !file_ok(self, inode)),
@attr #[verifier::rlimit(30)]
@loopbefore 0
    let ghost mut pre: Seq<u8> = Seq::empty();
    let ghost size = inode.metadata.size_in_bytes as int;
@loop 0
    invariant
        self.wf(), inode.wf(self), file.wf(), file.fs == *self, file.inode == *inode,
        !file.file_blocks.done(),
        size == inode.metadata.size_in_bytes,
        pre.len() == file.position, file.position + remaining@.len() == size,
        final(remaining)@.len() == remaining@.len(),
        after_borrow(dst)@ == pre + final(remaining)@,
        forall|k: int| 0 <= k < pre.len() ==> #[trigger] pre[k] == crate::file::file_byte(self, inode, k),
    ensures file.position == size
    decreases remaining@.len()
@start
    hide(crate::file::file_byte);
    hide(crate::file::file_err);
    hide(file_ok);
    hide(crate::iters::file_blocks::layout_ok);
    hide(File::wf);
    hide(Ext4::wf);
    hide(crate::inode::Inode::wf);
    hide(crate::iters::file_blocks::FileBlocks::done);
    proof { if !crate::iters::file_blocks::layout_ok(self, inode) { lemma_not_ok(self, inode); } }
@loopstart 0
    let ghost p0 = file.position as int;
    proof {
        assert forall|e: Ext4Error| p0 < size && #[trigger] crate::file::file_err(self, inode, p0, e) implies e is Io || (e is Corrupt && !file_ok(self, inode)) by {
            lemma_file_err(self, inode, p0, e);
        }
    }
@before ^if bytes_read == 0 {
    let ghost pre0 = pre;
    let ghost t = remaining@.take(bytes_read as int);
    let ghost f0 = final(remaining)@;
    proof {
        pre = pre + t;
        assert(t.len() == bytes_read);
        assert(pre.len() == file.position);
        assert forall|k: int| 0 <= k < pre.len() implies #[trigger] pre[k] == crate::file::file_byte(self, inode, k) by {
            if k < pre0.len() { assert(pre[k] == pre0[k]); } else { assert(pre[k] == remaining@[k - p0]); }
        }
    }
@loopend 0
    proof { assert(pre + final(remaining)@ =~= pre0 + f0); }
@replace let mut remaining = dst.as_mut(); ==> let mut remaining: &mut [u8] = dst.as_mut();
