%% module dir_block
/// Kinds of directory block; which one decides what its checksum covers.
pub open spec fn is_leaf(d: &DirBlock, b: Seq<u8>) -> bool {
    !d.has_htree || (!d.is_first && crate::dir_entry::reclen(d.fs.bs(), le16(b, 4)) != d.fs.bs())
}
/// The bytes the checksum of a directory block is computed over.
pub open spec fn dir_csum_data(d: &DirBlock, b: Seq<u8>) -> Seq<u8> {
    if is_leaf(d, b) { d.checksum_base.data() + b.take(b.len() - 12) }
    else {
        let o = if d.is_first { 0x20int } else { 8int };
        d.checksum_base.data() + b.take(o + 8 * le16(b, o + 2)) + le_bytes32(le32(b, b.len() - 8)) + le_bytes32(0)
    }
}
/// The index entries counted in a non-leaf block do not fit in it.
pub open spec fn count_bad(d: &DirBlock, b: Seq<u8>) -> bool {
    let o = if d.is_first { 0x20int } else { 8int };
    !is_leaf(d, b) && o + 8 * le16(b, o + 2) > b.len()
}
pub open spec fn dir_csum_bad(d: &DirBlock, b: Seq<u8>) -> bool {
    d.fs.sb().has_csum() && (count_bad(d, b) || le32(b, b.len() - 4) != crc32c(d.checksum_base.seed(), dir_csum_data(d, b)))
}
impl<'a> DirBlock<'a> {
    pub open spec fn wf(&self) -> bool { self.fs.wf() && self.checksum_base.wf() }
}
/// What a refused directory block read may report.
pub open spec fn dir_read_err(d: &DirBlock, e: Ext4Error) -> bool {
    ||| d.fs.block_read_err(d.block_index, 0, d.fs.bs(), e)
    ||| e == crate::error::corrupt(CorruptKind::DirBlockChecksum(d.dir_inode)) && d.fs.readable(d.block_index, 0, d.fs.bs())
        && dir_csum_bad(d, d.fs.block(d.block_index))
}
%% fn dir_block::DirBlock::read
@props C01 C05 C10 C11 C16 C17
@ret r
@spec
    requires self.wf(), old(block)@.len() == self.fs.bs()
    ensures
        final(block)@.len() == old(block)@.len(),
        r is Ok ==> self.fs.readable(self.block_index, 0, self.fs.bs()) && final(block)@ == self.fs.block(self.block_index)
            && !dir_csum_bad(self, final(block)@),
        r matches Err(e) ==> dir_read_err(self, e),
@before ^if !self.fs.has_metadata_checksums()
    proof { assert(block@ =~= self.fs.block(self.block_index)); }
%% fn dir_block::DirBlock::read_expected_checksum
@props C05 C01
@ret r
@spec
    requires block@.len() >= 1024
    ensures r == le32(block@, block@.len() - 4)
%% fn dir_block::DirBlock::calc_leaf_checksum
@props C05 C01
@ret r
@spec
    requires block@.len() >= 1024, self.checksum_base.wf()
    ensures r.wf(), r.seed() == self.checksum_base.seed(), r.data() == self.checksum_base.data() + block@.take(block@.len() - 12)
@before ^checksum
    proof { assert(block@.take(block@.len() - 12) =~= block@.subrange(0, block@.len() - 12)); }
%% fn dir_block::DirBlock::calc_internal_checksum
@props C05 C01 C17
@ret r
@spec
    requires block@.len() >= 1024, self.checksum_base.wf(), !(block_type is Leaf)
    ensures
        ({
            let o = if block_type is Root { 0x20int } else { 8int };
            &&& r matches Ok(c) ==> c.wf() && c.seed() == self.checksum_base.seed() && o + 8 * le16(block@, o + 2) <= block@.len()
                && c.data() == self.checksum_base.data() + block@.take(o + 8 * le16(block@, o + 2)) + le_bytes32(le32(block@, block@.len() - 8)) + le_bytes32(0)
            &&& r matches Err(e) ==> e == crate::error::corrupt(CorruptKind::DirBlockChecksum(self.dir_inode)) && o + 8 * le16(block@, o + 2) > block@.len()
        })
@before ^let mut checksum
    proof { assert(covered@ =~= block@.take(num_bytes as int)); }
%% fn dir_block::DirBlock::get_block_type
@props C05 C11 C01
@ret r
@spec
    requires block@.len() >= 1024, self.fs.wf()
    ensures
        (r is Leaf) == is_leaf(self, block@),
        r is Root ==> self.is_first, r is Internal ==> !self.is_first,
