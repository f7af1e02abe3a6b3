%% module file_type
/// The `i_mode` file-type field as the format defines it.
pub open spec fn mode_type(m: u16) -> Option<FileType> {
    let t = m & 0xf000;
    if t == 0x1000 { Some(FileType::Fifo) }
    else if t == 0x2000 { Some(FileType::CharacterDevice) }
    else if t == 0x4000 { Some(FileType::Directory) }
    else if t == 0x6000 { Some(FileType::BlockDevice) }
    else if t == 0x8000 { Some(FileType::Regular) }
    else if t == 0xa000 { Some(FileType::Symlink) }
    else if t == 0xc000 { Some(FileType::Socket) }
    else { None }
}
/// The directory entry file-type byte as the format defines it.
pub open spec fn entry_type(v: u8) -> Option<FileType> {
    if v == 1 { Some(FileType::Regular) }
    else if v == 2 { Some(FileType::Directory) }
    else if v == 3 { Some(FileType::CharacterDevice) }
    else if v == 4 { Some(FileType::BlockDevice) }
    else if v == 5 { Some(FileType::Fifo) }
    else if v == 6 { Some(FileType::Socket) }
    else if v == 7 { Some(FileType::Symlink) }
    else { None }
}
%% fn file_type::FileType::from_dir_entry
@props C18 C10
@ret r
@spec
    ensures r is Ok == entry_type(val) is Some, r matches Ok(t) ==> entry_type(val) == Some(t)
%% module file_type
impl vstd::std_specs::convert::TryFromSpecImpl<InodeMode> for FileType {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(m: InodeMode) -> Result<FileType, FileTypeError> {
        match mode_type(m.0) { Some(t) => Ok(t), None => Err(FileTypeError) }
    }
}
%% fn file_type::FileType@TryFrom<InodeMode>::try_from
@props C18 C06
%% fn file_type::FileType::is_block_dev
@props C18
@ret r
@spec
    ensures r == (self is BlockDevice)
%% fn file_type::FileType::is_char_dev
@props C18
@ret r
@spec
    ensures r == (self is CharacterDevice)
%% fn file_type::FileType::is_dir
@props C18
@ret r
@spec
    ensures r == (self is Directory)
%% fn file_type::FileType::is_fifo
@props C18
@ret r
@spec
    ensures r == (self is Fifo)
%% fn file_type::FileType::is_regular_file
@props C18
@ret r
@spec
    ensures r == (self is Regular)
%% fn file_type::FileType::is_socket
@props C18
@ret r
@spec
    ensures r == (self is Socket)
%% fn file_type::FileType::is_symlink
@props C18
@ret r
@spec
    ensures r == (self is Symlink)
%% fn metadata::Metadata::file_type
@props C18
@ret r
@spec
    ensures r == self.file_type
%% fn metadata::Metadata::is_dir
@props C18
@ret r
@spec
    ensures r == (self.file_type is Directory)
%% fn metadata::Metadata::is_symlink
@props C18
@ret r
@spec
    ensures r == (self.file_type is Symlink)
%% fn metadata::Metadata::len
@props C18 C06
@ret r
@spec
    ensures r == self.size_in_bytes
%% fn metadata::Metadata::mode
@props C18 C06
@ret r
@spec
    ensures r == self.mode.0 & 0xfff
%% fn metadata::Metadata::uid
@props C18 C06
@ret r
@spec
    ensures r == self.uid
%% fn metadata::Metadata::gid
@props C18 C06
@ret r
@spec
    ensures r == self.gid

%% module inode
pub open spec fn div_ceil(a: int, b: int) -> int { (a + b - 1) / b }
/// Byte position of the record of inode `n` on the filesystem.
pub open spec fn inode_pos(ext4: &Ext4, n: int) -> int {
    let ipg = ext4.sb().inodes_per_block_group@ as int;
    ext4.bgds()[(n - 1) / ipg].inode_table_first_block * ext4.bs() + ((n - 1) % ipg) * ext4.sb().inode_size
}
pub open spec fn inode_in_fs(ext4: &Ext4, n: int) -> bool {
    (n - 1) / (ext4.sb().inodes_per_block_group@ as int) < ext4.bgds().len()
}
/// The bytes of the record of inode `n`.
pub open spec fn inode_bytes(ext4: &Ext4, n: int) -> Seq<u8> {
    let pos = inode_pos(ext4, n);
    ext4.block((pos / ext4.bs()) as u64).subrange(pos % ext4.bs(), pos % ext4.bs() + ext4.sb().inode_size)
}
pub open spec fn inode_size_of(d: Seq<u8>) -> u64 { hilo64(le32(d, 0x6c), le32(d, 4)) }
/// The upper half of the checksum is present: the record is large enough and its extra size includes it.
pub open spec fn has_hi(d: Seq<u8>) -> bool { d.len() >= 0x84 && le16(d, 0x80) >= 4 }
pub open spec fn inode_csum_stored(d: Seq<u8>) -> u32 { hilo32(if has_hi(d) { le16(d, 0x82) } else { 0 }, le16(d, 0x7c)) }
/// Field-by-field decoding of an inode record.
pub open spec fn inode_decodes(ext4: &Ext4, n: int, d: Seq<u8>, i: &Inode) -> bool {
    &&& d.len() >= 128
    &&& i.index@ == n
    &&& i.inline_data@ == d.subrange(0x28, 0x64)
    &&& i.flags.0 == le32(d, 0x20)
    &&& i.metadata.size_in_bytes == inode_size_of(d)
    &&& i.metadata.mode.0 == le16(d, 0)
    &&& crate::file_type::mode_type(le16(d, 0)) == Some(i.metadata.file_type)
    &&& i.metadata.uid == hilo32(le16(d, 0x78), le16(d, 2))
    &&& i.metadata.gid == hilo32(le16(d, 0x7a), le16(d, 0x18))
    &&& i.checksum_base.wf()
    &&& i.checksum_base.seed() == ext4.sb().checksum_seed
    &&& i.checksum_base.data() == le_bytes32(n as u32) + le_bytes32(le32(d, 0x64))
    &&& i.file_size_in_blocks == div_ceil(inode_size_of(d) as int, ext4.bs())
}
/// What the checksum of an inode covers: its number, generation and record, with the stored checksum as zeros.
pub open spec fn inode_covered(n: int, d: Seq<u8>) -> Seq<u8> {
    if has_hi(d) {
        le_bytes32(n as u32) + le_bytes32(le32(d, 0x64)) + d.take(0x7c) + le_bytes16(0) + d.subrange(0x7e, 0x82) + le_bytes16(0) + d.skip(0x84)
    } else {
        le_bytes32(n as u32) + le_bytes32(le32(d, 0x64)) + d.take(0x7c) + le_bytes16(0) + d.skip(0x7e)
    }
}
pub open spec fn inode_csum(ext4: &Ext4, n: int, d: Seq<u8>) -> u32 {
    let c = crc32c(ext4.sb().checksum_seed, inode_covered(n, d));
    if has_hi(d) { c } else { c & 0xffff }
}
pub open spec fn inode_csum_bad(ext4: &Ext4, n: int, d: Seq<u8>) -> bool {
    ext4.sb().has_csum() && inode_csum_stored(d) != inode_csum(ext4, n, d)
}
/// Why an inode record is refused.
pub open spec fn inode_err(ext4: &Ext4, n: InodeIndex, d: Seq<u8>, e: Ext4Error) -> bool {
    ||| e == crate::error::corrupt(CorruptKind::InodeTruncated { inode: n, size: d.len() as usize }) && d.len() < 128
    ||| e == crate::error::corrupt(CorruptKind::TooManyBlocksInFile) && d.len() >= 128
        && div_ceil(inode_size_of(d) as int, ext4.bs()) > u32::MAX
    ||| e == crate::error::corrupt(CorruptKind::InodeFileType { inode: n, mode: InodeMode(le16(d, 0)) }) && d.len() >= 128
        && crate::file_type::mode_type(le16(d, 0)) is None
}
impl Inode {
    pub open spec fn wf(&self, ext4: &Ext4) -> bool {
        &&& self.checksum_base.wf()
        &&& self.checksum_base.seed() == ext4.sb().checksum_seed
        &&& self.file_size_in_blocks == div_ceil(self.metadata.size_in_bytes as int, ext4.bs())
    }
    /// The inode was read from its place, verified and decoded.
    #[verifier::opaque]
    pub open spec fn loaded(&self, ext4: &Ext4) -> bool {
        let n = self.index@ as int;
        &&& inode_in_fs(ext4, n)
        &&& ext4.readable((inode_pos(ext4, n) / ext4.bs()) as u64, inode_pos(ext4, n) % ext4.bs(), ext4.sb().inode_size as int)
        &&& inode_decodes(ext4, n, inode_bytes(ext4, n), self)
        &&& !inode_csum_bad(ext4, n, inode_bytes(ext4, n))
    }
}
%% fn inode::Inode::has_checksum_hi
@props C01 C05
@ret r
@spec
    requires data@.len() >= 128
    ensures r == has_hi(data@)
%% fn inode::Inode::from_bytes
@props C01 C05 C06 C17
@ret r
@spec
    requires ext4.wf(), data@.len() <= 65536
    ensures
        r matches Ok(t) ==> inode_decodes(ext4, index@ as int, data@, &t.0) && t.0.index == index
            && (ext4.sb().has_csum() ==> t.1 == inode_csum_stored(data@)),
        r matches Err(e) ==> inode_err(ext4, index, data@, e),
@before ^let i_mode =
    let ghost d = data@;
@before ^Ok((
    proof {
        assert(i_block@ =~= d.subrange(0x28, 0x64));
        assert(checksum_base.data() =~= le_bytes32(index@) + le_bytes32(le32(d, 0x64)));
    }
%% fn inode::Inode::read
@props C01 C05 C06 C16 C17
@ret r
@spec
    requires ext4.wf()
    ensures
        r matches Ok(i) ==> i.index == inode && i.wf(ext4) && i.loaded(ext4),
        r matches Err(e) ==> inode_read_err(ext4, inode, e),
@start
    let ghost n = inode@ as int;
    proof { reveal(Inode::loaded); reveal(inode_read_err); }
@before ^if ext4.has_metadata_checksums()
    proof { assert(data@ =~= inode_bytes(ext4, n)); assert(inode_decodes(ext4, n, inode_bytes(ext4, n), &inode)); }
@before ^if actual_checksum != expected_checksum
    proof { assert(checksum.data() =~= inode_covered(inode.index@ as int, data@)); }
%% module inode
#[verifier::opaque]
pub open spec fn inode_read_err(ext4: &Ext4, n: InodeIndex, e: Ext4Error) -> bool {
    let d = inode_bytes(ext4, n@ as int);
    let pos = inode_pos(ext4, n@ as int);
    ||| e is Corrupt && !inode_in_fs(ext4, n@ as int)
    ||| e is Corrupt && inode_in_fs(ext4, n@ as int) && pos > u64::MAX
    ||| inode_in_fs(ext4, n@ as int) && pos <= u64::MAX
        && ext4.block_read_err((pos / ext4.bs()) as u64, (pos % ext4.bs()) as u32, ext4.sb().inode_size as int, e)
    ||| inode_in_fs(ext4, n@ as int) && inode_err(ext4, n, d, e)
    ||| inode_in_fs(ext4, n@ as int) && e == crate::error::corrupt(CorruptKind::InodeChecksum(n)) && inode_csum_bad(ext4, n@ as int, d)
}
%% fn inode::get_inode_location
@props C01 C06 C17
@ret r
@spec
    requires ext4.wf()
    ensures
        r matches Ok(t) ==> inode_in_fs(ext4, inode@ as int) && inode_pos(ext4, inode@ as int) <= u64::MAX
            && t.0 == inode_pos(ext4, inode@ as int) / ext4.bs() && t.1 == inode_pos(ext4, inode@ as int) % ext4.bs(),
        r matches Err(e) ==> e is Corrupt && (inode_in_fs(ext4, inode@ as int) ==> inode_pos(ext4, inode@ as int) > u64::MAX),
@start
    proof {
        // The index within the group, however it is computed.
        let n = inode@ - 1;
        let d = ext4.sb().inodes_per_block_group@ as int;
        assert(0 <= (n / d) * d <= n && n - (n / d) * d == n % d && d * (n / d) == (n / d) * d) by (nonlinear_arith) requires n >= 0, d > 0;
    }
%% module inode
use crate::path::PathError;
/// C13: the target of a symlink: up to 59 bytes inline, else the file content.
#[verifier::opaque]
pub open spec fn link_bytes(fs: &Ext4, i: &Inode) -> Seq<u8> {
    if i.metadata.size_in_bytes <= 59 { i.inline_data@.take(i.metadata.size_in_bytes as int) } else { crate::content(fs, i) }
}
/// The target can be read and is a legal path.
pub open spec fn link_ok(fs: &Ext4, i: &Inode) -> bool {
    &&& i.metadata.size_in_bytes > 0
    &&& i.metadata.size_in_bytes > 59 ==> crate::file_ok(fs, i)
    &&& crate::path::path_ok(link_bytes(fs, i))
}
/// Why the target of a symlink cannot be read.
#[verifier::opaque]
pub open spec fn link_err(fs: &Ext4, i: &Inode, e: Ext4Error) -> bool { e is Io || e is FileTooLarge || (e is Corrupt && !link_ok(fs, i)) }
%% fn inode::Inode::symlink_target
@props C01 C13 C17
@ret r
@spec
    requires ext4.wf(), self.wf(ext4)
    ensures
        r matches Ok(p) ==> p.wf() && self.metadata.file_type is Symlink && self.metadata.size_in_bytes > 0
            && p.0@ == link_bytes(ext4, self) && p.0@.len() > 0,
        r matches Err(e) ==> if self.metadata.file_type is Symlink { link_err(ext4, self, e) } else { e is NotASymlink },
@start
    proof { reveal(link_err); reveal(link_bytes); }
@closure 0 |_vx: PathError| -> (e: Ext4Error) ensures e is Corrupt
@closure 1 |_vx: PathError| -> (e: Ext4Error) ensures e is Corrupt
%% fn inode::Inode::file_size_in_blocks
@props C07 C08 C09
@ret r
@spec
    ensures r == self.file_size_in_blocks
