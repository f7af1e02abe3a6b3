%% module dir_entry
/// A legal file name: 1 to 255 bytes, no NUL and no separator.
pub open spec fn name_ok(s: Seq<u8>) -> bool {
    &&& 1 <= s.len() <= 255
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0u8 && s[i] != 47u8
}
impl<'a> crate::vx::AsRefSpecImpl<[u8]> for DirEntryName<'a> {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { self.0@ }
    open spec fn as_ref_view(t: &[u8]) -> Seq<u8> { t@ }
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for DirEntryName<'a> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: &'a [u8]) -> Result<DirEntryName<'a>, DirEntryNameError> {
        if name_ok(s@) { Ok(DirEntryName(s)) } else { Err(name_err(s@)) }
    }
}
pub open spec fn name_err(s: Seq<u8>) -> DirEntryNameError {
    if s.len() == 0 { DirEntryNameError::Empty }
    else if s.len() > 255 { DirEntryNameError::TooLong }
    else if s.contains(0u8) { DirEntryNameError::ContainsNull }
    else { DirEntryNameError::ContainsSeparator }
}
impl<'a> DirEntryName<'a> {
    pub open spec fn wf(&self) -> bool { name_ok(self.0@) }
}
%% fn dir_entry::DirEntryName<'a>@TryFrom<&'a[u8]>::try_from
@props C14 C10
@start
    proof {
        assert(bytes@.contains(0u8) ==> !name_ok(bytes@)) by { if bytes@.contains(0u8) { let i = choose|i: int| 0 <= i < bytes@.len() && bytes@[i] == 0u8; } }
        assert(bytes@.contains(47u8) ==> !name_ok(bytes@)) by { if bytes@.contains(47u8) { let i = choose|i: int| 0 <= i < bytes@.len() && bytes@[i] == 47u8; } }
        if !bytes@.contains(0u8) && !bytes@.contains(47u8) && 1 <= bytes@.len() <= 255 {
            assert forall|i: int| 0 <= i < bytes@.len() implies #[trigger] bytes@[i] != 0u8 && bytes@[i] != 47u8 by {
                assert(bytes@.contains(bytes@[i]));
            }
        }
    }
%% fn dir_entry::DirEntryName::as_str
@props C14 C17
@ret r
@spec
    ensures r is Ok == is_utf8(self.0@), r matches Ok(x) ==> utf8_of(x) == self.0@
%% fn dir_entry::DirEntryName<'a>@TryFrom<&'a[u8;N]>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == name_ok(bytes@), r matches Ok(p) ==> p.0@ == bytes@
%% fn dir_entry::DirEntryName<'a>@TryFrom<&'astr>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == name_ok(utf8_of(s)), r matches Ok(p) ==> p.0@ == utf8_of(s)
%% module dir_entry
impl DirEntryNameBuf {
    pub open spec fn wf(&self) -> bool { self.len <= 255 && name_ok(self.name()) }
    pub open spec fn name(&self) -> Seq<u8> { self.data@.take(self.len as int) }
}
impl DirEntry {
    pub open spec fn name_bytes(&self) -> Seq<u8> { self.name.name() }
    pub open spec fn wf(&self) -> bool { self.fs.wf() && self.name.wf() && self.path.wf() }
}
/// The length of a directory record: the field holds 16 bits, and with 64 KiB
/// blocks 0 and 0xffff mean the whole block and the low two bits are the high ones.
pub open spec fn reclen(bs: int, v: u16) -> int {
    if bs < 65536 { v as int }
    else if v == 0 || v == 0xffff { 65536 }
    else { (v as int / 4) * 4 + (v as int % 4) * 65536 }
}
/// Why a directory record is refused.
pub open spec fn entry_err(bs: int, inode: InodeIndex, b: Seq<u8>, e: Ext4Error) -> bool {
    if b.len() < 8 { e == crate::error::corrupt(CorruptKind::DirEntryMissingHeader(inode, b.len() as usize)) }
    else if reclen(bs, le16(b, 4)) < 8 { e == crate::error::corrupt(CorruptKind::DirEntryRecordTooSmall(inode, reclen(bs, le16(b, 4)) as usize)) }
    else if le32(b, 0) == 0 { false }
    else if 8 + b[6] > b.len() { e == crate::error::corrupt(CorruptKind::DirEntryNameTooLarge(inode, b[6])) }
    else if crate::file_type::entry_type(b[7]) is None { e == crate::error::corrupt(CorruptKind::DirEntryInvalidFileType(inode, b[7])) }
    else { !name_ok(b.subrange(8, 8 + b[6])) && e == crate::error::corrupt(CorruptKind::DirEntryInvalidName(inode, name_err(b.subrange(8, 8 + b[6])))) }
}
/// The record at the start of `b` is a live entry.
pub open spec fn entry_live(bs: int, b: Seq<u8>) -> bool {
    b.len() >= 8 && reclen(bs, le16(b, 4)) >= 8 && le32(b, 0) != 0 && 8 + b[6] <= b.len()
        && crate::file_type::entry_type(b[7]) is Some && name_ok(b.subrange(8, 8 + b[6]))
}
/// `d` is the decoding of the record at the start of `b`.
pub open spec fn entry_is(b: Seq<u8>, d: &DirEntry) -> bool {
    d.inode@ == le32(b, 0) && d.name.wf() && d.name.name() == b.subrange(8, 8 + b[6]) && crate::file_type::entry_type(b[7]) == Some(d.file_type)
}
%% fn dir_entry::DirEntryNameBuf::as_bytes
@props C10 C01
@ret r
@spec
    ensures r@ == self.name()
%% fn dir_entry::DirEntryNameBuf::as_dir_entry_name
@props C10 C01
@ret r
@spec
    ensures r.0@ == self.name()
%% fn dir_entry::DirEntryNameBuf@PartialEq<Self>::eq
@props C10
@ret r
@spec
    ensures r == (self.name() == other.name())
%% fn dir_entry::DirEntryNameBuf@TryFrom<&[u8]>::try_from
@props C10 C01
@ret r
@spec
    ensures r is Ok == name_ok(bytes@), r matches Ok(n) ==> n.wf() && n.name() == bytes@,
        r matches Err(e) ==> e == name_err(bytes@)
@before ^Ok(name)
    proof { assert(name.name() =~= bytes@); }
%% fn dir_entry::decode_rec_len
@props C10 C05 C11
@ret r
@spec
    requires block_size <= 65536
    ensures r == reclen(block_size as int, rec_len)
@start
    proof {
        let v = rec_len as u32;
        assert(((v & 0xfffcu32) | ((v & 3u32) << 16u32)) == (v / 4) * 4 + (v % 4) * 65536) by (bit_vector) requires v <= 0xffff;
    }
%% fn dir_entry::DirEntry::from_bytes
@props C01 C10 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(t) ==> bytes@.len() >= 8 && t.1@ == reclen(fs.bs(), le16(bytes@, 4)) && t.1@ >= 8
            && (t.0 is None ==> le32(bytes@, 0) == 0)
            && (t.0 matches Some(d) ==> entry_live(fs.bs(), bytes@) && entry_is(bytes@, &d) && d.wf() && d.fs == fs && d.path == path),
        r matches Err(e) ==> entry_err(fs.bs(), inode, bytes@, e),
%% fn dir_entry::DirEntry::file_name
@props C10 C01
@ret r
@spec
    requires self.wf()
    ensures r.0@ == self.name_bytes(), r.wf()
%% fn dir_entry::DirEntry::path
@props C10 C14 C01
@ret r
@spec
    requires self.wf()
    ensures r.wf(), r.0@ == crate::path::join_bytes(self.path.0@, self.name_bytes())
@start
    proof { crate::path::lemma_name_ok(self.name_bytes()); }
%% fn dir_entry::DirEntry::file_type
@props C10 C18
@ret r
@spec
    ensures r matches Ok(t) && t == self.file_type
%% fn dir_entry::DirEntry::metadata
@props C10 C06 C17
@ret r
@spec
    requires self.wf()
    ensures r matches Ok(m) ==> exists|i: Inode| #[trigger] i.loaded(&self.fs) && i.index == self.inode && i.metadata == m,
        r matches Err(e) ==> crate::inode::inode_read_err(&self.fs, self.inode, e),
