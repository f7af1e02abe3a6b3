%% module format
use crate::vx::{Formatter as VxF, VxEscape};
/// C18: the text form of bytes in `Debug`: quoted, valid UTF-8 with special characters escaped, other bytes as ASCII escapes.
pub open spec fn debug_text(s: Seq<u8>) -> Seq<u8> {
    seq![0x22u8] + (if is_utf8(s) { crate::vx::escaped_utf8(s) } else { crate::vx::escaped_ascii(s) }) + seq![0x22u8]
}
%% fn format::format_bytes_debug
@props C18
@ret r
@spec
    ensures VxF::wrote_all(old(f), final(f), r, debug_text(bytes@))
%% fn format::BytesDisplay::vx_display
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, crate::vx::lossy(self.0@))
%% module uuid
use crate::vx::{Formatter as VxF, VxHex, hex2};
/// C18: the five groups of lower-case digits of a UUID.
pub open spec fn dash() -> Seq<u8> { seq![0x2du8] }
pub open spec fn uuid_text(b: Seq<u8>) -> Seq<u8> {
    hex2(b[0]) + hex2(b[1]) + hex2(b[2]) + hex2(b[3]) + dash() + hex2(b[4]) + hex2(b[5]) + dash() + hex2(b[6]) + hex2(b[7]) + dash() + hex2(b[8]) + hex2(b[9]) + dash() + hex2(b[10]) + hex2(b[11]) + hex2(b[12]) + hex2(b[13]) + hex2(b[14]) + hex2(b[15])
}
proof fn lemma_app(t: Seq<u8>, p: Seq<u8>, q: Seq<u8>) ensures t + p + q == t + (p + q) { assert(t + p + q =~= t + (p + q)); }
proof fn lemma_uuid(t: Seq<u8>, b: Seq<u8>)
    requires b.len() == 16
    ensures t + hex2(b[0]) + hex2(b[1]) + hex2(b[2]) + hex2(b[3]) + dash() + hex2(b[4]) + hex2(b[5]) + dash() + hex2(b[6]) + hex2(b[7]) + dash() + hex2(b[8]) + hex2(b[9]) + dash() + hex2(b[10]) + hex2(b[11]) + hex2(b[12]) + hex2(b[13]) + hex2(b[14]) + hex2(b[15]) == t + uuid_text(b)
{
    hide(hex2);
    let p1 = hex2(b[0]);
    let p2 = p1 + hex2(b[1]); lemma_app(t, p1, hex2(b[1]));
    let p3 = p2 + hex2(b[2]); lemma_app(t, p2, hex2(b[2]));
    let p4 = p3 + hex2(b[3]); lemma_app(t, p3, hex2(b[3]));
    let p5 = p4 + dash(); lemma_app(t, p4, dash());
    let p6 = p5 + hex2(b[4]); lemma_app(t, p5, hex2(b[4]));
    let p7 = p6 + hex2(b[5]); lemma_app(t, p6, hex2(b[5]));
    let p8 = p7 + dash(); lemma_app(t, p7, dash());
    let p9 = p8 + hex2(b[6]); lemma_app(t, p8, hex2(b[6]));
    let p10 = p9 + hex2(b[7]); lemma_app(t, p9, hex2(b[7]));
    let p11 = p10 + dash(); lemma_app(t, p10, dash());
    let p12 = p11 + hex2(b[8]); lemma_app(t, p11, hex2(b[8]));
    let p13 = p12 + hex2(b[9]); lemma_app(t, p12, hex2(b[9]));
    let p14 = p13 + dash(); lemma_app(t, p13, dash());
    let p15 = p14 + hex2(b[10]); lemma_app(t, p14, hex2(b[10]));
    let p16 = p15 + hex2(b[11]); lemma_app(t, p15, hex2(b[11]));
    let p17 = p16 + hex2(b[12]); lemma_app(t, p16, hex2(b[12]));
    let p18 = p17 + hex2(b[13]); lemma_app(t, p17, hex2(b[13]));
    let p19 = p18 + hex2(b[14]); lemma_app(t, p18, hex2(b[14]));
    let p20 = p19 + hex2(b[15]); lemma_app(t, p19, hex2(b[15]));
}
%% fn uuid::Uuid::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, uuid_text(self.0@))
@start
    hide(hex2);
    proof { lemma_uuid(f.text(), self.0@); }
%% fn uuid::Uuid::vx_display
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, uuid_text(self.0@))
%% fn label::Label::vx_debug
@props C18
@ret r
@spec
    ensures crate::vx::Formatter::wrote(old(f), final(f), r, crate::format::debug_text(self.0@.take(nul_len(self.0@))))
%% fn label::Label::display
@props C18
@ret r
@spec
    ensures r.0@ == self.0@.take(nul_len(self.0@))
%% module path
use crate::vx::Formatter as VxF;
use crate::format::debug_text;
%% fn path::Path::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, debug_text(self.0@))
%% fn path::PathBuf::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, debug_text(self.0@))
%% fn path::Path::display
@props C18
@ret r
@spec
    ensures r.0@ == self.0@
%% fn path::PathBuf::display
@props C18
@ret r
@spec
    ensures r.0@ == self.0@
%% module path
/// "Normal(", "RootDir", "CurDir", "ParentDir"
pub open spec fn comp_text(c: Component) -> Seq<u8> {
    match c {
        Component::RootDir => seq![82u8, 111, 111, 116, 68, 105, 114],
        Component::CurDir => seq![67u8, 117, 114, 68, 105, 114],
        Component::ParentDir => seq![80u8, 97, 114, 101, 110, 116, 68, 105, 114],
        Component::Normal(n) => seq![78u8, 111, 114, 109, 97, 108, 40] + debug_text(n.0@) + seq![41u8],
    }
}
%% fn path::Component::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote_all(old(f), final(f), r, comp_text(*self))
%% module dir_entry
use crate::vx::Formatter as VxF;
use crate::format::debug_text;
%% fn dir_entry::DirEntryName::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, debug_text(self.0@))
%% fn dir_entry::DirEntryName::display
@props C18
@ret r
@spec
    ensures r.0@ == self.0@
%% fn dir_entry::DirEntryNameBuf::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote(old(f), final(f), r, debug_text(self.name()))
%% module iters::read_dir
use crate::vx::Formatter as VxF;
%% fn iters::read_dir::ReadDir::vx_debug
@props C18
@ret r
@spec
    ensures VxF::wrote_all(old(f), final(f), r, seq![82u8, 101, 97, 100, 68, 105, 114, 40, 34] + crate::format::debug_text(self.path.0@) + seq![34u8, 41])
%% module path
impl<T: AsRef<[u8]>> vstd::std_specs::cmp::PartialEqSpecImpl<T> for Path<'_> {
    open spec fn obeys_eq_spec() -> bool { crate::vx::ref_obeys::<T>() }
    open spec fn eq_spec(&self, o: &T) -> bool { self.0@ == crate::vx::ref_bytes(o) }
}
impl<T: AsRef<[u8]>> vstd::std_specs::cmp::PartialEqSpecImpl<T> for PathBuf {
    open spec fn obeys_eq_spec() -> bool { crate::vx::ref_obeys::<T>() }
    open spec fn eq_spec(&self, o: &T) -> bool { self.0@ == crate::vx::ref_bytes(o) }
}
/// The bytes a component stands for.
pub open spec fn comp_bytes(c: &Component) -> Seq<u8> {
    match c { Component::RootDir => seq![0x2fu8], Component::CurDir => seq![0x2eu8], Component::ParentDir => seq![0x2eu8, 0x2eu8], Component::Normal(n) => n.0@ }
}
impl<T: AsRef<[u8]>> vstd::std_specs::cmp::PartialEqSpecImpl<T> for Component<'_> {
    open spec fn obeys_eq_spec() -> bool { crate::vx::ref_obeys::<T>() }
    open spec fn eq_spec(&self, o: &T) -> bool { comp_bytes(self) == crate::vx::ref_bytes(o) }
}
%% fn path::Path<'_>@PartialEq<T>::eq
@props C14
%% fn path::PathBuf@PartialEq<T>::eq
@props C14
@replace self.0 == other.as_ref() ==> self.0.as_slice() == other.as_ref()
%% fn path::Component<'_>@PartialEq<T>::eq
@props C14
@start
    proof {
        broadcast use crate::vx::ax_bytes_of;
        assert(([0x2fu8])@ =~= seq![0x2fu8]);
        assert(([0x2eu8])@ =~= seq![0x2eu8]);
        assert(([0x2eu8, 0x2eu8])@ =~= seq![0x2eu8, 0x2eu8]);
    }
@replace other == b"/" ==> *other == *([0x2fu8]).as_slice()
@replace other == b"." ==> *other == *([0x2eu8]).as_slice()
@replace other == b".." ==> *other == *([0x2eu8, 0x2eu8]).as_slice()
%% fn path::Path<'a>@AsRef<[u8]>::as_ref
@props C14
%% fn path::PathBuf@AsRef<[u8]>::as_ref
@props C14
%% fn dir_entry::DirEntryName<'a>@AsRef<[u8]>::as_ref
@props C14
%% fn reader::Vec<u8>@Ext4Read::read
@props C16
%% fn error::Ext4Error@From<CorruptKind>::from
@props C17
%% fn error::Ext4Error@From<IncompatibleKind>::from
@props C17
%% fn block_size::BlockSize@PartialEq<u32>::eq
@props C04
%% fn block_size::u16@PartialEq<BlockSize>::eq
@props C04
%% fn block_size::u32@PartialEq<BlockSize>::eq
@props C04
%% fn block_size::usize@PartialEq<BlockSize>::eq
@props C04
%% fn block_size::u16@PartialOrd<BlockSize>::partial_cmp
@props C04
%% fn block_size::u32@PartialOrd<BlockSize>::partial_cmp
@props C04
%% fn block_size::usize@PartialOrd<BlockSize>::partial_cmp
@props C04
