%% inimpl reader::File@Ext4Read
    open spec fn content(&self) -> Seq<u8> { self.bytes() }
%% fn reader::File@Ext4Read::read
@props C16
%% fn path::Path<'a>@TryFrom<&'acrate::vx::ffi::OsStr>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(p.bytes()), r matches Ok(x) ==> x.0@ == p.bytes()
%% fn path::Path<'a>@TryFrom<&'acrate::vx::path::Path>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(p.bytes()), r matches Ok(x) ==> x.0@ == p.bytes()
%% fn path::&'acrate::vx::path::Path@From<Path<'a>>::from
@props C14
@ret r
@spec
    ensures r.bytes() == p.0@
%% fn path::PathBuf@TryFrom<crate::vx::ffi::OsString>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(p.bytes()), r matches Ok(x) ==> x.0@ == p.bytes()
%% fn path::PathBuf@TryFrom<crate::vx::path::PathBuf>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(p.bytes()), r matches Ok(x) ==> x.0@ == p.bytes()
%% fn path::crate::vx::path::PathBuf@From<PathBuf>::from
@props C14
@ret r
@spec
    ensures r.bytes() == p.0@
%% fn lib::Ext4::load_from_path
@props C04 C16 C17
@ret r
@spec
    ensures
        r matches Ok(fs) ==> fs_is(&fs),
        r matches Err(e) ==> e is Io || load_err(e),
%% fn lib::Ext4::load_from_path::inner
@props C04 C16 C17
@ret r
@spec
    ensures
        r matches Ok(fs) ==> fs_is(&fs),
        r matches Err(e) ==> e is Io || load_err(e),
@closure 0 |e| -> (x: Ext4Error) ensures x is Io
@replace Box::new(e) ==> crate::vx::vx_boxed(e)
