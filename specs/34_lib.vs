%% module lib
/// Following `path` may lead to the inode `i`.
pub open spec fn found(fs: &Ext4, path: Seq<u8>, all: bool, i: &Inode) -> bool {
    exists|c: Seq<u8>| #[trigger] resolve::resolves(fs, path, all, resolve::Out::Found(*i, c))
}
/// Following `path` may fail with `e`.
pub open spec fn fails(fs: &Ext4, path: Seq<u8>, all: bool, e: Ext4Error) -> bool {
    resolve::resolves(fs, path, all, resolve::Out::Fail(e))
}
/// C17: reading the whole file at `path` can give `out`.
pub open spec fn read_is(fs: &Ext4, path: Seq<u8>, out: Result<Seq<u8>, Ext4Error>) -> bool {
    ||| exists|i: Inode| #[trigger] found(fs, path, true, &i) && (match out {
            Ok(v) => i.metadata.file_type is Regular && v == content(fs, &i),
            Err(e) => open_err(fs, &i, e),
        })
    ||| (out matches Err(e) && fails(fs, path, true, e))
}
/// Why the inode at the end of the path cannot be read as a file.
pub open spec fn open_err(fs: &Ext4, i: &Inode, e: Ext4Error) -> bool {
    match i.metadata.file_type {
        FileType::Directory => e is IsADirectory,
        FileType::Regular => e is Io || e is FileTooLarge || (e is Corrupt && !file_ok(fs, i)),
        _ => e is IsASpecialFile,
    }
}
/// C17: reading the link at `path` can give `out`.
pub open spec fn read_link_is(fs: &Ext4, path: Seq<u8>, out: Result<Seq<u8>, Ext4Error>) -> bool {
    ||| exists|i: Inode| #[trigger] found(fs, path, false, &i) && (match out {
            Ok(v) => i.metadata.file_type is Symlink && v == crate::inode::link_bytes(fs, &i),
            Err(e) => if i.metadata.file_type is Symlink { crate::inode::link_err(fs, &i, e) } else { e is NotASymlink },
        })
    ||| (out matches Err(e) && fails(fs, path, false, e))
}
/// C17: why listing the directory at `path` fails.
pub open spec fn read_dir_err(fs: &Ext4, path: Seq<u8>, e: Ext4Error) -> bool {
    ||| fails(fs, path, true, e)
    ||| exists|i: Inode| #[trigger] found(fs, path, true, &i) && (
            if !(i.metadata.file_type is Directory) { e is NotADirectory }
            else if i.flags.0 & 0x800 == 0x800 { e is Encrypted }
            else { e is Corrupt && !crate::iters::file_blocks::layout_ok(fs, &i) })
}
/// The listing `d` is the one of the directory at `path`.
pub open spec fn read_dir_is(fs: &Ext4, path: Seq<u8>, d: &ReadDir) -> bool {
    exists|i: Inode| #[trigger] found(fs, path, true, &i) && i.metadata.file_type is Directory
        && d.rest() == crate::iters::read_dir::dir_ents(fs, &i) && i.flags.0 & 0x800 != 0x800
}
/// The text of the argument of a public function, for the conversions of this crate.
pub open spec fn arg_ok<'p, P: crate::vx::VxTryInto<Path<'p>>>(path: P) -> bool {
    forall|p: Path<'p>| #[trigger] path.vx_is(p) ==> p.wf()
}
%% fn lib::Ext4::path_to_inode
@props C13 C17
@ret r
@spec
    requires self.wf(), path.wf()
    ensures
        r matches Ok(i) ==> i.wf(self) && i.loaded(self) && found(self, path.0@, follow is All, &i),
        r matches Err(e) ==> fails(self, path.0@, follow is All, e),
@closure 0 |v: (Inode, PathBuf)| -> (q: Inode) ensures q == v.0
%% fn lib::Ext4::canonicalize
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(c) ==> c.wf() && resolve::canonical(self, c.0@, true)
            && exists|p: Path<'p>, i: Inode| #[trigger] path.vx_is(p) && #[trigger] resolve::resolves(self, p.0@, true, resolve::Out::Found(i, c.0@)),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && fails(self, p.0@, true, e),
@closure 1 |v: (Inode, PathBuf)| -> (q: PathBuf) ensures q == v.1
@start
    proof { resolve::lemma_canonical_any(self, true); }
%% fn lib::Ext4::open
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(f) ==> f.wf() && f.fs == *self && f.position == 0 && f.block_index is None && !f.file_blocks.done()
            && exists|p: Path<'p>| #[trigger] path.vx_is(p) && found(self, p.0@, true, &f.inode) && f.inode.metadata.file_type is Regular,
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_is(self, p.0@, Err(e)),
%% fn file::File::open
@props C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(f) ==> f.wf() && f.fs == *fs && f.position == 0 && f.block_index is None && !f.file_blocks.done()
            && crate::found(fs, path.0@, true, &f.inode) && f.inode.metadata.file_type is Regular,
        r matches Err(e) ==> crate::read_is(fs, path.0@, Err(e)),
%% fn lib::Ext4::read::inner
@props C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(v) ==> read_is(fs, path.0@, Ok(v@)),
        r matches Err(e) ==> read_is(fs, path.0@, Err(e)),
%% fn lib::Ext4::read
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(v) ==> exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_is(self, p.0@, Ok(v@)),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_is(self, p.0@, Err(e)),
%% fn lib::Ext4::read_to_string::inner
@props C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(v) ==> read_is(fs, path.0@, Ok(crate::vx::utf8_of_string(v))),
        r matches Err(e) ==> read_is(fs, path.0@, Err(e)) || (e is NotUtf8 && exists|v: Seq<u8>| #[trigger] read_is(fs, path.0@, Ok(v)) && !crate::vx::is_utf8(v)),
%% fn lib::Ext4::read_to_string
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(v) ==> exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_is(self, p.0@, Ok(crate::vx::utf8_of_string(v))),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p)
            && (read_is(self, p.0@, Err(e)) || (e is NotUtf8 && exists|v: Seq<u8>| #[trigger] read_is(self, p.0@, Ok(v)) && !crate::vx::is_utf8(v))),
%% fn lib::Ext4::read_link::inner
@props C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(v) ==> v.wf() && read_link_is(fs, path.0@, Ok(v.0@)),
        r matches Err(e) ==> read_link_is(fs, path.0@, Err(e)),
%% fn lib::Ext4::read_link
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(v) ==> v.wf() && exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_link_is(self, p.0@, Ok(v.0@)),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_link_is(self, p.0@, Err(e)),
%% fn lib::Ext4::read_dir::inner
@props C10 C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(d) ==> d.wf() && d.fs == *fs && d.path.0@ == path.0@ && read_dir_is(fs, path.0@, &d),
        r matches Err(e) ==> read_dir_err(fs, path.0@, e),
%% fn lib::Ext4::read_dir
@props C10 C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(d) ==> d.wf() && exists|p: Path<'p>| #[trigger] path.vx_is(p) && d.path.0@ == p.0@ && read_dir_is(self, p.0@, &d),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && read_dir_err(self, p.0@, e),
%% fn lib::Ext4::exists::inner
@props C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(b) ==> if b { exists|i: Inode| #[trigger] found(fs, path.0@, true, &i) } else { fails(fs, path.0@, true, Ext4Error::NotFound) },
        r matches Err(e) ==> !(e is NotFound) && fails(fs, path.0@, true, e),
%% fn lib::Ext4::exists
@props C13 C17
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(b) ==> exists|p: Path<'p>| #[trigger] path.vx_is(p)
            && if b { exists|i: Inode| #[trigger] found(self, p.0@, true, &i) } else { fails(self, p.0@, true, Ext4Error::NotFound) },
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && !(e is NotFound) && fails(self, p.0@, true, e),
%% fn lib::Ext4::metadata::inner
@props C13 C17 C18
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(m) ==> exists|i: Inode| #[trigger] found(fs, path.0@, true, &i) && m == i.metadata && i.loaded(fs),
        r matches Err(e) ==> fails(fs, path.0@, true, e),
%% fn lib::Ext4::metadata
@props C13 C17 C18
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(m) ==> exists|p: Path<'p>, i: Inode| #[trigger] path.vx_is(p) && #[trigger] found(self, p.0@, true, &i) && m == i.metadata && i.loaded(self),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && fails(self, p.0@, true, e),
%% fn lib::Ext4::symlink_metadata::inner
@props C13 C17 C18
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(m) ==> exists|i: Inode| #[trigger] found(fs, path.0@, false, &i) && m == i.metadata && i.loaded(fs),
        r matches Err(e) ==> fails(fs, path.0@, false, e),
%% fn lib::Ext4::symlink_metadata
@props C13 C17 C18
@ret r
@spec
    requires self.wf(), arg_ok(path)
    ensures
        r matches Ok(m) ==> exists|p: Path<'p>, i: Inode| #[trigger] path.vx_is(p) && #[trigger] found(self, p.0@, false, &i) && m == i.metadata && i.loaded(self),
        r matches Err(e) ==> (e is MalformedPath && !path.vx_ok()) || exists|p: Path<'p>| #[trigger] path.vx_is(p) && fails(self, p.0@, false, e),
%% module path
// What the public functions take as a path, in terms of the verified conversions.
impl<'a> crate::vx::VxTryInto<Path<'a>> for Path<'a> {
    type VxError = ();
    open spec fn vx_ok(self) -> bool { true }
    open spec fn vx_is(self, u: Path<'a>) -> bool { u == self }
    fn vx_try_into(self) -> Result<Path<'a>, ()> { Ok(self) }
}
impl<'a> crate::vx::VxTryInto<Path<'a>> for &'a str {
    type VxError = PathError;
    open spec fn vx_ok(self) -> bool { path_ok(utf8_of(self)) }
    open spec fn vx_is(self, u: Path<'a>) -> bool { u.0@ == utf8_of(self) && u.wf() }
    fn vx_try_into(self) -> Result<Path<'a>, PathError> { <Path<'a> as TryFrom<&'a str>>::try_from(self) }
}
impl<'a> crate::vx::VxTryInto<Path<'a>> for &'a String {
    type VxError = PathError;
    open spec fn vx_ok(self) -> bool { path_ok(utf8_of_string(*self)) }
    open spec fn vx_is(self, u: Path<'a>) -> bool { u.0@ == utf8_of_string(*self) && u.wf() }
    fn vx_try_into(self) -> Result<Path<'a>, PathError> { <Path<'a> as TryFrom<&'a String>>::try_from(self) }
}
impl<'a> crate::vx::VxTryInto<Path<'a>> for &'a [u8] {
    type VxError = PathError;
    open spec fn vx_ok(self) -> bool { path_ok(self@) }
    open spec fn vx_is(self, u: Path<'a>) -> bool { u.0@ == self@ && u.wf() }
    fn vx_try_into(self) -> Result<Path<'a>, PathError> { <Path<'a> as TryFrom<&'a [u8]>>::try_from(self) }
}
impl<'a, const N: usize> crate::vx::VxTryInto<Path<'a>> for &'a [u8; N] {
    type VxError = PathError;
    open spec fn vx_ok(self) -> bool { path_ok(self@) }
    open spec fn vx_is(self, u: Path<'a>) -> bool { u.0@ == self@ && u.wf() }
    fn vx_try_into(self) -> Result<Path<'a>, PathError> { <Path<'a> as TryFrom<&'a [u8; N]>>::try_from(self) }
}
/// The public functions accept every form of path: the argument condition holds.
pub proof fn lemma_args<'a>(p: Path<'a>, s: &'a str, g: &'a String, b: &'a [u8])
    ensures p.wf() ==> crate::arg_ok(p), crate::arg_ok(s), crate::arg_ok(g), crate::arg_ok(b)
{}
