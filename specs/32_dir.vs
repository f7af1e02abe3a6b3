%% module dir
use crate::dir_htree::{first_named, htree_fine, htree_hit, htree_miss, alg_of, root_block, lemma_first_named};
use crate::iters::read_dir::{dir_ents, Ent, ent_is};
use crate::iters::file_blocks::layout_ok;
pub open spec fn has_index(inode: &Inode) -> bool { inode.flags.0 & 0x1000 == 0x1000 }
/// C10/C11: `x` is the entry that looking up `name` finds.
pub open spec fn lookup_hit(fs: &Ext4, dir: &Inode, name: Seq<u8>, x: Ent) -> bool {
    if has_index(dir) { htree_hit(fs, dir, name, x) } else { first_named(dir_ents(fs, dir).ents, name) == Some(x) }
}
/// There is no entry `name`.
pub open spec fn lookup_miss(fs: &Ext4, dir: &Inode, name: Seq<u8>) -> bool {
    if has_index(dir) { htree_miss(fs, dir, name) } else { dir_ents(fs, dir).ok && first_named(dir_ents(fs, dir).ents, name) is None }
}
/// What a lookup reads is well formed.
pub open spec fn lookup_fine(fs: &Ext4, dir: &Inode, name: Seq<u8>) -> bool {
    if has_index(dir) { htree_fine(fs, dir, name) } else { layout_ok(fs, dir) && dir_ents(fs, dir).ok }
}
/// Why a lookup fails.
#[verifier::opaque]
pub open spec fn lookup_err(fs: &Ext4, dir: &Inode, name: Seq<u8>, e: Ext4Error) -> bool {
    ||| e is Io
    ||| e is Encrypted && dir.flags.0 & 0x800 == 0x800
    ||| dir.flags.0 & 0x800 != 0x800 && {
        ||| e is NotFound && lookup_miss(fs, dir, name)
        ||| e is Corrupt && !lookup_fine(fs, dir, name)
        ||| e is Incompatible && has_index(dir) && !crate::dir_htree::is_dots(name) && alg_of(root_block(fs, dir)[0x1c]) is None
        ||| e is Corrupt && exists|x: Ent, n: crate::inode::InodeIndex| #[trigger] lookup_hit(fs, dir, name, x) && n@ == x.ino && #[trigger] crate::inode::inode_read_err(fs, n, e)
    }
}
pub proof fn lemma_read_err(fs: &Ext4)
    ensures forall|n: crate::inode::InodeIndex, e: Ext4Error| #[trigger] crate::inode::inode_read_err(fs, n, e) ==> e is Io || e is Corrupt
{
    reveal(crate::inode::inode_read_err);
}
proof fn lemma_errs(fs: &Ext4, dir: &Inode, name: Seq<u8>)
    ensures
        forall|e: Ext4Error| e is Io ==> #[trigger] lookup_err(fs, dir, name, e),
        forall|e: Ext4Error| e is Encrypted && dir.flags.0 & 0x800 == 0x800 ==> #[trigger] lookup_err(fs, dir, name, e),
        dir.flags.0 & 0x800 != 0x800 ==> {
            &&& forall|e: Ext4Error| e is NotFound && lookup_miss(fs, dir, name) ==> #[trigger] lookup_err(fs, dir, name, e)
            &&& forall|e: Ext4Error| e is Corrupt && !lookup_fine(fs, dir, name) ==> #[trigger] lookup_err(fs, dir, name, e)
            &&& forall|e: Ext4Error| e is Incompatible && has_index(dir) && !crate::dir_htree::is_dots(name) && alg_of(root_block(fs, dir)[0x1c]) is None
                ==> #[trigger] lookup_err(fs, dir, name, e)
            &&& forall|x: Ent, n: crate::inode::InodeIndex, e: Ext4Error| #[trigger] lookup_hit(fs, dir, name, x) && n@ == x.ino
                && #[trigger] crate::inode::inode_read_err(fs, n, e) ==> lookup_err(fs, dir, name, e)
        }
{
    reveal(lookup_err);
    lemma_read_err(fs);
}
%% fn dir::get_dir_entry_inode_by_name
@props C01 C02 C05 C06 C10 C11 C13 C16 C17
@ret r
@spec
    requires fs.wf(), dir_inode.wf(fs), dir_inode.metadata.file_type is Directory, name.wf()
    ensures
        r matches Ok(i) ==> i.wf(fs) && i.loaded(fs) && dir_inode.flags.0 & 0x800 != 0x800
            && exists|x: Ent| #[trigger] lookup_hit(fs, dir_inode, name.0@, x) && x.ino == i.index@,
        r matches Err(e) ==> lookup_err(fs, dir_inode, name.0@, e),
@start
    hide(htree_hit);
    hide(htree_miss);
    hide(htree_fine);
    hide(layout_ok);
    hide(dir_ents);
    hide(ReadDir::rest);
    hide(ReadDir::wf);
    hide(ReadDir::layout);
    hide(Inode::wf);
    hide(Ext4::wf);
    proof {
        crate::iters::file_blocks::lemma_flags();
        lemma_errs(fs, dir_inode, name.0@);
    }
@before ^return Inode::read(fs, entry.inode);
    proof {
        let x = choose|x: Ent| #[trigger] htree_hit(fs, dir_inode, name.0@, x) && ent_is(&entry, x);
        assert(lookup_hit(fs, dir_inode, name.0@, x));
    }
@before ^if entry.file_name() == name
    proof {
        let x = vx_prev0.rest().ents[0];
        assert(x.name == name.0@ ==> lookup_hit(fs, dir_inode, name.0@, x));
    }
@loopbefore 0
    let ghost all = dir_ents(fs, dir_inode);
@loop 0
    invariant_except_break
        fs.wf(), dir_inode.wf(fs), name.wf(), !has_index(dir_inode), dir_inode.flags.0 & 0x800 != 0x800,
        all == dir_ents(fs, dir_inode),
        vx_it0.wf(), vx_it0.fs == *fs,
        layout_ok(fs, dir_inode) ==> vx_it0.layout(),
        first_named(vx_it0.rest().ents, name.0@) == first_named(all.ents, name.0@),
        vx_it0.rest().ok == all.ok,
    ensures all.ok && first_named(all.ents, name.0@) is None
    decreases vx_it0.rest().ents.len()
@loopstart 0
    proof { lemma_errs(fs, dir_inode, name.0@); }
