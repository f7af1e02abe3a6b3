%% module dir_entry
impl<T: AsRef<[u8]>> vstd::std_specs::cmp::PartialEqSpecImpl<T> for DirEntryName<'_> {
    open spec fn obeys_eq_spec() -> bool { crate::vx::ref_obeys::<T>() }
    open spec fn eq_spec(&self, o: &T) -> bool { self.0@ == crate::vx::ref_bytes(o) }
}
%% fn dir_entry::DirEntryName<'_>@PartialEq<T>::eq
@props C10 C11 C13 C14
%% module dir_htree
use crate::iters::read_dir::{blk_of, ctx_of, ent_is, ent_of, block_ents, record_bad, dir_ents, dir_block_ents, ents_from, Ctx, Ent, Listing};
use crate::iters::file_blocks::{has_extents, inode_at, inode_end, layout_ok, tree_of};
use crate::dir_entry::{entry_is, entry_live, reclen};
use crate::dir_block::dir_csum_bad;
/// Index entries in use: the header counts them.
pub open spec fn node_fits(b: Seq<u8>) -> bool { b.len() >= 8 && 8 * le16(b, 2) <= b.len() }
pub open spec fn node_ents(b: Seq<u8>) -> Seq<u8> { b.take(8 * le16(b, 2)) }
pub open spec fn n_of(e: Seq<u8>) -> int { e.len() as int / 8 }
pub open spec fn key(e: Seq<u8>, i: int) -> u32 { if i == 0 { 0 } else { le32(e, 8 * i) } }
pub open spec fn child(e: Seq<u8>, i: int) -> u32 { le32(e, 8 * i + 4) }
/// Entry `i` is the one to follow for hash `h`: the last one whose key is not above it.
pub open spec fn chosen(e: Seq<u8>, h: u32, i: int) -> bool {
    0 <= i < n_of(e) && key(e, i) <= h && (i + 1 == n_of(e) || key(e, i + 1) > h)
}
/// The first extent that covers position `p`.
pub open spec fn ext_find(exts: Seq<Extent>, p: int) -> Option<Extent> decreases exts.len() {
    if exts.len() == 0 || exts[0].block_within_file + exts[0].num_blocks > u32::MAX { None }
    else if exts[0].block_within_file <= p < exts[0].block_within_file + exts[0].num_blocks { Some(exts[0]) }
    else { ext_find(exts.skip(1), p) }
}
/// `x` is block `p` of the directory.
pub open spec fn rel_is(fs: &Ext4, inode: &Inode, p: int, x: u64) -> bool {
    if has_extents(inode) {
        match ext_find(tree_of(fs, inode).exts, p) { Some(e) => x == e.start_block + (p - e.block_within_file), None => false }
    } else { 0 <= p < inode_end(fs, inode) && x == inode_at(fs, inode, p) }
}
/// Directory block `x` can be read and its checksum is right.
pub open spec fn dir_block_ok(fs: &Ext4, inode: &Inode, first: bool, x: u64) -> bool {
    fs.readable(x, 0, fs.bs()) && !dir_csum_bad(&blk_of(&ctx_of(fs, inode), first, x), fs.block(x))
}
/// C11: following hash `h` from a node with entries `e`, `d` levels above the leaves, leads to a leaf block with these bytes.
pub open spec fn leads(fs: &Ext4, inode: &Inode, h: u32, e: Seq<u8>, d: int, leaf: Seq<u8>) -> bool decreases d {
    exists|i: int, x: u64| #[trigger] chosen(e, h, i) && #[trigger] rel_is(fs, inode, child(e, i) as int, x) && dir_block_ok(fs, inode, false, x)
        && if d <= 0 { leaf == fs.block(x) } else { node_fits(fs.block(x).skip(8)) && leads(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1, leaf) }
}
/// Every child that hash `h` can lead to exists and is well formed.
pub open spec fn fine(fs: &Ext4, inode: &Inode, h: u32, e: Seq<u8>, d: int) -> bool decreases d {
    &&& n_of(e) > 0
    &&& forall|i: int| #[trigger] chosen(e, h, i) ==> exists|x: u64| #[trigger] rel_is(fs, inode, child(e, i) as int, x)
    &&& forall|i: int, x: u64| #[trigger] chosen(e, h, i) && #[trigger] rel_is(fs, inode, child(e, i) as int, x) ==> dir_block_ok(fs, inode, false, x)
        && (d > 0 ==> node_fits(fs.block(x).skip(8)) && fine(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1))
}
pub open spec fn root_block(fs: &Ext4, inode: &Inode) -> Seq<u8> { fs.block(inode_at(fs, inode, 0)) }
pub open spec fn alg_of(v: u8) -> Option<HashAlg> { if v == 1 { Some(HashAlg::HalfMd4) } else if v == 2 { Some(HashAlg::Tea) } else { None } }
/// The hash of `name` in this directory.
pub open spec fn name_hash(fs: &Ext4, b: Seq<u8>, name: Seq<u8>) -> u32 {
    crate::dir_entry_hash::dir_hash(alg_of(b[0x1c])->0, name, fs.sb().htree_hash_seed@)
}
/// A leaf block that the index of a directory with root block `b` leads to for `name`.
pub open spec fn leaf_for(fs: &Ext4, inode: &Inode, b: Seq<u8>, name: Seq<u8>, leaf: Seq<u8>) -> bool {
    alg_of(b[0x1c]) is Some && node_fits(b.skip(0x20)) && leads(fs, inode, name_hash(fs, b, name), node_ents(b.skip(0x20)), b[0x1e] as int, leaf)
}
pub open spec fn index_fine(fs: &Ext4, inode: &Inode, b: Seq<u8>, name: Seq<u8>) -> bool {
    alg_of(b[0x1c]) is Some ==> layout_ok(fs, inode) && node_fits(b.skip(0x20)) && fine(fs, inode, name_hash(fs, b, name), node_ents(b.skip(0x20)), b[0x1e] as int)
}
impl<'a> InternalNode<'a> {
    pub open spec fn wf(&self) -> bool { self.entries@.len() % 8 == 0 && n_of(self.entries@) <= 0xffff }
}
%% fn dir_htree::InternalNode::new
@props C01 C11 C17
@ret r
@spec
    ensures
        r matches Ok(n) ==> n.wf() && node_fits(bytes@) && n.entries@ == node_ents(bytes@),
        r matches Err(e) ==> e is Corrupt && !node_fits(bytes@),
%% fn dir_htree::InternalNode::from_root_block
@props C01 C11 C17
@ret r
@spec
    requires block@.len() >= 1024
    ensures
        r matches Ok(n) ==> n.wf() && node_fits(block@.skip(0x20)) && n.entries@ == node_ents(block@.skip(0x20)),
        r matches Err(e) ==> e is Corrupt && !node_fits(block@.skip(0x20)),
@start
    proof { assert(block@.subrange(0x20, block@.len() as int) =~= block@.skip(0x20)); }
%% fn dir_htree::InternalNode::from_non_root_block
@props C01 C11 C17
@ret r
@spec
    requires block@.len() >= 1024
    ensures
        r matches Ok(n) ==> n.wf() && node_fits(block@.skip(8)) && n.entries@ == node_ents(block@.skip(8)),
        r matches Err(e) ==> e is Corrupt && !node_fits(block@.skip(8)),
@start
    proof { assert(block@.subrange(8, block@.len() as int) =~= block@.skip(8)); }
%% fn dir_htree::InternalNode::get_entry
@props C01 C11
@ret r
@spec
    requires self.wf(), index < n_of(self.entries@)
    ensures r.0 == key(self.entries@, index as int), r.1 == child(self.entries@, index as int)
%% fn dir_htree::InternalNode::num_entries
@props C01 C11
@ret r
@spec
    requires self.wf()
    ensures r == n_of(self.entries@)
%% fn dir_htree::InternalNode::lookup_block_by_hash
@props C01 C02 C11
@ret r
@spec
    requires self.wf()
    ensures
        r is None == (n_of(self.entries@) == 0),
        r matches Some(b) ==> exists|i: int| #[trigger] chosen(self.entries@, lookup_hash, i) && b == child(self.entries@, i),
@loop 0
    invariant
        self.wf(), 0 <= left <= n_of(self.entries@), 0 <= right < n_of(self.entries@), left <= right + 1,
        left > 0 ==> key(self.entries@, left - 1) <= lookup_hash,
        right + 1 == n_of(self.entries@) || key(self.entries@, right + 1) > lookup_hash,
    decreases right + 1 - left
@before ^let index =
    proof { assert(left > 0 ==> chosen(self.entries@, lookup_hash, left - 1)); }
%% fn dir_htree::read_root_block
@props C01 C02 C05 C11 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs), old(block)@.len() == fs.bs(), inode.flags.0 & 0x1000 == 0x1000
    ensures
        final(block)@.len() == fs.bs(),
        r is Ok ==> inode_end(fs, inode) > 0 && final(block)@ == root_block(fs, inode) && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0)),
        r matches Err(e) ==> e is Io || (e is Corrupt && !(layout_ok(fs, inode) && inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0)))),
%% fn dir_htree::read_dot_or_dotdot
@props C01 C10 C11 C13 C17
@ret r
@spec
    requires fs.wf(), name.wf(), block@.len() >= 1024
    ensures
        r matches Ok(None) ==> name.0@ != dot() && name.0@ != dotdot(),
        r matches Ok(Some(d)) ==> is_dots(name.0@) && dots_live(fs.bs(), block@, name.0@) && ent_is(&d, ent_of(block@.skip(dot_at(name.0@))))
            && d.wf() && d.fs == fs,
        r matches Err(e) ==> e is Corrupt && is_dots(name.0@) && !dots_live(fs.bs(), block@, name.0@),
@start
    proof {
        lemma_dots();
        assert(block@.subrange(0, block@.len() as int) =~= block@.skip(0));
        assert(block@.subrange(12, block@.len() as int) =~= block@.skip(12));
    }
@closure 0 || -> (e: Ext4Error) ensures e is Corrupt
%% module dir_htree
pub open spec fn dot() -> Seq<u8> { seq![46u8] }
pub open spec fn dotdot() -> Seq<u8> { seq![46u8, 46u8] }
pub open spec fn is_dots(n: Seq<u8>) -> bool { n == dot() || n == dotdot() }
/// The entries "." and ".." are at fixed places in the root block.
pub open spec fn dot_at(n: Seq<u8>) -> int { if n == dot() { 0 } else { 12 } }
pub open spec fn dots_live(bs: int, b: Seq<u8>, n: Seq<u8>) -> bool { entry_live(bs, b.skip(dot_at(n))) && ent_of(b.skip(dot_at(n))).name == n }
pub proof fn lemma_dots()
    ensures crate::vx::utf8_of(".") == dot(), crate::vx::utf8_of("..") == dotdot()
{
    reveal_strlit(".");
    reveal_strlit("..");
    assert("."@ =~= seq!['.']);
    assert(".."@ =~= seq!['.', '.']);
    vstd::utf8::is_ascii_chars_encode_utf8("."@);
    vstd::utf8::is_ascii_chars_encode_utf8(".."@);
    assert(crate::vx::utf8_of(".") =~= dot());
    assert(crate::vx::utf8_of("..") =~= dotdot());
}

%% fn dir_htree::find_extent_for_block
@props C01 C02 C07 C11 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs), has_extents(inode)
    ensures
        r matches Ok(e) ==> ext_find(tree_of(fs, inode).exts, block as int) == Some(e) && e.block_within_file <= block,
        r matches Err(e) ==> e is Io || (e is Corrupt && !(layout_ok(fs, inode) && ext_find(tree_of(fs, inode).exts, block as int) is Some)),
@loop 0
    invariant_except_break
        vx_it0.wf(), !vx_it0.is_done, has_extents(inode),
        ext_find(vx_it0.rest().exts, block as int) == ext_find(tree_of(fs, inode).exts, block as int),
        vx_it0.rest().ok == tree_of(fs, inode).ok,
    ensures ext_find(tree_of(fs, inode).exts, block as int) is None
    decreases vx_it0.rest().exts.len()
%% fn dir_htree::block_from_file_block
@props C01 C02 C07 C08 C11 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs)
    ensures
        r matches Ok(x) ==> rel_is(fs, inode, relative_block as int, x),
        r matches Err(e) ==> e is Io || (e is Corrupt && !(layout_ok(fs, inode) && exists|x: u64| #[trigger] rel_is(fs, inode, relative_block as int, x))),
@start
    proof { crate::iters::file_blocks::lemma_flags(); }
@for 0 crate::vx::vx_range_of::<u32>($E)
@loop 0
    invariant
        fs.wf(), inode.wf(fs), !has_extents(inode),
        block_map.over(fs, inode), !block_map.done(), block_map.pos() == vx_it0.lo, 0 <= vx_it0.lo <= relative_block, vx_it0.hi == relative_block,
    ensures vx_it0.lo == relative_block
    decreases relative_block - vx_it0.lo
%% fn dir_htree::find_leaf_node
@props C01 C02 C05 C11 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs), name.wf(), old(block)@.len() == fs.bs(), inode.flags.0 & 0x1000 == 0x1000
    ensures
        final(block)@.len() == fs.bs(),
        r is Ok ==> leaf_for(fs, inode, old(block)@, name.0@, final(block)@),
        r matches Err(e) ==> e is Io || (e is Incompatible && alg_of(old(block)@[0x1c]) is None)
            || (e is Corrupt && !index_fine(fs, inode, old(block)@, name.0@)),
@loopbefore 0
    let ghost b0 = old(block)@;
    let ghost root = node_ents(b0.skip(0x20));
    let ghost mut e = root;
    let ghost mut i = choose|i: int| #[trigger] chosen(root, hash, i) && child_block_relative == child(root, i);
@loop 0
    invariant
        fs.wf(), inode.wf(fs), block@.len() == fs.bs(), inode.flags.0 & 0x1000 == 0x1000,
        alg_of(b0[0x1c]) is Some, node_fits(b0.skip(0x20)), hash == name_hash(fs, b0, name.0@), depth == b0[0x1e],
        root == node_ents(b0.skip(0x20)), b0 == old(block)@,
        vx_it0.hi == depth, vx_it0.lo <= depth,
        !vx_it0.done ==> chosen(e, hash, i) && child_block_relative == child(e, i)
            && (fine(fs, inode, hash, root, depth as int) ==> fine(fs, inode, hash, e, depth - vx_it0.lo))
            && (forall|leaf: Seq<u8>| #[trigger] leads(fs, inode, hash, e, depth - vx_it0.lo, leaf) ==> leads(fs, inode, hash, root, depth as int, leaf)),
        vx_it0.done ==> leads(fs, inode, hash, root, depth as int, block@),
    ensures leads(fs, inode, hash, root, depth as int, block@)
    decreases (if vx_it0.done { 0 } else { 1 + depth - vx_it0.lo })
@before ^dir_block.read(block)?
    proof {
        if index_fine(fs, inode, b0, name.0@) { lemma_fine(fs, inode, hash, e, depth - level, i, block_index); }
    }
@loopend 0
    proof {
        let d = depth - level;
        let e0 = e;
        let bs = fs.block(block_index);
        if level == depth {
            assert(leads(fs, inode, hash, e0, d, bs));
        } else {
            e = node_ents(bs.skip(8));
            i = choose|i: int| #[trigger] chosen(e, hash, i) && child_block_relative == child(e, i);
            assert forall|leaf: Seq<u8>| #[trigger] leads(fs, inode, hash, e, d - 1, leaf) implies leads(fs, inode, hash, root, depth as int, leaf) by {
                assert(leads(fs, inode, hash, e0, d, leaf));
            }
        }
    }
%% module dir_htree
pub proof fn lemma_fine(fs: &Ext4, inode: &Inode, h: u32, e: Seq<u8>, d: int, i: int, x: u64)
    requires fine(fs, inode, h, e, d), chosen(e, h, i), rel_is(fs, inode, child(e, i) as int, x)
    ensures dir_block_ok(fs, inode, false, x),
        d > 0 ==> node_fits(fs.block(x).skip(8)) && n_of(node_ents(fs.block(x).skip(8))) > 0 && fine(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1)
{ reveal_with_fuel(fine, 2); }
pub proof fn lemma_hit(fs: &Ext4, inode: &Inode, name: Seq<u8>, leaf: Seq<u8>)
    requires inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0)), !is_dots(name),
        leaf_for(fs, inode, root_block(fs, inode), name, leaf)
    ensures ({
        let l = block_ents(fs.bs(), leaf, 0);
        &&& first_named(l.ents, name) matches Some(x) ==> htree_hit(fs, inode, name, x)
        &&& first_named(l.ents, name) is None && l.ok ==> htree_miss(fs, inode, name)
        &&& !l.ok ==> !htree_fine(fs, inode, name)
    })
{}
pub proof fn lemma_hit_dots(fs: &Ext4, inode: &Inode, name: Seq<u8>)
    requires inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0)),
        is_dots(name), dots_live(fs.bs(), root_block(fs, inode), name)
    ensures htree_hit(fs, inode, name, ent_of(root_block(fs, inode).skip(dot_at(name))))
{}
/// The first entry with this name.
pub open spec fn first_named(s: Seq<Ent>, name: Seq<u8>) -> Option<Ent> decreases s.len() {
    if s.len() == 0 { None } else if s[0].name == name { Some(s[0]) } else { first_named(s.skip(1), name) }
}
/// C11: the entry that the lookup through the index finds.
pub open spec fn htree_hit(fs: &Ext4, inode: &Inode, name: Seq<u8>, x: Ent) -> bool {
    let b = root_block(fs, inode);
    &&& inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0))
    &&& if is_dots(name) { dots_live(fs.bs(), b, name) && x == ent_of(b.skip(dot_at(name))) }
        else { exists|leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, name, leaf) && first_named(block_ents(fs.bs(), leaf, 0).ents, name) == Some(x) }
}
/// The lookup through the index finds that there is no such entry.
pub open spec fn htree_miss(fs: &Ext4, inode: &Inode, name: Seq<u8>) -> bool {
    let b = root_block(fs, inode);
    &&& inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0))
    &&& !is_dots(name)
    &&& exists|leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, name, leaf)
        && block_ents(fs.bs(), leaf, 0).ok && first_named(block_ents(fs.bs(), leaf, 0).ents, name) is None
}
/// Everything the lookup needs is well formed.
pub open spec fn htree_fine(fs: &Ext4, inode: &Inode, name: Seq<u8>) -> bool {
    let b = root_block(fs, inode);
    &&& layout_ok(fs, inode) && inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0))
    &&& if is_dots(name) { dots_live(fs.bs(), b, name) }
        else { index_fine(fs, inode, b, name) && forall|leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, name, leaf) ==> block_ents(fs.bs(), leaf, 0).ok }
}
%% fn dir_htree::get_dir_entry_via_htree
@props C01 C02 C05 C10 C11 C12 C17
@ret r
@spec
    requires fs.wf(), inode.wf(fs), name.wf(), inode.flags.0 & 0x1000 == 0x1000
    ensures
        r matches Ok(d) ==> d.wf() && d.fs == *fs && exists|x: Ent| #[trigger] htree_hit(fs, inode, name.0@, x) && ent_is(&d, x),
        r matches Err(e) ==> e is Io || (e is NotFound && htree_miss(fs, inode, name.0@))
            || (e is Corrupt && !htree_fine(fs, inode, name.0@))
            || (e is Incompatible && !is_dots(name.0@) && alg_of(root_block(fs, inode)[0x1c]) is None),
@start
    hide(htree_hit);
    hide(htree_miss);
    hide(leaf_for);
    hide(layout_ok);
    proof { crate::iters::file_blocks::lemma_flags(); }
@before ^return Ok(entry);
    proof { lemma_hit_dots(fs, inode, name.0@); }
@before ^return Ok(dir_entry);
    proof { lemma_hit(fs, inode, name.0@, leaf); assert(ent_is(&dir_entry, ent_of(r))); }
@loopbefore 0
    proof { lemma_hit(fs, inode, name.0@, block@); }
    let ghost leaf = block@;
    let ghost ents = block_ents(fs.bs(), leaf, 0);
@loop 0
    invariant
        fs.wf(), path.wf(), block@ == leaf, leaf.len() == fs.bs(), name.wf(),
        inode_end(fs, inode) > 0 && dir_block_ok(fs, inode, true, inode_at(fs, inode, 0)),
        !is_dots(name.0@), leaf_for(fs, inode, root_block(fs, inode), name.0@, leaf),
        ents == block_ents(fs.bs(), leaf, 0),
        first_named(ents.ents, name.0@) == first_named(block_ents(fs.bs(), leaf, offset_within_block as int).ents, name.0@),
        ents.ok == block_ents(fs.bs(), leaf, offset_within_block as int).ok,
    decreases (if offset_within_block < leaf.len() { leaf.len() - offset_within_block } else { 0 })
@loopstart 0
    let ghost o = offset_within_block as int;
    let ghost r = leaf.skip(o);
    let ghost cur = block_ents(fs.bs(), leaf, o);
    proof {
        assert(block@.subrange(o, leaf.len() as int) =~= r);
        let t = block_ents(fs.bs(), leaf, o + reclen(fs.bs(), le16(r, 4)));
        if !record_bad(fs.bs(), r) && le32(r, 0) != 0 {
            assert(cur.ents.skip(1) =~= t.ents);
            assert(cur.ents[0] == ent_of(r));
        }
    }
%% module dir_htree
/// A well-formed index: "." and ".." come first, and every other entry is in the leaf block its hash leads to.
pub open spec fn index_wf(fs: &Ext4, inode: &Inode) -> bool {
    let b = root_block(fs, inode);
    let c = ctx_of(fs, inode);
    let d0 = dir_block_ents(&c, true, inode_at(fs, inode, 0)).ents;
    &&& inode_end(fs, inode) > 0 && dir_ents(fs, inode).ok
    &&& d0.len() == 2 && d0[0] == ent_of(b.skip(0)) && d0[0].name == dot() && d0[1] == ent_of(b.skip(12)) && d0[1].name == dotdot()
    &&& forall|name: Seq<u8>, leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, name, leaf) ==> in_dir(fs, inode, leaf)
    &&& forall|p: int, k: int, leaf: Seq<u8>| 1 <= p < inode_end(fs, inode) && 0 <= k < ents_at(fs, inode, p).len()
            && #[trigger] leaf_for(fs, inode, b, (#[trigger] ents_at(fs, inode, p)[k]).name, leaf) ==> leaf == fs.block(inode_at(fs, inode, p))
    &&& forall|p: int, k: int| 1 <= p < inode_end(fs, inode) && 0 <= k < ents_at(fs, inode, p).len() ==> !is_dots((#[trigger] ents_at(fs, inode, p)[k]).name)
}
pub open spec fn ents_at(fs: &Ext4, inode: &Inode, p: int) -> Seq<Ent> { block_ents(fs.bs(), fs.block(inode_at(fs, inode, p)), 0).ents }
pub open spec fn in_dir(fs: &Ext4, inode: &Inode, leaf: Seq<u8>) -> bool {
    exists|p: int| 1 <= p < inode_end(fs, inode) && leaf == fs.block(#[trigger] inode_at(fs, inode, p))
}
pub proof fn lemma_first_named(a: Seq<Ent>, b: Seq<Ent>, name: Seq<u8>)
    ensures
        first_named(a + b, name) == (if first_named(a, name) is Some { first_named(a, name) } else { first_named(b, name) }),
        first_named(a, name) is Some ==> exists|k: int| 0 <= k < a.len() && (#[trigger] a[k]).name == name,
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_first_named(a.skip(1), b, name);
        if a[0].name != name && first_named(a, name) is Some {
            let k = choose|k: int| 0 <= k < a.skip(1).len() && (#[trigger] a.skip(1)[k]).name == name;
            assert(a[k + 1].name == name);
        }
    }
}
/// In blocks `p`.. of the directory, `name` can only be in the leaf block `leaf`.
proof fn lemma_from(fs: &Ext4, inode: &Inode, name: Seq<u8>, leaf: Seq<u8>, p: int)
    requires
        index_wf(fs, inode), !is_dots(name), leaf_for(fs, inode, root_block(fs, inode), name, leaf), 1 <= p <= inode_end(fs, inode),
        ents_from(&ctx_of(fs, inode), |q: int| inode_at(fs, inode, q), p, inode_end(fs, inode)).ok,
    ensures ({
        let r = first_named(ents_from(&ctx_of(fs, inode), |q: int| inode_at(fs, inode, q), p, inode_end(fs, inode)).ents, name);
        let x = first_named(block_ents(fs.bs(), leaf, 0).ents, name);
        &&& r is None || r == x
        &&& (exists|q: int| p <= q < inode_end(fs, inode) && leaf == fs.block(#[trigger] inode_at(fs, inode, q))) ==> r == x
    })
    decreases inode_end(fs, inode) - p
{
    let end = inode_end(fs, inode);
    let at = |q: int| inode_at(fs, inode, q);
    let c = ctx_of(fs, inode);
    if p < end {
        let b = dir_block_ents(&c, false, at(p));
        let rest = ents_from(&c, at, p + 1, end);
        assert(ents_from(&c, at, p, end) == crate::iters::read_dir::then(b, rest));
        assert(b.ok && rest.ok);
        assert(b.ents == ents_at(fs, inode, p));
        lemma_first_named(b.ents, rest.ents, name);
        lemma_from(fs, inode, name, leaf, p + 1);
        if first_named(b.ents, name) is Some {
            let k = choose|k: int| 0 <= k < b.ents.len() && (#[trigger] b.ents[k]).name == name;
            assert(leaf_for(fs, inode, root_block(fs, inode), ents_at(fs, inode, p)[k].name, leaf));
            assert(leaf == fs.block(inode_at(fs, inode, p)));
        }
    }
}
/// C11: in a directory with a well-formed index, the lookup through the index and a scan of the whole directory agree.
pub proof fn theorem_index(fs: &Ext4, inode: &Inode, name: Seq<u8>)
    requires index_wf(fs, inode)
    ensures
        forall|x: Ent| #[trigger] htree_hit(fs, inode, name, x) ==> first_named(dir_ents(fs, inode).ents, name) == Some(x),
        htree_miss(fs, inode, name) ==> first_named(dir_ents(fs, inode).ents, name) is None,
{
    let end = inode_end(fs, inode);
    let at = |q: int| inode_at(fs, inode, q);
    let c = ctx_of(fs, inode);
    let b = root_block(fs, inode);
    let d0 = dir_block_ents(&c, true, at(0));
    let rest = ents_from(&c, at, 1, end);
    assert(dir_ents(fs, inode) == crate::iters::read_dir::then(d0, rest));
    assert(d0.ok && rest.ok);
    lemma_first_named(d0.ents, rest.ents, name);
    reveal_with_fuel(first_named, 3);
    assert(d0.ents.skip(1)[0] == d0.ents[1]);
    assert(dot() != dotdot()) by { assert(dot().len() != dotdot().len()); }
    if !is_dots(name) {
        assert(first_named(d0.ents, name) is None);
        assert forall|leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, name, leaf) implies
            first_named(dir_ents(fs, inode).ents, name) == first_named(block_ents(fs.bs(), leaf, 0).ents, name) by {
            lemma_from(fs, inode, name, leaf, 1);
            assert(in_dir(fs, inode, leaf));
        }
    }
}
/// The keys of a node in use ascend, and its children are blocks of the directory after the first.
pub open spec fn node_sorted(fs: &Ext4, inode: &Inode, e: Seq<u8>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < n_of(e) ==> #[trigger] key(e, i) < #[trigger] key(e, j)
    &&& forall|i: int| 0 <= i < n_of(e) ==> 1 <= #[trigger] child(e, i) < inode_end(fs, inode)
}
pub open spec fn nodes_sorted(fs: &Ext4, inode: &Inode, e: Seq<u8>, d: int) -> bool decreases d {
    &&& node_sorted(fs, inode, e)
    &&& d > 0 ==> forall|i: int, x: u64| 0 <= i < n_of(e) && #[trigger] rel_is(fs, inode, #[trigger] child(e, i) as int, x)
        ==> nodes_sorted(fs, inode, node_ents(fs.block(x).skip(8)), d - 1)
}
/// A hash leads to at most one leaf, and that is a block of the directory.
pub proof fn lemma_leads(fs: &Ext4, inode: &Inode, h: u32, e: Seq<u8>, d: int, l1: Seq<u8>, l2: Seq<u8>)
    requires layout_ok(fs, inode), nodes_sorted(fs, inode, e, d), leads(fs, inode, h, e, d, l1), leads(fs, inode, h, e, d, l2)
    ensures l1 == l2, in_dir(fs, inode, l1)
    decreases d
{
    let (i, x) = choose|i: int, x: u64| #[trigger] chosen(e, h, i) && #[trigger] rel_is(fs, inode, child(e, i) as int, x) && dir_block_ok(fs, inode, false, x)
        && if d <= 0 { l1 == fs.block(x) } else { node_fits(fs.block(x).skip(8)) && leads(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1, l1) };
    let (j, y) = choose|i: int, x: u64| #[trigger] chosen(e, h, i) && #[trigger] rel_is(fs, inode, child(e, i) as int, x) && dir_block_ok(fs, inode, false, x)
        && if d <= 0 { l2 == fs.block(x) } else { node_fits(fs.block(x).skip(8)) && leads(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1, l2) };
    if i < j { assert(i + 1 == j || key(e, i + 1) < key(e, j)); }
    if j < i { assert(j + 1 == i || key(e, j + 1) < key(e, i)); }
    assert(i == j && x == y);
    if d <= 0 {
        crate::iters::file_blocks::lemma_rel(fs, inode, child(e, i) as int, x);
    } else {
        assert(nodes_sorted(fs, inode, node_ents(fs.block(x).skip(8)), d - 1));
        lemma_leads(fs, inode, h, node_ents(fs.block(x).skip(8)), d - 1, l1, l2);
    }
}
/// A directory whose index is sorted by hash: "." and ".." come first, and every other entry is in the leaf that its hash leads to.
pub open spec fn index_sorted(fs: &Ext4, inode: &Inode) -> bool {
    let b = root_block(fs, inode);
    let d0 = dir_block_ents(&ctx_of(fs, inode), true, inode_at(fs, inode, 0)).ents;
    &&& layout_ok(fs, inode) && inode_end(fs, inode) > 0 && dir_ents(fs, inode).ok
    &&& d0.len() == 2 && d0[0] == ent_of(b.skip(0)) && d0[0].name == dot() && d0[1] == ent_of(b.skip(12)) && d0[1].name == dotdot()
    &&& alg_of(b[0x1c]) is Some ==> nodes_sorted(fs, inode, node_ents(b.skip(0x20)), b[0x1e] as int)
    &&& forall|p: int, k: int| 1 <= p < inode_end(fs, inode) && 0 <= k < ents_at(fs, inode, p).len() ==> {
            let name = (#[trigger] ents_at(fs, inode, p)[k]).name;
            !is_dots(name) && leaf_for(fs, inode, b, name, fs.block(inode_at(fs, inode, p)))
        }
}
/// C11: in a directory whose index is sorted by hash, the lookup through the index finds the entry that a scan of the
/// whole directory finds, and finds none exactly when the directory has none.
pub proof fn theorem_sorted_index(fs: &Ext4, inode: &Inode, name: Seq<u8>)
    requires index_sorted(fs, inode)
    ensures
        forall|x: Ent| #[trigger] htree_hit(fs, inode, name, x) ==> first_named(dir_ents(fs, inode).ents, name) == Some(x),
        htree_miss(fs, inode, name) ==> first_named(dir_ents(fs, inode).ents, name) is None,
{
    let b = root_block(fs, inode);
    assert forall|n: Seq<u8>, leaf: Seq<u8>| #[trigger] leaf_for(fs, inode, b, n, leaf) implies in_dir(fs, inode, leaf) by {
        lemma_leads(fs, inode, name_hash(fs, b, n), node_ents(b.skip(0x20)), b[0x1e] as int, leaf, leaf);
    }
    assert forall|p: int, k: int, leaf: Seq<u8>| 1 <= p < inode_end(fs, inode) && 0 <= k < ents_at(fs, inode, p).len()
            && #[trigger] leaf_for(fs, inode, b, (#[trigger] ents_at(fs, inode, p)[k]).name, leaf) implies leaf == fs.block(inode_at(fs, inode, p)) by {
        let n = ents_at(fs, inode, p)[k].name;
        lemma_leads(fs, inode, name_hash(fs, b, n), node_ents(b.skip(0x20)), b[0x1e] as int, leaf, fs.block(inode_at(fs, inode, p)));
    }
    theorem_index(fs, inode, name);
}
%% module iters::file_blocks
/// In a well-formed extent tree the first extent covering a position is the one that gives its block.
pub proof fn lemma_ext_find(exts: Seq<crate::extent::Extent>, p: int, lo: int)
    requires xb::sorted(exts, lo), crate::dir_htree::ext_find(exts, p) is Some
    ensures ({
        let e = crate::dir_htree::ext_find(exts, p)->0;
        xb::ext_at(exts, p) == e.start_block + (p - e.block_within_file) && p >= lo
    })
    decreases exts.len()
{
    let e = exts[0];
    if !(e.block_within_file <= p < e.block_within_file + e.num_blocks) {
        lemma_ext_find(exts.skip(1), p, e.block_within_file + e.num_blocks);
    }
}
/// C11: the blocks that the index names are blocks of the directory file.
pub proof fn lemma_rel(fs: &Ext4, inode: &Inode, p: int, x: u64)
    requires layout_ok(fs, inode), crate::dir_htree::rel_is(fs, inode, p, x)
    ensures x == inode_at(fs, inode, p)
{
    if has_extents(inode) { lemma_ext_find(tree_of(fs, inode).exts, p, 0); }
}
