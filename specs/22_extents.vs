%% module iters::extents
pub open spec fn n_entries(d: Seq<u8>) -> int { le16(d, 2) as int }
pub open spec fn n_max(d: Seq<u8>) -> int { le16(d, 4) as int }
pub open spec fn hdr_ok(d: Seq<u8>) -> bool { d.len() >= 12 && le16(d, 0) == 0xf30a && le16(d, 6) <= 5 }
pub open spec fn hdr_err(inode: InodeIndex, d: Seq<u8>, e: Ext4Error) -> bool {
    &&& !hdr_ok(d)
    &&& e == (if d.len() < 12 { crate::error::corrupt(CorruptKind::ExtentNotEnoughData(inode)) }
        else if le16(d, 0) != 0xf30a { crate::error::corrupt(CorruptKind::ExtentMagic(inode)) }
        else { crate::error::corrupt(CorruptKind::ExtentDepth(inode)) })
}
pub open spec fn node_ok(d: Seq<u8>) -> bool { hdr_ok(d) && d.len() >= 12 * (n_entries(d) + 1) }
/// Size of a child node on disk, with its checksum.
pub open spec fn child_size(fs: &Ext4, cb: u64) -> int { 12 * (n_max(fs.block(cb)) + 1) + (if fs.sb().has_csum() { 4int } else { 0 }) }
/// Block `cb` holds a valid node of the extent tree, one level below `depth`.
pub open spec fn child_ok(fs: &Ext4, c: Checksum, cb: u64, depth: int) -> bool {
    let b = fs.block(cb);
    &&& fs.readable(cb, 0, 12)
    &&& hdr_ok(b)
    &&& le16(b, 6) + 1 == depth
    &&& child_size(fs, cb) <= fs.bs()
    &&& 12 * (n_entries(b) + 1) <= child_size(fs, cb)
    &&& fs.sb().has_csum() ==> le32(b, 12 * (n_max(b) + 1)) == crc32c(c.seed(), c.data() + b.take(12 * (n_max(b) + 1)))
}
/// The header and the entries in use of a node.
pub open spec fn node_of(b: Seq<u8>) -> Seq<u8> { b.take(12 * (n_entries(b) + 1)) }
/// Extents in tree order, up to the end or to the first invalid node.
pub struct Walk { pub exts: Seq<Extent>, pub ok: bool }
pub open spec fn nothing() -> Walk { Walk { exts: Seq::empty(), ok: true } }
pub open spec fn broken() -> Walk { Walk { exts: Seq::empty(), ok: false } }
pub open spec fn one(e: Extent) -> Walk { Walk { exts: seq![e], ok: true } }
pub open spec fn then(a: Walk, b: Walk) -> Walk { if a.ok { Walk { exts: a.exts + b.exts, ok: b.ok } } else { a } }
pub open spec fn leaf_at(node: Seq<u8>, k: int) -> Extent {
    Extent {
        block_within_file: le32(node, 12 * k),
        start_block: hilo64(le16(node, 12 * k + 6) as u32, le32(node, 12 * k + 8)),
        num_blocks: le16(node, 12 * k + 4),
    }
}
pub open spec fn child_at(node: Seq<u8>, k: int) -> u64 { hilo64(le16(node, 12 * k + 8) as u32, le32(node, 12 * k + 4)) }
/// C07: the initialized extents of entries `k`.. of a node.
pub open spec fn walk(fs: &Ext4, c: Checksum, node: Seq<u8>, k: int, depth: int) -> Walk
    decreases depth, node.len() - 12 * k
    when depth >= 0
{
    if k < 1 || 12 * k + 12 > node.len() { nothing() }
    else if depth == 0 {
        if le16(node, 12 * k + 4) > 32768 { walk(fs, c, node, k + 1, depth) }
        else { then(one(leaf_at(node, k)), walk(fs, c, node, k + 1, depth)) }
    } else {
        let cb = child_at(node, k);
        if !child_ok(fs, c, cb, depth) { broken() }
        else { then(walk(fs, c, node_of(fs.block(cb)), 1, depth - 1), walk(fs, c, node, k + 1, depth)) }
    }
}
/// The extents of the tree rooted in an inode.
pub open spec fn tree(fs: &Ext4, c: Checksum, root: Seq<u8>) -> Walk { walk(fs, c, node_of(root), 1, le16(root, 6) as int) }
pub open spec fn pending(fs: &Ext4, c: Checksum, st: Seq<ToVisitItem>) -> Walk decreases st.len() {
    if st.len() == 0 { nothing() }
    else { then(walk(fs, c, st.last().node@, st.last().entry + 1, st.last().depth as int), pending(fs, c, st.drop_last())) }
}
pub proof fn lemma_then(a: Walk, b: Walk, c: Walk)
    ensures then(then(a, b), c) == then(a, then(b, c)), then(nothing(), c) == c, then(broken(), c) == broken(),
        then(one(a.exts[0]), c).exts.skip(1) == c.exts,
{
    assert(then(then(a, b), c).exts =~= then(a, then(b, c)).exts);
    assert(then(nothing(), c).exts =~= c.exts);
    assert(then(one(a.exts[0]), c).exts.skip(1) =~= c.exts);
}
impl ToVisitItem {
    pub open spec fn wf(&self) -> bool { 12 <= self.node@.len() <= 12 * 65536 && self.node@.len() % 12 == 0 && self.entry < self.node@.len() / 12 && self.depth <= 5 }
    pub open spec fn weight(&self) -> int { (self.node@.len() / 12 + 1 - self.entry) * bpow(self.depth as int) }
}
pub open spec fn bpow(d: int) -> int decreases d { if d <= 0 { 1 } else { 70000 * bpow(d - 1) } }
pub proof fn lemma_bpow(d: int) ensures bpow(d) >= 1 decreases d { if d > 0 { lemma_bpow(d - 1); } }
pub open spec fn weight(st: Seq<ToVisitItem>) -> int decreases st.len() {
    if st.len() == 0 { 0 } else { st.last().weight() + weight(st.drop_last()) }
}
pub open spec fn all_wf(st: Seq<ToVisitItem>) -> bool { forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).wf() }
pub proof fn lemma_weight(st: Seq<ToVisitItem>)
    requires all_wf(st)
    ensures weight(st) >= 0
    decreases st.len()
{
    if st.len() > 0 {
        let x = st.last();
        lemma_bpow(x.depth as int);
        assert((x.node@.len() / 12 + 1 - x.entry) * bpow(x.depth as int) >= 0) by (nonlinear_arith)
            requires x.node@.len() / 12 + 1 - x.entry >= 0, bpow(x.depth as int) >= 1;
        lemma_weight(st.drop_last());
    }
}
impl Extents {
    pub open spec fn wf(&self) -> bool {
        &&& self.ext4.wf()
        &&& self.checksum_base.wf()
        &&& all_wf(self.to_visit@)
    }
    pub open spec fn rest(&self) -> Walk { pending(&self.ext4, self.checksum_base, self.to_visit@) }
    pub open spec fn left(&self) -> int { if self.is_done { 0 } else { 1 + weight(self.to_visit@) } }
    pub open spec fn same(&self, o: &Extents) -> bool { self.ext4 == o.ext4 && self.checksum_base == o.checksum_base && self.inode == o.inode }
}
%% fn iters::extents::add_one_mul_entry_size
@props C01 C07
@ret r
@spec
    ensures r == 12 * (n + 1)
%% fn iters::extents::NodeHeader::node_size_in_bytes
@props C01 C07
@ret r
@spec
    ensures r == 12 * (self.num_entries + 1)
%% fn iters::extents::NodeHeader::checksum_offset
@props C01 C07 C05
@ret r
@spec
    ensures r == 12 * (self.max_entries + 1)
%% fn iters::extents::NodeHeader::from_bytes
@props C01 C07 C17
@ret r
@spec
    ensures
        r matches Ok(h) ==> hdr_ok(data@) && h.num_entries == n_entries(data@) && h.max_entries == n_max(data@) && h.depth == le16(data@, 6),
        r matches Err(e) ==> hdr_err(inode, data@, e),
%% fn iters::extents::ToVisitItem::new
@props C01 C07 C17
@ret r
@spec
    ensures
        r matches Ok(i) ==> node_ok(node@) && i.wf() && i.entry == 0 && i.depth == le16(node@, 6) && i.node@ == node_of(node@),
        r matches Err(e) ==> !node_ok(node@) && e is Corrupt,
%% fn iters::extents::ToVisitItem::entry
@props C01 C07
@ret r
@spec
    requires self.entry <= 65536
    ensures
        r is Some == (12 * self.entry + 12 <= self.node@.len()),
        r matches Some(s) ==> s@ == self.node@.subrange(12 * self.entry, 12 * self.entry + 12),
%% fn iters::extents::Extents::new
@props C01 C07 C08 C09 C10 C17
@ret r
@spec
    requires ext4.wf(), inode.checksum_base.wf()
    ensures
        r matches Ok(x) ==> x.wf() && !x.is_done && x.ext4 == ext4 && x.checksum_base == inode.checksum_base && x.inode == inode.index
            && node_ok(inode.inline_data@) && x.rest() == tree(&ext4, inode.checksum_base, inode.inline_data@),
        r matches Err(e) ==> e is Corrupt && !node_ok(inode.inline_data@),
@before ^Ok(Self
    proof { reveal_with_fuel(pending, 2); lemma_then(tree(&ext4, inode.checksum_base, inode.inline_data@), nothing(), nothing()); }
%% fn iters::extents::Extents::next_impl
@props C01 C02 C05 C07 C16 C17
@ret r
@spec
    requires old(self).wf(), !old(self).is_done
    ensures
        final(self).same(old(self)),
        r is Ok ==> final(self).wf(),
        r matches Ok(Some(e)) ==> !final(self).is_done && old(self).rest().exts.len() > 0 && e == old(self).rest().exts[0]
            && final(self).rest().exts == old(self).rest().exts.skip(1) && final(self).rest().ok == old(self).rest().ok,
        r is Ok && r->Ok_0 is None ==> final(self).rest() == old(self).rest() && 0 <= final(self).left() < old(self).left()
            && (final(self).is_done ==> old(self).rest() == nothing()),
        r matches Err(e) ==> e is Io || (e is Corrupt && old(self).rest() == broken()),
@attr #[verifier::rlimit(40)]
@tail
    proof {
        let fs = &self.ext4;
        let c = self.checksum_base;
        let x = st.last();
        let k = x.entry + 1;
        let cb = child_at(x.node@, k);
        let s2 = self.to_visit@;
        let z = s2.last();
        let x1 = ToVisitItem { entry: k as u32, ..x };
        assert(s2.drop_last() =~= st.update(st.len() - 1, x1));
        assert(z.node@ =~= node_of(fs.block(cb)));
        assert(child_ok(fs, c, cb, x.depth as int));
        let p = pending(fs, c, st.drop_last());
        let w = walk(fs, c, z.node@, 1, z.depth as int);
        let r = walk(fs, c, x.node@, k + 1, x.depth as int);
        assert(walk(fs, c, x.node@, k, x.depth as int) == then(w, r));
        assert(pending(fs, c, s2.drop_last()) == then(r, p));
        assert(pending(fs, c, s2) == then(w, then(r, p)));
        assert(pending(fs, c, st) == then(then(w, r), p));
        assert(z.wf());
        assert(s2.drop_last().drop_last() =~= st.drop_last());
        assert(weight(s2.drop_last()) == x1.weight() + weight(st.drop_last()));
        assert(weight(s2) == z.weight() + weight(s2.drop_last()));
        assert(weight(st) == x.weight() + weight(st.drop_last()));
    }
@start
    let ghost st = self.to_visit@;
    proof {
        assert forall|b: Seq<u8>, n: int, m: int| 0 <= m <= n <= b.len() implies #[trigger] b.subrange(0, n).subrange(0, m) == b.take(m) by {
            assert(b.subrange(0, n).subrange(0, m) =~= b.take(m));
        }
        assert forall|b: Seq<u8>, n: int, m: int| 0 <= m <= n <= b.len() implies #[trigger] b.subrange(0, n).take(m) == b.take(m) by {
            assert(b.subrange(0, n).take(m) =~= b.take(m));
        }
        assert forall|y: ToVisitItem| st.len() > 0 implies (#[trigger] st.update(st.len() - 1, y)).drop_last() == st.drop_last() && st.update(st.len() - 1, y).last() == y by {
            assert(st.update(st.len() - 1, y).drop_last() =~= st.drop_last());
        }
        assert forall|s: Seq<ToVisitItem>, z: ToVisitItem| (#[trigger] s.push(z)).drop_last() == s && s.push(z).last() == z by {
            assert(s.push(z).drop_last() =~= s);
        }
        if st.len() > 0 {
            let x = st.last();
            assert(x.wf());
            let fs = &self.ext4;
            let c = self.checksum_base;
            let k = x.entry + 1;
            let d = x.depth as int;
            let p = pending(fs, c, st.drop_last());
            let r = walk(fs, c, x.node@, k + 1, d);
            let e = leaf_at(x.node@, k);
            let w = walk(fs, c, node_of(fs.block(child_at(x.node@, k))), 1, d - 1);
            lemma_then(one(e), r, p);
            lemma_then(one(e), then(r, p), then(r, p));
            lemma_then(w, r, p);
            lemma_then(p, p, p);
            let l = x.node@.len() / 12 + 1 - x.entry;
            let b = bpow(x.depth as int);
            lemma_bpow(x.depth as int);
            lemma_bpow(x.depth - 1);
            lemma_weight(st.drop_last());
            assert(x.weight() == l * b);
            assert((l - 1) * b == l * b - b) by (nonlinear_arith);
            assert(l * b >= b) by (nonlinear_arith) requires l >= 1, b >= 1;
            assert forall|z: ToVisitItem| #[trigger] z.wf() && z.entry == 0 && z.depth + 1 == x.depth implies 0 <= z.weight() < b by {
                let m = z.node@.len() / 12 + 1 - z.entry;
                let d = bpow(z.depth as int);
                assert(0 <= m * d < 70000 * d) by (nonlinear_arith) requires 0 <= m < 70000, d >= 1;
            }
        }
    }
%% fn iters::extents::Extents@Iterator::next
@props C01 C02 C05 C07 C16 C17
@ret r
@spec
    requires !old(self).is_done ==> old(self).wf()
    ensures
        final(self).same(old(self)),
        !final(self).is_done ==> final(self).wf(),
        old(self).is_done ==> r is None,
        r is None ==> final(self).is_done,
        !old(self).is_done ==> {
            &&& r matches Some(Ok(e)) ==> !final(self).is_done && old(self).rest().exts.len() > 0 && e == old(self).rest().exts[0]
                && final(self).rest().exts == old(self).rest().exts.skip(1) && final(self).rest().ok == old(self).rest().ok
            &&& r is None ==> old(self).rest() == nothing()
            &&& r matches Some(Err(e)) ==> final(self).is_done && (e is Io || (e is Corrupt && old(self).rest() == broken()))
        },
@loop 0
    invariant
        self.same(old(self)),
        !self.is_done ==> self.wf() && !old(self).is_done && self.rest() == old(self).rest(),
        self.is_done && !old(self).is_done ==> old(self).rest() == nothing(),
    decreases self.left()
