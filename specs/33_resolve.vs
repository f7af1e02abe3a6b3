%% module resolve
use crate::dir::{lookup_hit, lookup_err};
use crate::inode::{link_bytes, link_err, inode_read_err, InodeIndex};
use crate::path::{path_ok, comp_end, has_sep, no_nul};
use crate::dir_entry::name_ok;
use crate::iters::read_dir::Ent;

/// C13: repeated separators collapse into the first one.
#[verifier::opaque]
pub open spec fn dd(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() < 2 { s }
    else if s[s.len() - 2] == 47u8 && s.last() == 47u8 { dd(s.drop_last()) }
    else { dd(s.drop_last()).push(s.last()) }
}
/// What is left of `x` placed behind a separator when repeated separators collapse.
pub open spec fn norm(x: Seq<u8>) -> Seq<u8> { dd(seq![47u8] + x).skip(1) }
#[verifier::opaque]
pub open spec fn deduped(s: Seq<u8>) -> bool { forall|i: int| 1 <= i < s.len() ==> !(s[i - 1] == 47u8 && #[trigger] s[i] == 47u8) }
/// The longest prefix that ends with a separator.
#[verifier::opaque]
pub open spec fn upto_sep(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 || s.last() == 47u8 { s } else { upto_sep(s.drop_last()) }
}
/// The parent of the directory `pre` (which ends with a separator); the root is its own parent.
#[verifier::opaque]
pub open spec fn pop(pre: Seq<u8>) -> Seq<u8> { if pre.len() <= 1 { pre } else { upto_sep(pre.drop_last()) } }

proof fn lemma_dd(s: Seq<u8>)
    ensures dd(s).len() <= s.len(), s.len() > 0 ==> dd(s).len() > 0 && dd(s).last() == s.last() && dd(s)[0] == s[0], deduped(dd(s)),
    decreases s.len()
{
    reveal_with_fuel(dd, 2);
    reveal(deduped);
    if s.len() >= 2 { lemma_dd(s.drop_last()); }
}
proof fn lemma_dd_id(s: Seq<u8>)
    requires deduped(s)
    ensures dd(s) == s
    decreases s.len()
{
    reveal_with_fuel(dd, 2);
    reveal(deduped);
    if s.len() >= 2 { lemma_dd_id(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); assert(s[s.len() - 1] == s.last()); }
}
proof fn lemma_dd_at(s: Seq<u8>, j: int)
    requires 0 < j < s.len()
    ensures dd(s.take(j + 1)) == if s[j - 1] == 47u8 && s[j] == 47u8 { dd(s.take(j)) } else { dd(s.take(j)).push(s[j]) }
{
    reveal_with_fuel(dd, 2);
    assert(s.take(j + 1).drop_last() =~= s.take(j));
}
proof fn lemma_dd_short(s: Seq<u8>)
    ensures s.len() < 2 ==> dd(s) == s, s.len() > 0 ==> dd(s.take(1)) == s.take(1), dd(Seq::<u8>::empty()) == Seq::<u8>::empty()
{
    reveal_with_fuel(dd, 2);
}
proof fn lemma_norm(a: Seq<u8>, b: Seq<u8>)
    requires deduped(a), a.len() > 0, a.last() == 47u8
    ensures dd(a + b) == a + norm(b), dd(seq![47u8] + b).len() > 0
    decreases b.len()
{
    reveal_with_fuel(dd, 2);
    lemma_dd(seq![47u8] + b);
    if b.len() == 0 {
        lemma_dd_id(a);
        assert(a + b =~= a);
        assert(seq![47u8] + b =~= seq![47u8]);
        assert(a + norm(b) =~= a);
    } else {
        let c = b.drop_last();
        lemma_norm(a, c);
        lemma_dd(seq![47u8] + c);
        assert((a + b).drop_last() =~= a + c);
        assert((seq![47u8] + b).drop_last() =~= seq![47u8] + c);
        assert((a + b).last() == b.last());
        if c.len() > 0 { assert((a + b)[(a + b).len() - 2] == c.last()); assert((seq![47u8] + b)[(seq![47u8] + b).len() - 2] == c.last()); }
        else { assert((a + b)[(a + b).len() - 2] == a.last()); }
        assert(dd(a + b) =~= a + norm(b));
    }
}
proof fn lemma_upto(s: Seq<u8>)
    ensures upto_sep(s).len() <= s.len(), upto_sep(s) == s.take(upto_sep(s).len() as int),
        s.len() > 0 && s[0] == 47u8 ==> upto_sep(s).len() > 0,
        upto_sep(s).len() > 0 ==> upto_sep(s).last() == 47u8,
    decreases s.len()
{
    reveal_with_fuel(upto_sep, 2);
    if s.len() == 0 || s.last() == 47u8 { assert(s.take(s.len() as int) =~= s); }
    else {
        let t = s.drop_last();
        lemma_upto(t);
        assert(t.take(upto_sep(t).len() as int) =~= s.take(upto_sep(t).len() as int));
    }
}
proof fn lemma_upto_at(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), s[k] == 47u8, forall|j: int| k < j < s.len() ==> s[j] != 47u8
    ensures upto_sep(s) == s.take(k + 1)
    decreases s.len()
{
    reveal_with_fuel(upto_sep, 2);
    if k == s.len() - 1 { assert(s.take(k + 1) =~= s); }
    else { lemma_upto_at(s.drop_last(), k); assert(s.drop_last().take(k + 1) =~= s.take(k + 1)); }
}
proof fn lemma_comp_end(s: Seq<u8>, o: int, k: int)
    requires 0 <= o <= k <= s.len(), k == s.len() || s[k] == 47u8, forall|j: int| o <= j < k ==> s[j] != 47u8
    ensures comp_end(s, o) == k
    decreases k - o
{
    if o < k { lemma_comp_end(s, o + 1, k); }
}

/// How resolving a path ends.
pub enum Out { Found(Inode, Seq<u8>), Fail(Ext4Error) }
/// `child` is the inode that the entry `name` of `dir` leads to.
#[verifier::opaque]
pub open spec fn looked(fs: &Ext4, dir: &Inode, name: Seq<u8>, child: &Inode) -> bool {
    &&& child.wf(fs) && child.loaded(fs)
    &&& exists|x: Ent| #[trigger] lookup_hit(fs, dir, name, x) && x.ino == child.index@
}
#[verifier::opaque]
pub open spec fn is_root(fs: &Ext4, i: &Inode) -> bool { i.wf(fs) && i.loaded(fs) && i.index@ == 2 }
#[verifier::opaque]
pub open spec fn root_err(fs: &Ext4, e: Ext4Error) -> bool { exists|n: InodeIndex| n@ == 2 && #[trigger] inode_read_err(fs, n, e) }
/// The whole path has been walked: only a directory may carry a trailing separator.
pub open spec fn finish(pre: Seq<u8>, cur: &Inode, out: Out) -> bool {
    if pre.len() > 1 && pre.last() == 47u8 {
        if cur.metadata.file_type is Directory { out == Out::Found(*cur, pre.drop_last()) } else { out == Out::Fail(Ext4Error::NotADirectory) }
    } else { out == Out::Found(*cur, pre) }
}
/// What is left to walk behind a component that ends at `e`.
pub open spec fn after(rest: Seq<u8>, e: int) -> Seq<u8> { if e < rest.len() { rest.skip(e + 1) } else { Seq::empty() } }
/// The length of the first component.
pub open spec fn cut(rest: Seq<u8>) -> int { if 0 <= comp_end(rest, 0) <= rest.len() { comp_end(rest, 0) } else { 0 } }
#[verifier::opaque]
pub open spec fn follows(all: bool, rest: Seq<u8>, child: &Inode) -> bool {
    child.metadata.file_type is Symlink && (all || after(rest, cut(rest)).len() > 0)
}
/// How far the walk has come: `rest` is left to walk from `cur`, whose canonical path is
/// `pre`, after `links` symlinks.
pub ghost struct St { pub pre: Seq<u8>, pub rest: Seq<u8>, pub cur: Inode, pub links: int }
pub open spec fn name_of(s: St) -> Seq<u8> { s.rest.take(cut(s.rest)) }
pub open spec fn tail_of(s: St) -> Seq<u8> { after(s.rest, cut(s.rest)) }
/// The path that replaces the component when it is a symlink.
#[verifier::opaque]
pub open spec fn target_of(fs: &Ext4, s: St, child: &Inode) -> Seq<u8> { link_bytes(fs, child) + s.rest.skip(cut(s.rest)) }
pub open spec fn is_dot(n: Seq<u8>) -> bool { n.len() == 1 && n[0] == 46u8 }
pub open spec fn is_dotdot(n: Seq<u8>) -> bool { n.len() == 2 && n[0] == 46u8 && n[1] == 46u8 }
/// The first component leads to `child`, a symlink that is followed.
#[verifier::opaque]
pub open spec fn at_link(fs: &Ext4, all: bool, s: St, child: &Inode) -> bool {
    &&& looked(fs, &s.cur, name_of(s), child)
    &&& !is_dot(name_of(s)) && !is_dotdot(name_of(s)) && follows(all, s.rest, child)
}
/// C13: the walk ends here with `out`.
#[verifier::opaque]
pub open spec fn ends(fs: &Ext4, all: bool, s: St, out: Out) -> bool {
    if s.rest.len() == 0 { finish(s.pre, &s.cur, out) }
    else if !(s.cur.metadata.file_type is Directory) { out == Out::Fail(Ext4Error::NotADirectory) }
    else {
        ||| (out matches Out::Fail(e) && lookup_err(fs, &s.cur, name_of(s), e))
        ||| exists|child: Inode| #[trigger] at_link(fs, all, s, &child) && link_ends(fs, s, &child, out)
    }
}
#[verifier::opaque]
pub open spec fn link_ends(fs: &Ext4, s: St, child: &Inode, out: Out) -> bool {
    if s.links >= 40 { out == Out::Fail(Ext4Error::TooManySymlinks) }
    else {
        let x = target_of(fs, s, child);
        ||| (out matches Out::Fail(e) && link_err(fs, child, e))
        ||| x.len() > 0 && x[0] == 47u8 && (out matches Out::Fail(e) && root_err(fs, e))
        ||| x.len() > 0 && out == Out::Fail(Ext4Error::PathTooLong) && if x[0] == 47u8 { x.len() > 4096 } else { s.pre.len() + x.len() > 4096 }
    }
}
/// C13: one component is walked.
#[verifier::opaque]
pub open spec fn step(fs: &Ext4, all: bool, s: St, t: St) -> bool {
    &&& s.rest.len() > 0 && s.cur.metadata.file_type is Directory
    &&& if is_dot(name_of(s)) {
            (exists|child: Inode| #[trigger] looked(fs, &s.cur, name_of(s), &child)) && t == St { rest: tail_of(s), ..s }
        } else if is_dotdot(name_of(s)) {
            looked(fs, &s.cur, name_of(s), &t.cur) && t == St { pre: pop(s.pre), rest: tail_of(s), cur: t.cur, links: s.links }
        } else {
            ||| looked(fs, &s.cur, name_of(s), &t.cur) && !follows(all, s.rest, &t.cur)
                && t == St { pre: s.pre + s.rest.take(s.rest.len() - tail_of(s).len()), rest: tail_of(s), cur: t.cur, links: s.links }
            ||| exists|child: Inode| #[trigger] at_link(fs, all, s, &child) && link_step(fs, s, &child, t)
        }
}
#[verifier::opaque]
pub open spec fn link_step(fs: &Ext4, s: St, child: &Inode, t: St) -> bool {
    let x = target_of(fs, s, child);
    &&& s.links < 40 && x.len() > 0
    &&& if x[0] == 47u8 {
            x.len() <= 4096 && is_root(fs, &t.cur) && t == St { pre: seq![47u8], rest: dd(x).skip(1), cur: t.cur, links: s.links + 1 }
        } else {
            s.pre.len() + x.len() <= 4096 && t == St { rest: norm(x), links: s.links + 1, ..s }
        }
}
/// C13: the walk from `s` can end with `out`.
pub open spec fn walk(fs: &Ext4, all: bool, s: St, out: Out) -> bool decreases 40 - s.links, s.rest.len() via walk_dec
{
    ends(fs, all, s, out) || exists|t: St| #[trigger] step(fs, all, s, t) && walk(fs, all, t, out)
}
#[via_fn]
proof fn walk_dec(fs: &Ext4, all: bool, s: St, out: Out) {
    reveal(step);
    reveal(link_step);
    assert forall|t: St| #[trigger] step(fs, all, s, t) implies t.links == s.links && t.rest.len() < s.rest.len() || t.links == s.links + 1 && s.links < 40 by {
        assert(tail_of(s).len() < s.rest.len() || s.rest.len() == 0);
    }
}
/// C13: resolving `path` can end with `out`.
#[verifier::opaque]
pub open spec fn resolves(fs: &Ext4, path: Seq<u8>, all: bool, out: Out) -> bool {
    if path.len() == 0 || path[0] != 47u8 { out == Out::Fail(Ext4Error::NotAbsolute) }
    else if path.len() > 4096 { out == Out::Fail(Ext4Error::PathTooLong) }
    else {
        ||| (out matches Out::Fail(e) && root_err(fs, e))
        ||| exists|root: Inode| #[trigger] is_root(fs, &root) && walk(fs, all, St { pre: seq![47u8], rest: dd(path).skip(1), cur: root, links: 0 }, out)
    }
}
proof fn lemma_walk_ends(fs: &Ext4, all: bool, s: St, out: Out)
    requires ends(fs, all, s, out)
    ensures walk(fs, all, s, out)
{
}
proof fn lemma_walk_step(fs: &Ext4, all: bool, s: St, t: St, out: Out)
    requires step(fs, all, s, t), walk(fs, all, t, out)
    ensures walk(fs, all, s, out)
{
}
proof fn lemma_step(fs: &Ext4, all: bool, s: St, t: St, path: Seq<u8>)
    requires step(fs, all, s, t), forall|out: Out| #[trigger] walk(fs, all, s, out) ==> resolves(fs, path, all, out)
    ensures forall|out: Out| #[trigger] walk(fs, all, t, out) ==> resolves(fs, path, all, out),
{
    assert forall|out: Out| #[trigger] walk(fs, all, t, out) implies resolves(fs, path, all, out) by { lemma_walk_step(fs, all, s, t, out); }
}
proof fn lemma_ends(fs: &Ext4, all: bool, s: St, path: Seq<u8>)
    requires forall|out: Out| #[trigger] walk(fs, all, s, out) ==> resolves(fs, path, all, out)
    ensures forall|out: Out| #[trigger] ends(fs, all, s, out) ==> resolves(fs, path, all, out)
{
    assert forall|out: Out| #[trigger] ends(fs, all, s, out) implies resolves(fs, path, all, out) by { lemma_walk_ends(fs, all, s, out); }
}
/// Cutting whole components out of a path, or replacing some with a path, keeps it legal.
proof fn lemma_cut(s: Seq<u8>, a: int, t: Seq<u8>, c: int)
    requires path_ok(s), path_ok(t), 0 <= a <= c <= s.len(), a == 0 || s[a - 1] == 47u8,
        c == s.len() || s[c] == 47u8 || (t.len() == 0 && a > 0)
    ensures path_ok(s.take(a) + t + s.skip(c))
{
    let r = s.take(a) + t + s.skip(c);
    let m = a + t.len();
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != 0u8 by {
        if i < a { assert(r[i] == s[i]); } else if i < m { assert(r[i] == t[i - a]); } else { assert(r[i] == s[i - m + c]); }
    }
    assert forall|w: int| 0 <= w && w + 256 <= r.len() implies #[trigger] has_sep(r, w, w + 256) by {
        if w + 256 <= a {
            assert(has_sep(s, w, w + 256));
            let k = choose|k: int| w <= k < w + 256 && #[trigger] s[k] == 47u8;
            assert(r[k] == 47u8);
        } else if w < a {
            assert(r[a - 1] == 47u8);
        } else if w + 256 <= m {
            assert(has_sep(t, w - a, w - a + 256));
            let k = choose|k: int| w - a <= k < w - a + 256 && #[trigger] t[k] == 47u8;
            assert(r[k + a] == 47u8);
        } else if w >= m {
            assert(has_sep(s, w - m + c, w - m + c + 256));
            let k = choose|k: int| w - m + c <= k < w - m + c + 256 && #[trigger] s[k] == 47u8;
            assert(r[k - c + m] == 47u8);
        } else {
            assert(c < s.len());
            assert(r[m] == s[c]);
        }
    }
}
proof fn lemma_name(s: Seq<u8>, a: int, b: int)
    requires path_ok(s), 0 <= a < b <= s.len(), forall|j: int| a <= j < b ==> s[j] != 47u8
    ensures name_ok(s.subrange(a, b))
{
    if b - a >= 256 {
        assert(has_sep(s, a, a + 256));
        let k = choose|k: int| a <= k < a + 256 && #[trigger] s[k] == 47u8;
    }
}
#[verifier::opaque]
pub open spec fn st(p: Seq<u8>, i: int, cur: Inode, links: int) -> St { St { pre: p.take(i), rest: p.skip(i), cur, links } }
/// What holds of the path under resolution: legal, no repeated separators, `i` at the start of a component.
#[verifier::opaque]
pub open spec fn inv(p: Seq<u8>, i: int) -> bool {
    1 <= i <= p.len() && p.len() <= 4096 && p[0] == 47u8 && path_ok(p) && deduped(p) && (i == p.len() || p[i - 1] == 47u8)
}
pub open spec fn next_at(p: Seq<u8>, ce: int) -> int { if ce < p.len() { ce + 1 } else { p.len() as int } }
proof fn lemma_comp(p: Seq<u8>, i: int, ce: int, cur: Inode, links: int)
    requires inv(p, i), i <= ce <= p.len(), i < p.len(), forall|j: int| i <= j < ce ==> p[j] != 47u8, ce == p.len() || p[ce] == 47u8
    ensures i < ce, cut(p.skip(i)) == ce - i, name_of(st(p, i, cur, links)) == p.subrange(i, ce), name_ok(p.subrange(i, ce)),
        tail_of(st(p, i, cur, links)) == p.skip(next_at(p, ce)),
{
    reveal(st);
    reveal(inv);
    reveal(deduped);
    assert(p[i] != 47u8) by { assert(deduped(p)); }
    lemma_name(p, i, ce);
    let r = p.skip(i);
    assert forall|j: int| 0 <= j < ce - i implies r[j] != 47u8 by { assert(r[j] == p[i + j]); }
    lemma_comp_end(r, 0, ce - i);
    assert(r.take(ce - i) =~= p.subrange(i, ce));
    assert(after(r, ce - i) =~= p.skip(next_at(p, ce)));
}
#[verifier::opaque]
pub open spec fn comp_at(p: Seq<u8>, i: int, ce: int) -> bool {
    inv(p, i) && i < p.len() && i <= ce <= p.len() && (forall|j: int| i <= j < ce ==> p[j] != 47u8) && (ce == p.len() || p[ce] == 47u8)
}
proof fn lemma_comp_at(p: Seq<u8>, i: int, ce: int)
    requires inv(p, i), i < p.len(), i <= ce <= p.len(), forall|j: int| i <= j < ce ==> p[j] != 47u8, ce == p.len() || p[ce] == 47u8
    ensures comp_at(p, i, ce)
{
    reveal(comp_at);
}
/// Where the walk can end at this component.
proof fn lemma_fails(fs: &Ext4, all: bool, p: Seq<u8>, i: int, ce: int, cur: Inode, links: int, path: Seq<u8>)
    requires comp_at(p, i, ce), forall|out: Out| #[trigger] walk(fs, all, st(p, i, cur, links), out) ==> resolves(fs, path, all, out)
    ensures
        i < ce, name_ok(p.subrange(i, ce)),
        !(cur.metadata.file_type is Directory) ==> resolves(fs, path, all, Out::Fail(Ext4Error::NotADirectory)),
        cur.metadata.file_type is Directory ==> forall|e: Ext4Error| #[trigger] lookup_err(fs, &cur, p.subrange(i, ce), e) ==> resolves(fs, path, all, Out::Fail(e)),
{
    reveal(comp_at);
    reveal(ends);
    reveal(st);
    reveal(inv);
    lemma_comp(p, i, ce, cur, links);
    let s = st(p, i, cur, links);
    lemma_ends(fs, all, s, path);
    if !(cur.metadata.file_type is Directory) { assert(ends(fs, all, s, Out::Fail(Ext4Error::NotADirectory))); }
    else {
        assert forall|e: Ext4Error| #[trigger] lookup_err(fs, &cur, p.subrange(i, ce), e) implies resolves(fs, path, all, Out::Fail(e)) by {
            assert(ends(fs, all, s, Out::Fail(e)));
        }
    }
}
/// Where it can end when the component is a symlink to follow.
proof fn lemma_link_fails(fs: &Ext4, all: bool, p: Seq<u8>, i: int, ce: int, cur: Inode, links: int, child: &Inode, path: Seq<u8>)
    requires comp_at(p, i, ce), forall|out: Out| #[trigger] walk(fs, all, st(p, i, cur, links), out) ==> resolves(fs, path, all, out),
        cur.metadata.file_type is Directory, at_link(fs, all, st(p, i, cur, links), child),
        target_of(fs, st(p, i, cur, links), child) == link_bytes(fs, child) + p.skip(ce),
    ensures
        links >= 40 ==> resolves(fs, path, all, Out::Fail(Ext4Error::TooManySymlinks)),
        links < 40 ==> forall|e: Ext4Error| #[trigger] link_err(fs, child, e) ==> resolves(fs, path, all, Out::Fail(e)),
        links < 40 && link_bytes(fs, child).len() > 0 ==> {
            let t = link_bytes(fs, child);
            &&& t[0] == 47u8 ==> forall|e: Ext4Error| #[trigger] root_err(fs, e) ==> resolves(fs, path, all, Out::Fail(e))
            &&& (if t[0] == 47u8 { t.len() + (p.len() - ce) > 4096 } else { i + t.len() + (p.len() - ce) > 4096 }) ==> resolves(fs, path, all, Out::Fail(Ext4Error::PathTooLong))
        },
{
    reveal(comp_at);
    let s = st(p, i, cur, links);
    assert(s.links == links && s.pre.len() == i && s.cur == cur && s.rest.len() > 0) by { reveal(st); reveal(inv); }
    let x = target_of(fs, s, child);
    assert(link_bytes(fs, child).len() > 0 ==> x[0] == link_bytes(fs, child)[0] && x.len() == link_bytes(fs, child).len() + (p.len() - ce));
    lemma_ends(fs, all, s, path);
    assert forall|out: Out| #[trigger] link_ends(fs, s, child, out) implies resolves(fs, path, all, out) by { assert(ends(fs, all, s, out)) by { reveal(ends); } }
    if links >= 40 { assert(link_ends(fs, s, child, Out::Fail(Ext4Error::TooManySymlinks))) by { reveal(link_ends); } }
    else {
        assert forall|e: Ext4Error| #[trigger] link_err(fs, child, e) implies resolves(fs, path, all, Out::Fail(e)) by {
            assert(link_ends(fs, s, child, Out::Fail(e))) by { reveal(link_ends); }
        }
        if link_bytes(fs, child).len() > 0 {
            if x[0] == 47u8 {
                assert forall|e: Ext4Error| #[trigger] root_err(fs, e) implies resolves(fs, path, all, Out::Fail(e)) by {
                    assert(link_ends(fs, s, child, Out::Fail(e))) by { reveal(link_ends); }
                }
            }
            if (if x[0] == 47u8 { x.len() > 4096 } else { s.pre.len() + x.len() > 4096 }) {
                assert(link_ends(fs, s, child, Out::Fail(Ext4Error::PathTooLong))) by { reveal(link_ends); }
            }
        }
    }
}
/// Some bytes of whole components removed.
proof fn lemma_remove(p: Seq<u8>, a: int, ce: int)
    requires inv(p, a), a < p.len(), a <= ce <= p.len(), ce == p.len() || p[ce] == 47u8
    ensures inv(p.take(a) + p.skip(next_at(p, ce)), a), (p.take(a) + p.skip(next_at(p, ce))).take(a) == p.take(a),
        (p.take(a) + p.skip(next_at(p, ce))).skip(a) == p.skip(next_at(p, ce)),
{
    reveal(inv);
    reveal(deduped);
    let n = next_at(p, ce);
    let r = p.take(a) + p.skip(n);
    lemma_empty_ok();
    lemma_cut(p, a, Seq::empty(), n);
    assert(p.take(a) + Seq::<u8>::empty() + p.skip(n) =~= r);
    assert(r.take(a) =~= p.take(a));
    assert(r.skip(a) =~= p.skip(n));
    assert forall|i: int| 1 <= i < r.len() implies !(r[i - 1] == 47u8 && #[trigger] r[i] == 47u8) by {
        if i < a { assert(p[i] == r[i]); assert(p[i - 1] == r[i - 1]); }
        else { assert(r[i] == p[i - a + n]); if i > a { assert(r[i - 1] == p[i - a + n - 1]); } }
    }
}
proof fn lemma_empty_ok() ensures path_ok(Seq::<u8>::empty()) {}
proof fn lemma_pop(p: Seq<u8>, a: int)
    requires inv(p, a), a < p.len()
    ensures 1 <= pop(p.take(a)).len() <= a, pop(p.take(a)) == p.take(pop(p.take(a)).len() as int), p[pop(p.take(a)).len() - 1] == 47u8
{
    reveal(pop);
    reveal(inv);
    let t = p.take(a);
    if t.len() > 1 {
        lemma_upto(t.drop_last());
        let k = pop(t).len() as int;
        assert(t.drop_last().take(k) =~= p.take(k));
        assert(p.take(k).last() == p[k - 1]);
    }
}
/// A followed symlink: its target `t` replaces the component, or the whole path up to it.
proof fn lemma_subst(p: Seq<u8>, a: int, ce: int, t: Seq<u8>, q: Seq<u8>)
    requires inv(p, a), a < ce <= p.len(), ce == p.len() || p[ce] == 47u8, path_ok(t), t.len() > 0,
        ({
            let x = if t[0] == 47u8 { t + p.skip(ce) } else { p.take(a) + t + p.skip(ce) };
            q == dd(x) && (path_ok(x) ==> path_ok(q)) && x.len() <= 4096
        })
    ensures
        t[0] == 47u8 ==> inv(q, 1) && q.take(1) == seq![47u8] && q.skip(1) == dd(t + p.skip(ce)).skip(1),
        t[0] != 47u8 ==> inv(q, a) && q.take(a) == p.take(a) && q.skip(a) == norm(t + p.skip(ce)),
{
    reveal(inv);
    reveal(deduped);
    let e = t + p.skip(ce);
    if t[0] == 47u8 {
        lemma_cut(p, 0, t, ce);
        assert(p.take(0) + t + p.skip(ce) =~= e);
        lemma_dd(e);
        assert(e[0] == 47u8);
        assert(q.take(1) =~= seq![47u8]);
    } else {
        let x = p.take(a) + t + p.skip(ce);
        lemma_cut(p, a, t, ce);
        assert(x =~= p.take(a) + e);
        assert(deduped(p.take(a))) by {
            assert forall|i: int| 1 <= i < a implies !(p.take(a)[i - 1] == 47u8 && #[trigger] p.take(a)[i] == 47u8) by { assert(p[i] == p.take(a)[i]); }
        }
        lemma_norm(p.take(a), e);
        lemma_dd(x);
        assert(x[0] == p[0]);
        assert(q.take(a) =~= p.take(a));
        assert(q.skip(a) =~= norm(e));
        assert(q[a - 1] == p[a - 1]);
    }
}
proof fn lemma_next_plain(fs: &Ext4, all: bool, p: Seq<u8>, i: int, cur: Inode, links: int, ce: int, child: Inode)
    requires comp_at(p, i, ce), cur.metadata.file_type is Directory, looked(fs, &cur, p.subrange(i, ce), &child),
    ensures ({
        let n = p.subrange(i, ce);
        let m = next_at(p, ce);
        let s = st(p, i, cur, links);
        &&& m > i
        &&& is_dot(n) ==> inv(p.take(i) + p.skip(m), i) && step(fs, all, s, st(p.take(i) + p.skip(m), i, cur, links))
        &&& !is_dot(n) && !is_dotdot(n) && !(child.metadata.file_type is Symlink && (all || m < p.len()))
            ==> inv(p, m) && step(fs, all, s, st(p, m, child, links))
    })
{
    reveal(comp_at);
    reveal(st);
    reveal(inv);
    reveal(step);
    reveal(follows);
    let s = st(p, i, cur, links);
    let n = p.subrange(i, ce);
    lemma_comp(p, i, ce, cur, links);
    let m = next_at(p, ce);
    if is_dot(n) {
        lemma_remove(p, i, ce);
        assert(st(p.take(i) + p.skip(m), i, cur, links) == St { rest: tail_of(s), ..s });
    } else if !is_dotdot(n) && !(child.metadata.file_type is Symlink && (all || m < p.len())) {
        assert(s.rest.take(m - i) =~= p.subrange(i, m));
        assert(s.pre + s.rest.take(m - i) =~= p.take(m));
        assert(!follows(all, s.rest, &child));
        assert(m == p.len() || p[m - 1] == 47u8);
    }
}
proof fn lemma_next_dotdot(fs: &Ext4, all: bool, p: Seq<u8>, i: int, cur: Inode, links: int, ce: int, child: Inode, k: int)
    requires comp_at(p, i, ce), cur.metadata.file_type is Directory, looked(fs, &cur, p.subrange(i, ce), &child), is_dotdot(p.subrange(i, ce)),
        1 <= k <= i && p[k - 1] == 47u8 && p.take(k) == pop(p.take(i))
    ensures ({
        let q = p.take(k) + p.skip(next_at(p, ce));
        inv(q, k) && step(fs, all, st(p, i, cur, links), st(q, k, child, links)) && q.len() - k < p.len() - i && q.len() <= p.len()
    })
{
    reveal(comp_at);
    reveal(st);
    reveal(inv);
    reveal(step);
    lemma_comp(p, i, ce, cur, links);
    lemma_remove(p, k, ce);
}
proof fn lemma_at_link(fs: &Ext4, all: bool, p: Seq<u8>, i: int, cur: Inode, links: int, ce: int, child: Inode)
    requires comp_at(p, i, ce), looked(fs, &cur, p.subrange(i, ce), &child), !is_dot(p.subrange(i, ce)), !is_dotdot(p.subrange(i, ce)),
        child.metadata.file_type is Symlink, all || next_at(p, ce) < p.len()
    ensures at_link(fs, all, st(p, i, cur, links), &child), target_of(fs, st(p, i, cur, links), &child) == link_bytes(fs, &child) + p.skip(ce)
{
    reveal(comp_at);
    reveal(st);
    reveal(inv);
    reveal(at_link);
    reveal(target_of);
    reveal(follows);
    let s = st(p, i, cur, links);
    lemma_comp(p, i, ce, cur, links);
    assert(s.rest.skip(ce - i) =~= p.skip(ce));
}
proof fn lemma_next_link(fs: &Ext4, all: bool, p: Seq<u8>, i: int, cur: Inode, links: int, ce: int, child: Inode, t: Seq<u8>, x: Seq<u8>, k: int, to: Inode)
    requires comp_at(p, i, ce), cur.metadata.file_type is Directory, 0 <= links < 40, i < ce,
        at_link(fs, all, st(p, i, cur, links), &child), target_of(fs, st(p, i, cur, links), &child) == link_bytes(fs, &child) + p.skip(ce),
        t == link_bytes(fs, &child), path_ok(t), t.len() > 0,
        x == p.take(if t[0] == 47u8 { 0 } else { i }) + t + p.skip(ce),
        if t[0] == 47u8 { is_root(fs, &to) && k == 1 } else { to == cur && k == i }
    ensures x.len() <= 4096 && (path_ok(x) ==> path_ok(dd(x))) ==> inv(dd(x), k) && step(fs, all, st(p, i, cur, links), st(dd(x), k, to, links + 1)),
{
    reveal(comp_at);
    reveal(st);
    reveal(inv);
    reveal(step);
    reveal(link_step);
    let s = st(p, i, cur, links);
    if x.len() <= 4096 && (path_ok(x) ==> path_ok(dd(x))) {
        let q = dd(x);
        assert(p.take(0) + t + p.skip(ce) =~= t + p.skip(ce));
        lemma_subst(p, i, ce, t, q);
        let y = t + p.skip(ce);
        assert(y[0] == t[0]);
        assert(link_step(fs, s, &child, st(q, k, to, links + 1)));
        assert(!is_dot(name_of(s)) && !is_dotdot(name_of(s))) by { reveal(at_link); }
    }
}
proof fn lemma_start(fs: &Ext4, all: bool, p: Seq<u8>)
    ensures
        p.len() == 0 || p[0] != 47u8 ==> resolves(fs, p, all, Out::Fail(Ext4Error::NotAbsolute)),
        p.len() > 4096 && p[0] == 47u8 ==> resolves(fs, p, all, Out::Fail(Ext4Error::PathTooLong)),
        0 < p.len() <= 4096 && p[0] == 47u8 ==> {
            forall|e: Ext4Error| #[trigger] root_err(fs, e) ==> resolves(fs, p, all, Out::Fail(e))
        },
{
    reveal(resolves);
}
proof fn lemma_begin(fs: &Ext4, all: bool, p: Seq<u8>, root: Inode)
    requires 0 < p.len() <= 4096, p[0] == 47u8, path_ok(p), path_ok(p) ==> path_ok(dd(p)), is_root(fs, &root)
    ensures inv(dd(p), 1), forall|out: Out| #[trigger] walk(fs, all, st(dd(p), 1, root, 0), out) ==> resolves(fs, p, all, out)
{
    reveal(inv);
    reveal(st);
    reveal(resolves);
    lemma_dd(p);
    assert(dd(p).take(1) =~= seq![47u8]);
}
proof fn lemma_looked(fs: &Ext4)
    ensures
        forall|i: Inode| #[trigger] is_root(fs, &i) ==> i.wf(fs) && i.loaded(fs),
        forall|dir: Inode, name: Seq<u8>, i: Inode| #[trigger] looked(fs, &dir, name, &i) ==> i.wf(fs) && i.loaded(fs),
{
    reveal(is_root);
    reveal(looked);
}
proof fn lemma_looks(fs: &Ext4, dir: &Inode, name: Seq<u8>, i: &Inode)
    requires i.wf(fs), i.loaded(fs), exists|x: Ent| #[trigger] lookup_hit(fs, dir, name, x) && x.ino == i.index@
    ensures looked(fs, dir, name, i)
{
    reveal(looked);
}
proof fn lemma_inv(p: Seq<u8>, i: int)
    requires inv(p, i)
    ensures 1 <= i <= p.len() <= 4096, p[0] == 47u8, path_ok(p), i == p.len() || p[i - 1] == 47u8
{
    reveal(inv);
}
proof fn lemma_finish(fs: &Ext4, all: bool, p: Seq<u8>, i: int, cur: Inode, links: int, path: Seq<u8>)
    requires inv(p, i), i >= p.len(), forall|out: Out| #[trigger] walk(fs, all, st(p, i, cur, links), out) ==> resolves(fs, path, all, out)
    ensures
        p.len() > 1 && p.last() == 47u8 ==> path_ok(p.drop_last()) && if cur.metadata.file_type is Directory { resolves(fs, path, all, Out::Found(cur, p.drop_last())) }
            else { resolves(fs, path, all, Out::Fail(Ext4Error::NotADirectory)) },
        !(p.len() > 1 && p.last() == 47u8) ==> resolves(fs, path, all, Out::Found(cur, p)),
        path_ok(p),
{
    reveal(ends);
    reveal(st);
    reveal(inv);
    lemma_drop_ok(p);
    let s = st(p, i, cur, links);
    assert(s.rest =~= Seq::<u8>::empty());
    assert(s.pre =~= p);
    let out = if s.pre.len() > 1 && s.pre.last() == 47u8 {
        if s.cur.metadata.file_type is Directory { Out::Found(s.cur, s.pre.drop_last()) } else { Out::Fail(Ext4Error::NotADirectory) }
    } else { Out::Found(s.cur, s.pre) };
    lemma_walk_ends(fs, all, s, out);
}
proof fn lemma_drop_ok(p: Seq<u8>)
    requires path_ok(p), p.len() > 0
    ensures path_ok(p.drop_last())
{
    let q = p.drop_last();
    assert forall|a: int| 0 <= a && a + 256 <= q.len() implies #[trigger] has_sep(q, a, a + 256) by {
        assert(has_sep(p, a, a + 256));
        let k = choose|k: int| a <= k < a + 256 && #[trigger] p[k] == 47u8;
        assert(q[k] == 47u8);
    }
}
%% fn resolve::find_next_sep
@props C01 C13
@ret r
@spec
    requires start < path@.len()
    ensures
        r matches Some(i) ==> start <= i < path@.len() && path@[i as int] == 47u8 && forall|j: int| start <= j < i ==> path@[j] != 47u8,
        r is None ==> forall|j: int| start <= j < path@.len() ==> path@[j] != 47u8,
@closure 0 |vx_i: &usize| -> (b: bool) requires *vx_i < path@.len() ensures b == (path@[*vx_i as int] == 47u8)
%% fn resolve::find_prev_sep
@props C01 C13
@ret r
@spec
    requires start < path@.len()
    ensures
        r matches Some(i) ==> i <= start && path@[i as int] == 47u8 && forall|j: int| i < j <= start ==> path@[j] != 47u8,
        r is None ==> forall|j: int| 0 <= j <= start ==> path@[j] != 47u8,
@closure 0 |vx_i: &usize| -> (b: bool) requires *vx_i < path@.len() ensures b == (path@[*vx_i as int] == 47u8)
%% fn resolve::find_parent_component_start
@props C01 C13
@ret r
@spec
    requires 0 < start < path@.len(), path@[0] == 47u8, path@[start - 1] == 47u8
    ensures 1 <= r <= start, path@[r - 1] == 47u8, path@.take(r as int) == pop(path@.take(start as int))
@start
    proof { reveal(pop); }
@after let prev_sep =
    proof {
        let t = path@.take(start as int).drop_last();
        lemma_upto_at(t, prev_sep as int);
        assert(t.take(prev_sep + 1) =~= path@.take(prev_sep + 1));
    }
%% fn resolve::path_dedup_sep
@props C01 C02 C13
@spec
    ensures final(path)@ == dd(old(path)@), path_ok(old(path)@) ==> path_ok(final(path)@)
@loopbefore 0
    let ghost orig = path@;
    let ghost mut j: int = if orig.len() > 0 { 1 } else { 0 };
    proof { lemma_dd_short(orig); assert(orig.skip(0) =~= orig); assert(orig.take(0) =~= Seq::<u8>::empty()); assert(orig.take(j) + orig.skip(j) =~= orig); }
@loop 0
    invariant
        0 <= j <= orig.len(), 1 <= i, orig.len() > 0 ==> j >= 1 && i as int == dd(orig.take(j)).len(),
        orig.len() == 0 ==> path@.len() == 0,
        path@ == dd(orig.take(j)) + orig.skip(j),
        path_ok(orig) ==> path_ok(path@),
    decreases orig.len() - j
@loopstart 0
    proof {
        let h = orig.take(j);
        lemma_dd(h);
        assert(path@[i as int] == orig[j]);
        assert(path@[i - 1] == orig[j - 1]);
        lemma_dd_at(orig, j);
    }
    let ghost p0 = path@;
@loopend 0
    proof {
        j = j + 1;
        assert(path@ =~= dd(orig.take(j)) + orig.skip(j));
        if path@ != p0 && path_ok(p0) {
            let ii = i as int;
            assert(path_ok(Seq::<u8>::empty()));
            lemma_cut(p0, ii, Seq::empty(), ii + 1);
            assert(path@ =~= p0.take(ii) + Seq::<u8>::empty() + p0.skip(ii + 1));
        }
    }
@tail
    proof {
        assert(orig.take(orig.len() as int) =~= orig);
        assert(path@ =~= dd(orig.take(j)) + orig.skip(j));
        if orig.len() > 0 { assert(j == orig.len()) by { assert(orig.skip(j).len() == 0); } assert(path@ =~= dd(orig)); } else { assert(path@ =~= dd(orig)); }
    }
%% fn resolve::resolve_path
@attr #[verifier::loop_isolation(false)]
@props C01 C02 C13 C17
@ret r
@spec
    requires fs.wf(), path.wf()
    ensures
        r matches Ok(x) ==> x.0.wf(fs) && x.0.loaded(fs) && x.1.wf() && resolves(fs, path.0@, follow is All, Out::Found(x.0, x.1.0@)),
        r matches Err(e) ==> resolves(fs, path.0@, follow is All, Out::Fail(e)),
@start
    let ghost all = follow is All;
    let ghost orig = path.0@;
    proof { lemma_start(fs, all, orig); lemma_looked(fs); }
@after let mut inode
    proof { lemma_begin(fs, all, orig, inode); lemma_inv(path@, 1); }
@loop 0
    invariant
        fs.wf(), all == (follow is All), orig.len() > 0, orig[0] == 47u8, orig.len() <= 4096,
        inode.wf(fs), inode.loaded(fs), inv(path@, index as int),
        num_symlinks <= 40, num_iterations + (path@.len() - index) <= (num_symlinks + 1) * 4096,
        forall|out: Out| #[trigger] walk(fs, all, st(path@, index as int, inode, num_symlinks as int), out) ==> resolves(fs, orig, all, out),
    decreases 40 - num_symlinks, path@.len() - index
@loopstart 0
    let ghost p0 = path@;
    let ghost i0 = index as int;
    let ghost l0 = num_symlinks as int;
    let ghost c0 = inode;
    proof { lemma_inv(p0, i0); }
@before ^if !inode.metadata.is_dir()
    let ghost ce = comp_end as int;
    proof { lemma_comp_at(p0, i0, ce); lemma_fails(fs, all, p0, i0, ce, c0, l0, orig); }
@after let remove_start =
    proof { lemma_next_dotdot(fs, all, p0, i0, c0, l0, ce, ch, remove_start as int); }
@before if comp ==
    let ghost ch = child_inode;
    proof {
        lemma_looks(fs, &c0, comp@, &ch);
        lemma_next_plain(fs, all, p0, i0, c0, l0, ce, ch);
        if !is_dot(comp@) && !is_dotdot(comp@) && ch.metadata.file_type is Symlink && (all || next_at(p0, ce) < p0.len()) {
            lemma_at_link(fs, all, p0, i0, c0, l0, ce, ch);
            lemma_link_fails(fs, all, p0, i0, ce, c0, l0, &ch, orig);
        }
    }
@loopend 0
    proof {
        lemma_inv(path@, index as int);
        lemma_step(fs, all, st(p0, i0, c0, l0), st(path@, index as int, inode, num_symlinks as int), orig);
    }
@after ^let target =
    let ghost t = target.0@;
@after path.splice(
    proof { lemma_next_link(fs, all, p0, i0, c0, l0, ce, ch, t, path@, index as int, inode); }
@before ^if path.len() > 1
    proof { lemma_finish(fs, all, path@, index as int, inode, num_symlinks as int, orig); }
%% fn lib::Ext4::read_root_inode
@props C01 C06 C13
@ret r
@spec
    requires self.wf()
    ensures
        r matches Ok(i) ==> crate::resolve::is_root(self, &i),
        r matches Err(e) ==> crate::resolve::root_err(self, e),
@start
    proof { reveal(crate::resolve::is_root); reveal(crate::resolve::root_err); }
