%% module resolve
/// `i` was found as `name` in some directory.
pub open spec fn named(fs: &Ext4, name: Seq<u8>, all: bool, i: &Inode) -> bool {
    &&& exists|d: Inode| d.metadata.file_type is Directory && #[trigger] looked(fs, &d, name, i)
    &&& all ==> !(i.metadata.file_type is Symlink)
}
/// C13: the last component of `p` is neither empty nor `.` or `..`, is no symlink (unless it is the last of the path and
/// `all` is not set), and so on for the directory before it.
pub open spec fn canon_comp(fs: &Ext4, p: Seq<u8>, all: bool) -> bool decreases p.len() {
    let par = upto_sep(p);
    let name = p.skip(par.len() as int);
    &&& par.len() < p.len() && !is_dot(name) && !is_dotdot(name)
    &&& exists|i: Inode| #[trigger] named(fs, name, all, &i)
    &&& par == seq![47u8] || par.len() > 0 && canon_comp(fs, par.drop_last(), true)
}
/// C13: `c` is an absolute path without empty, `.`, `..` or symlink components.
pub open spec fn canonical(fs: &Ext4, c: Seq<u8>, all: bool) -> bool { c == seq![47u8] || canon_comp(fs, c, all) }
spec fn canon_dir(fs: &Ext4, p: Seq<u8>) -> bool { p.len() > 0 && p.last() == 47u8 && (p == seq![47u8] || canon_comp(fs, p.drop_last(), true)) }
/// What holds of every step of the walk.
spec fn canon_st(fs: &Ext4, all: bool, s: St) -> bool {
    &&& deduped(seq![47u8] + s.rest)
    &&& canon_dir(fs, s.pre) || s.rest.len() == 0 && s.pre.len() > 0 && if s.pre.last() == 47u8 { s.pre.len() > 1 && (s.cur.metadata.file_type is Directory ==> canon_comp(fs, s.pre.drop_last(), all)) }
        else { canon_comp(fs, s.pre, all) }
}
proof fn lemma_canon_pop(fs: &Ext4, p: Seq<u8>)
    requires canon_dir(fs, p)
    ensures canon_dir(fs, pop(p))
    decreases p.len()
{
    reveal(pop);
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_upto(q);
        let par = upto_sep(q);
        assert(par == q.take(par.len() as int));
        if par != seq![47u8] { assert(par.len() > 0 && canon_comp(fs, par.drop_last(), true)); }
    }
}
proof fn lemma_rest(rest: Seq<u8>)
    requires deduped(seq![47u8] + rest), rest.len() > 0
    ensures 0 < cut(rest) <= rest.len(), forall|j: int| 0 <= j < cut(rest) ==> rest[j] != 47u8,
        deduped(seq![47u8] + after(rest, cut(rest))),
        cut(rest) < rest.len() ==> rest[cut(rest)] == 47u8,
{
    reveal(deduped);
    let a = seq![47u8] + rest;
    assert(a[1] == rest[0]);
    assert(a[0] == 47u8);
    crate::path::lemma_scan(rest, 0);
    crate::path::lemma_scan_end(rest, 0);
    let b = seq![47u8] + after(rest, cut(rest));
    assert forall|i: int| 1 <= i < b.len() implies !(b[i - 1] == 47u8 && #[trigger] b[i] == 47u8) by {
        let k = i + cut(rest) + 1;
        assert(a[k] == b[i]);
        assert(a[k - 1] == b[i - 1]) by { if i == 1 { assert(a[k - 1] == rest[cut(rest)]); } }
    }
}
proof fn lemma_canon_step(fs: &Ext4, all: bool, s: St, t: St)
    requires step(fs, all, s, t), canon_st(fs, all, s)
    ensures canon_st(fs, all, t)
{
    reveal(step);
    reveal(follows);
    lemma_rest(s.rest);
    let n = name_of(s);
    if is_dot(n) {
    } else if is_dotdot(n) {
        lemma_canon_pop(fs, s.pre);
    } else if looked(fs, &s.cur, n, &t.cur) && !follows(all, s.rest, &t.cur)
        && t == (St { pre: s.pre + s.rest.take(s.rest.len() - tail_of(s).len()), rest: tail_of(s), cur: t.cur, links: s.links }) {
        let k = cut(s.rest);
        let p = s.pre + n;
        let tail = tail_of(s);
        assert(p.skip(s.pre.len() as int) =~= n);
        assert(p.take(s.pre.len() as int) =~= s.pre);
        lemma_upto_at(p, s.pre.len() - 1);
        assert(upto_sep(p) == s.pre);
        assert(s.pre != seq![47u8] ==> canon_comp(fs, s.pre.drop_last(), true));
        assert(forall|a: bool| (a ==> !(t.cur.metadata.file_type is Symlink)) ==> #[trigger] named(fs, n, a, &t.cur));
        if k < s.rest.len() {
            assert(t.pre =~= p.push(47u8)) by { assert(s.rest.take(s.rest.len() - tail.len()) =~= n.push(47u8)); }
            assert(t.pre.drop_last() =~= p);
            if !(t.cur.metadata.file_type is Symlink) { assert(named(fs, n, true, &t.cur)); assert(canon_comp(fs, p, true)); }
        } else {
            assert(t.pre =~= p);
            assert(p.last() == n.last());
            assert(n.last() == s.rest[k - 1]);
            assert(named(fs, n, all, &t.cur));
            assert(canon_comp(fs, p, all));
        }
    } else {
        let child = choose|child: Inode| #[trigger] at_link(fs, all, s, &child) && link_step(fs, s, &child, t);
        reveal(link_step);
        let x = target_of(fs, s, &child);
        if x[0] == 47u8 {
            lemma_dd(x);
            assert(seq![47u8] + dd(x).skip(1) =~= dd(x));
            assert(canon_dir(fs, seq![47u8]));
        } else {
            lemma_dd(seq![47u8] + x);
            assert(seq![47u8] + norm(x) =~= dd(seq![47u8] + x));
        }
    }
}
proof fn lemma_canon_walk(fs: &Ext4, all: bool, s: St, i: Inode, c: Seq<u8>)
    requires walk(fs, all, s, Out::Found(i, c)), canon_st(fs, all, s)
    ensures canonical(fs, c, all)
    decreases 40 - s.links, s.rest.len()
{
    let out = Out::Found(i, c);
    if ends(fs, all, s, out) {
        reveal(ends);
        reveal(link_ends);
        if s.rest.len() == 0 {
            if s.pre.len() > 1 && s.pre.last() == 47u8 {
                lemma_up(fs, s.pre.drop_last(), all);
                assert(canon_comp(fs, s.pre.drop_last(), all));
            } else if s.pre.last() == 47u8 { assert(s.pre =~= seq![47u8]); }
        }
    } else {
        let t = choose|t: St| #[trigger] step(fs, all, s, t) && walk(fs, all, t, out);
        lemma_canon_step(fs, all, s, t);
        reveal(step);
        reveal(link_step);
        assert(tail_of(s).len() < s.rest.len());
        lemma_canon_walk(fs, all, t, i, c);
    }
}
/// No symlink at the end, in particular.
proof fn lemma_up(fs: &Ext4, p: Seq<u8>, all: bool)
    ensures canon_comp(fs, p, true) ==> canon_comp(fs, p, all)
{
    if canon_comp(fs, p, true) {
        let name = p.skip(upto_sep(p).len() as int);
        let i = choose|i: Inode| #[trigger] named(fs, name, true, &i);
        assert(named(fs, name, all, &i));
    }
}
/// C13: whatever path is resolved, the path that comes out is canonical.
pub proof fn lemma_canonical(fs: &Ext4, path: Seq<u8>, all: bool)
    ensures forall|i: Inode, c: Seq<u8>| #[trigger] resolves(fs, path, all, Out::Found(i, c)) ==> canonical(fs, c, all)
{
    reveal(resolves);
    assert forall|i: Inode, c: Seq<u8>| #[trigger] resolves(fs, path, all, Out::Found(i, c)) implies canonical(fs, c, all) by {
        let root = choose|root: Inode| #[trigger] is_root(fs, &root)
            && walk(fs, all, St { pre: seq![47u8], rest: dd(path).skip(1), cur: root, links: 0 }, Out::Found(i, c));
        lemma_dd(path);
        assert(seq![47u8] + dd(path).skip(1) =~= dd(path));
        lemma_canon_walk(fs, all, St { pre: seq![47u8], rest: dd(path).skip(1), cur: root, links: 0 }, i, c);
    }
}
pub proof fn lemma_canonical_any(fs: &Ext4, all: bool)
    ensures forall|path: Seq<u8>, i: Inode, c: Seq<u8>| #[trigger] resolves(fs, path, all, Out::Found(i, c)) ==> canonical(fs, c, all)
{
    assert forall|path: Seq<u8>, i: Inode, c: Seq<u8>| #[trigger] resolves(fs, path, all, Out::Found(i, c)) implies canonical(fs, c, all) by {
        lemma_canonical(fs, path, all);
    }
}
%% module path
pub proof fn lemma_scan_end(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures comp_end(s, o) < s.len() ==> s[comp_end(s, o)] == 47u8
    decreases s.len() - o
{
    if o < s.len() && s[o] != 47u8 { lemma_scan_end(s, o + 1); }
}
