%% noderive path::PathBuf => Clone
%% module path
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ { unimplemented!() }
}
%% module path
pub open spec fn has_sep(s: Seq<u8>, a: int, b: int) -> bool { exists|k: int| a <= k < b && #[trigger] s[k] == 47u8 }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0u8 }
/// No NUL byte, and no component longer than 255 bytes (every 256 consecutive bytes contain a separator).
pub open spec fn path_ok(s: Seq<u8>) -> bool {
    &&& no_nul(s)
    &&& forall|a: int| 0 <= a && a + 256 <= s.len() ==> #[trigger] has_sep(s, a, a + 256)
}
/// First position from `o` on that is not a separator (or the end).
pub open spec fn skip_seps(s: Seq<u8>, o: int) -> int decreases s.len() - o {
    if 0 <= o < s.len() && s[o] == 47u8 { skip_seps(s, o + 1) } else { o }
}
/// First separator from `o` on (or the end).
pub open spec fn comp_end(s: Seq<u8>, o: int) -> int decreases s.len() - o {
    if 0 <= o < s.len() && s[o] != 47u8 { comp_end(s, o + 1) } else { o }
}
pub proof fn lemma_scan(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures o <= skip_seps(s, o) <= s.len(), o <= comp_end(s, o) <= s.len(),
        skip_seps(s, o) < s.len() ==> s[skip_seps(s, o)] != 47u8,
        forall|i: int| o <= i < comp_end(s, o) ==> s[i] != 47u8,
        o < s.len() && s[o] != 47u8 ==> comp_end(s, o) > o,
    decreases s.len() - o
{
    if o < s.len() { lemma_scan(s, o + 1); }
}
/// The components of the path from offset `o`: `/` for a leading root, then the non-empty parts.
pub open spec fn comps(s: Seq<u8>, o: int) -> Seq<Seq<u8>> decreases s.len() - o
    when 0 <= o via comps_dec
{
    if o >= s.len() { Seq::empty() }
    else if o == 0 && s[0] == 47u8 { seq![seq![47u8]] + comps(s, 1) }
    else {
        let b = skip_seps(s, o);
        if b >= s.len() { Seq::empty() }
        else { seq![s.subrange(b, comp_end(s, b))] + comps(s, comp_end(s, b)) }
    }
}
#[via_fn]
proof fn comps_dec(s: Seq<u8>, o: int) {
    if 0 <= o < s.len() { lemma_scan(s, o); if skip_seps(s, o) < s.len() { lemma_scan(s, skip_seps(s, o)); } }
}
pub open spec fn path_err(s: Seq<u8>) -> PathError { if no_nul(s) { PathError::ComponentTooLong } else { PathError::ContainsNull } }
/// Joining: an absolute argument replaces, a relative one is appended with exactly one separator.
pub open spec fn join_bytes(s: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    if p.len() > 0 && p[0] == 47u8 { p }
    else if s.len() > 0 && s.last() != 47u8 { s + seq![47u8] + p }
    else { s + p }
}
pub proof fn lemma_join_ok(s: Seq<u8>, p: Seq<u8>)
    requires path_ok(s), path_ok(p)
    ensures path_ok(join_bytes(s, p))
{
    let j = join_bytes(s, p);
    if !(p.len() > 0 && p[0] == 47u8) {
        let m = j.len() - p.len();
        assert(m == 0 || j[m - 1] == 47u8);
        assert forall|a: int| 0 <= a && a + 256 <= j.len() implies #[trigger] has_sep(j, a, a + 256) by {
            if a >= m {
                assert(has_sep(p, a - m, a - m + 256));
                let k = choose|k: int| a - m <= k < a - m + 256 && #[trigger] p[k] == 47u8;
                assert(j[k + m] == 47u8);
            } else if a + 256 <= s.len() {
                assert(has_sep(s, a, a + 256));
                let k = choose|k: int| a <= k < a + 256 && #[trigger] s[k] == 47u8;
                assert(j[k] == 47u8);
            } else {
                assert(j[m - 1] == 47u8);
            }
        }
        assert forall|i: int| 0 <= i < j.len() implies #[trigger] j[i] != 0u8 by {
            if i < s.len() { assert(j[i] == s[i]); } else if i >= m { assert(j[i] == p[i - m]); }
        }
    }
}
pub proof fn lemma_name_ok(s: Seq<u8>)
    requires crate::dir_entry::name_ok(s)
    ensures path_ok(s)
{}
impl<'a> Path<'a> {
    pub open spec fn wf(&self) -> bool { path_ok(self.0@) }
}
impl PathBuf {
    pub open spec fn wf(&self) -> bool { path_ok(self.0@) }
}
impl<'a> crate::vx::AsRefSpecImpl<[u8]> for Path<'a> {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { self.0@ }
    open spec fn as_ref_view(t: &[u8]) -> Seq<u8> { t@ }
}
%% module path
impl crate::vx::AsRefSpecImpl<[u8]> for PathBuf {
    open spec fn obeys_as_ref_spec() -> bool { true }
    open spec fn as_ref_bytes(&self) -> Seq<u8> { self.0@ }
    open spec fn as_ref_view(t: &[u8]) -> Seq<u8> { t@ }
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for Path<'a> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: &'a [u8]) -> Result<Path<'a>, PathError> {
        if path_ok(s@) { Ok(Path(s)) } else { Err(path_err(s@)) }
    }
}
%% fn path::Path::new
@props C14
@ret r
@spec
    requires ref_obeys::<P>(), path_ok(ref_bytes(p))
    ensures r.wf(), r.0@ == ref_bytes(p)
%% fn path::Path::is_absolute
@props C14
@ret r
@spec
    ensures r == (self.0@.len() > 0 && self.0@[0] == 47u8)
%% fn path::Path::join
@props C14
@ret r
@spec
    requires self.wf(), ref_obeys::<VxT0>(), path_ok(ref_bytes(&path))
    ensures r.wf(), r.0@ == join_bytes(self.0@, ref_bytes(&path))
%% fn path::Path::components
@props C14
@ret r
@spec
    ensures r.path == self, r.offset == 0, r.rest() == comps(self.0@, 0)
%% fn path::Path::to_str
@props C14 C17
@ret r
@spec
    ensures r is Ok == is_utf8(self.0@), r matches Ok(x) ==> utf8_of(x) == self.0@
%% fn path::Path<'a>@TryFrom<&'astr>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(utf8_of(s)), r matches Ok(p) ==> p.0@ == utf8_of(s)
%% fn path::Path<'a>@TryFrom<&'aString>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(utf8_of_string(*s)), r matches Ok(p) ==> p.0@ == utf8_of_string(*s)
%% fn path::Path<'a>@TryFrom<&'a[u8;N]>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(a@), r matches Ok(p) ==> p.0@ == a@
%% fn path::Path<'a>@TryFrom<&'a[u8]>::try_from
@props C14
@start
    let ghost mut p: int = 0;
@before ^for component in
    proof {
        assert forall|i: int| 0 <= i < s@.len() implies #[trigger] s@[i] != 0u8 by { if s@[i] == 0u8 { assert(s@.contains(0u8)); } }
    }
@closure 0 |b: &u8| -> (x: bool) ensures x == (*b == 47u8)
@loop 0
    invariant
        0 <= p <= s@.len(), no_nul(s@),
        !vx_it0.done ==> vx_it0.s@ == s@.skip(p) && (p == 0 || s@[p - 1] == 47u8),
        forall|b: &u8| #[trigger] vx_it0.f.requires((b,)),
        forall|b: &u8, x: bool| #[trigger] vx_it0.f.ensures((b,), x) ==> x == (*b == 47u8),
        forall|a: int| 0 <= a && a + 256 <= p ==> #[trigger] has_sep(s@, a, a + 256),
        vx_it0.done ==> p == s@.len(),
    ensures p == s@.len()
    decreases s@.len() + (if vx_it0.done { 0int } else { 1int }) - p
@before ^if component.len() > DirEntryName::MAX_LEN {
    let ghost q = p + component@.len();
    proof {
        assert forall|i: int| p <= i < q implies #[trigger] s@[i] != 47u8 by { assert(component@[i - p] == vx_prev0.s@[i - p]); assert(s@[i] == vx_prev0.s@[i - p]); assert(vx_prev0.f.ensures((&vx_prev0.s@[i - p],), false)); }
        if component@.len() > 255 { assert(p + 256 <= s@.len()); assert(!has_sep(s@, p, p + 256)); }
    }
@loopend 0
    proof {
        assert forall|a: int| 0 <= a && a + 256 <= (if vx_it0.done { q } else { q + 1 }) implies #[trigger] has_sep(s@, a, a + 256) by {
            if a + 256 > p {
                if a < p { assert(s@[p - 1] == 47u8); }
                else { assert(!vx_it0.done); assert(vx_prev0.f.ensures((&vx_prev0.s@[component@.len() as int],), true)); assert(s@[q] == 47u8); }
            }
        }
        p = if vx_it0.done { q } else { q + 1 };
        if !vx_it0.done { assert(vx_it0.s@ =~= s@.skip(p)); assert(vx_prev0.f.ensures((&vx_prev0.s@[component@.len() as int],), true)); }
    }
%% fn path::PathBuf::new
@props C14
@ret r
@spec
    requires ref_obeys::<P>(), path_ok(ref_bytes(p))
    ensures r.wf(), r.0@ == ref_bytes(p)
%% fn path::PathBuf::empty
@props C14
@ret r
@spec
    ensures r.wf(), r.0@ == Seq::<u8>::empty()
%% fn path::PathBuf::as_path
@props C14
@ret r
@spec
    ensures r.0@ == self.0@
%% fn path::PathBuf::is_absolute
@props C14
@ret r
@spec
    ensures r == (self.0@.len() > 0 && self.0@[0] == 47u8)
%% fn path::PathBuf::push
@props C14
@spec
    requires old(self).wf(), ref_obeys::<VxT0>(), path_ok(ref_bytes(&path))
    ensures final(self).wf(), final(self).0@ == join_bytes(old(self).0@, ref_bytes(&path))
%% fn path::PathBuf::push::inner
@props C14 C01
@spec
    requires old(this).wf(), path_ok(p@)
    ensures final(this).wf(), final(this).0@ == join_bytes(old(this).0@, p@)
@start
    let ghost pb = p@;
    let ghost sb = this.0@;
    proof { lemma_join_ok(this.0@, p@); }
@before ^return;
    proof { assert(this.0@ =~= join_bytes(sb, pb)); }
@tail
    proof { assert(this.0@ =~= join_bytes(sb, pb)); }
%% fn path::PathBuf::join
@props C14
@ret r
@spec
    requires self.wf(), ref_obeys::<VxT0>(), path_ok(ref_bytes(&path))
    ensures r.wf(), r.0@ == join_bytes(self.0@, ref_bytes(&path))
%% fn path::PathBuf::components
@props C14
@ret r
@spec
    ensures r.path.0@ == self.0@, r.offset == 0, r.rest() == comps(self.0@, 0)
%% fn path::PathBuf::to_str
@props C14 C17
@ret r
@spec
    ensures r is Ok == is_utf8(self.0@), r matches Ok(x) ==> utf8_of(x) == self.0@
%% fn path::PathBuf@TryFrom<&str>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(utf8_of(s)), r matches Ok(p) ==> p.0@ == utf8_of(s)
%% fn path::PathBuf@TryFrom<&String>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(utf8_of_string(*s)), r matches Ok(p) ==> p.0@ == utf8_of_string(*s)
%% fn path::PathBuf@TryFrom<String>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(utf8_of_string(s)), r matches Ok(p) ==> p.0@ == utf8_of_string(s)
%% fn path::PathBuf@TryFrom<&[u8]>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(s@), r matches Ok(p) ==> p.0@ == s@
%% fn path::PathBuf@TryFrom<&[u8;N]>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(a@), r matches Ok(p) ==> p.0@ == a@
%% fn path::PathBuf@TryFrom<Vec<u8>>::try_from
@props C14
@ret r
@spec
    ensures r is Ok == path_ok(s@), r matches Ok(p) ==> p.0@ == s@
%% fn path::PathBuf@From<Path<'a>>::from
@props C14
@ret r
@spec
    ensures r.0@ == p.0@
%% fn path::Path<'a>@TryFrom<&'aPathBuf>::try_from
@props C14
@ret r
@spec
    ensures r matches Ok(x) && x.0@ == p.0@
%% fn path::Component::normal
@props C14
@ret r
@spec
    requires ref_obeys::<T>()
    ensures r is Ok == crate::dir_entry::name_ok(ref_bytes(name)),
        r matches Ok(c) ==> (c matches Component::Normal(n) && n.0@ == ref_bytes(name))
%% module path
impl<'a> Component<'a> {
    /// The text of a component.
    pub open spec fn text(&self) -> Seq<u8> {
        match self {
            Component::RootDir => seq![47u8],
            Component::CurDir => seq![46u8],
            Component::ParentDir => seq![46u8, 46u8],
            Component::Normal(n) => n.0@,
        }
    }
    /// `Normal` holds a legal name other than `.` and `..`.
    pub open spec fn wf(&self) -> bool {
        self matches Component::Normal(n) ==> crate::dir_entry::name_ok(n.0@) && n.0@ != seq![46u8] && n.0@ != seq![46u8, 46u8]
    }
}
impl<'a> Components<'a> {
    pub open spec fn rest(&self) -> Seq<Seq<u8>> { comps(self.path.0@, self.offset as int) }
}
%% fn path::Components<'a>@Iterator::next
@props C14 C01 C02
@ret r
@spec
    requires old(self).offset <= old(self).path.0@.len()
    ensures
        final(self).path == old(self).path,
        r is None ==> old(self).rest() == Seq::<Seq<u8>>::empty() && final(self).rest() == old(self).rest(),
        r matches Some(c) ==> old(self).rest() == seq![c.text()] + final(self).rest()
            && old(self).offset < final(self).offset <= old(self).path.0@.len()
            && (old(self).path.wf() ==> c.wf()),
@closure 0 |b: &u8| -> (x: bool) ensures x == (*b == 47u8)
@loop 0
    invariant
        *path == self.path.0, self.path == old(self).path, old(self).offset <= self.offset <= path@.len(),
        skip_seps(path@, self.offset as int) == skip_seps(path@, old(self).offset as int),
    decreases path@.len() - self.offset
@start
    proof {
        lemma_scan(self.path.0@, self.offset as int);
        lemma_scan(self.path.0@, skip_seps(self.path.0@, self.offset as int));
    }
@before ^let component = &path[
    proof {
        assert forall|i: int| self.offset <= i < end implies path@[i] != 47u8 by { assert(path@.skip(self.offset as int)[i - self.offset] == path@[i]); }
        lemma_comp_end(path@, self.offset as int, end as int);
    }
@before ^Some(component)
    proof {
        let c = path@.subrange(skip_seps(path@, old(self).offset as int), end as int);
        if path_ok(path@) { lemma_comp_name(path@, skip_seps(path@, old(self).offset as int), end as int); }
        assert(component.text() =~= c);
    }
%% module path
pub proof fn lemma_comp_end(s: Seq<u8>, o: int, e: int)
    requires 0 <= o <= e <= s.len(), forall|i: int| o <= i < e ==> s[i] != 47u8, e < s.len() ==> s[e] == 47u8
    ensures comp_end(s, o) == e
    decreases e - o
{
    if o < e { lemma_comp_end(s, o + 1, e); }
}
pub proof fn lemma_comp_name(s: Seq<u8>, b: int, e: int)
    requires path_ok(s), 0 <= b < e <= s.len(), forall|i: int| b <= i < e ==> s[i] != 47u8
    ensures crate::dir_entry::name_ok(s.subrange(b, e))
{
    let n = s.subrange(b, e);
    if n.len() > 255 { assert(has_sep(s, b, b + 256)); }
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != 0u8 && n[i] != 47u8 by { assert(n[i] == s[b + i]); }
}
