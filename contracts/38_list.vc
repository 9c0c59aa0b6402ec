@ghost vx when split_at
#[verifier::external_body]
pub fn split_at<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == cut_at(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut_at(s@, c)[i]
{ unimplemented!() }
@end
@call str::split[char] => crate::vx::split_at
@call str::split => crate::vx::split_at
@ghost vx when glob_paths | GlobError
#[verifier::external_body]
pub struct GlobError { v: () }
#[verifier::external_body]
pub struct PatternError { v: () }
pub uninterp spec fn error_text<T>(e: T) -> Seq<char>;
impl VFmt for GlobError { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { error_text(*self) } }
impl VFmt for PatternError { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { error_text(*self) } }
#[verifier::external_body]
pub fn glob_escape(s: &str) -> (r: String) ensures r@ == literally(s@) { unimplemented!() }
// The entries a pattern matches: paths, or a directory that could not be read.
#[verifier::external_body]
pub fn glob_paths(s: &str, w: &World) -> (r: Result<Vec<Result<PathB, GlobError>>, PatternError>)
    ensures match r { Ok(v) => matches_of(disk(w@), s@) == Some(v@), Err(_) => matches_of(disk(w@), s@) is None }
{ unimplemented!() }
@end
@ghost vx when path_ends_with
#[verifier::external_body]
pub fn path_ends_with(p: &PathB, s: &str) -> (r: bool) ensures r == path_ends(p@, s@) { unimplemented!() }
@end
@ghost vx when path_sort
#[verifier::external_body]
pub fn path_sort(v: &mut Vec<PathB>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), in_order(final(v)@)
{ unimplemented!() }
@end
@ghost vx when path_dedup
// Of several equal neighbours only the first stays.
#[verifier::external_body]
pub fn path_dedup(v: &mut Vec<PathB>) ensures final(v)@ == paths_deduped(old(v)@) { unimplemented!() }
@end
@call glob::glob => crate::vx::glob_paths + __w
@call Pattern::escape => crate::vx::glob_escape
@call Path::ends_with => crate::vx::path_ends_with
@call slice::sort[Vec<PathBuf>] => crate::vx::path_sort
@call slice::sort_unstable[Vec<PathBuf>] => crate::vx::path_sort
@call Vec::dedup[Vec<PathBuf>] => crate::vx::path_dedup
@ghost sp
// A text cut at every occurrence of a character.
pub open spec fn cut_at(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] } else {
        let r = cut_at(s.drop_last(), c);
        if s.last() == c { r.push(Seq::empty()) } else { r.update(r.len() - 1, r.last().push(s.last())) }
    }
}
@end
@ghost sp when glob_paths | listing_of
// The pattern that matches only this text.
pub uninterp spec fn literally(s: Seq<char>) -> Seq<char>;
// What a pattern matches; `None` for an invalid pattern.
pub uninterp spec fn matches_of(f: Files, p: Seq<char>) -> Option<Seq<Result<PathB, GlobError>>>;
pub uninterp spec fn path_ends(p: Seq<char>, s: Seq<char>) -> bool;
// The order of paths, component by component.
pub uninterp spec fn path_le(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_path_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #![trigger path_le(a, b), path_le(b, c)] path_le(a, b) && path_le(b, c) ==> path_le(a, c)
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_path_total(a: Seq<char>, b: Seq<char>)
    ensures #![trigger path_le(a, b)] path_le(a, b) || path_le(b, a)
{ }
pub open spec fn path_same(a: Seq<char>, b: Seq<char>) -> bool { path_le(a, b) && path_le(b, a) }
pub open spec fn in_order(s: Seq<PathB>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] path_le(s[i]@, s[j]@) }
// In paths_ascending order, each once.
pub open spec fn paths_ascending(s: Seq<PathB>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> path_le(s[i]@, s[j]@) && !#[trigger] path_le(s[j]@, s[i]@) }
pub open spec fn paths_deduped(s: Seq<PathB>) -> Seq<PathB>
    decreases s.len()
{
    if s.len() <= 1 { s } else {
        let r = paths_deduped(s.drop_last());
        if path_same(s[s.len() - 2]@, s.last()@) { r } else { r.push(s.last()) }
    }
}
pub open spec fn has_path(s: Seq<PathB>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && path_same(#[trigger] s[i]@, p) }
pub proof fn lemma_deduped(s: Seq<PathB>)
    requires in_order(s)
    ensures
        paths_ascending(paths_deduped(s)),
        paths_deduped(s).len() <= s.len(),
        s.len() > 0 ==> paths_deduped(s).len() > 0 && path_same(paths_deduped(s).last()@, s.last()@),
        forall|p: Seq<char>| has_path(s, p) == #[trigger] has_path(paths_deduped(s), p),
    decreases s.len()
{
    broadcast use {axiom_path_order, axiom_path_total};
    if s.len() > 1 {
        let t = s.drop_last();
        lemma_deduped(t);
        let r = paths_deduped(t);
        let d = paths_deduped(s);
        assert(t.last() == s[s.len() - 2]);
        assert(path_le(s[s.len() - 2]@, s.last()@));
        assert(path_same(r.last()@, t.last()@));
        assert forall|p: Seq<char>| has_path(s, p) == #[trigger] has_path(d, p) by {
            assert(has_path(t, p) == has_path(r, p));
            if has_path(s, p) {
                let i = choose|i: int| 0 <= i < s.len() && path_same(#[trigger] s[i]@, p);
                if i < t.len() { assert(t[i] == s[i]); assert(has_path(t, p)); let k = choose|k: int| 0 <= k < r.len() && path_same(#[trigger] r[k]@, p); assert(d[k] == r[k]); }
                else if d =~= r { assert(path_same(r.last()@, p)); assert(d[r.len() - 1] == r.last()); }
                else { assert(d.last() == s.last()); assert(d[d.len() - 1] == s.last()); }
            }
            if has_path(d, p) {
                let k = choose|k: int| 0 <= k < d.len() && path_same(#[trigger] d[k]@, p);
                if k < r.len() { assert(d[k] == r[k]); assert(has_path(r, p)); let i = choose|i: int| 0 <= i < t.len() && path_same(#[trigger] t[i]@, p); assert(s[i] == t[i]); }
                else { assert(d[k] == s.last()); assert(s[s.len() - 1] == s.last()); }
            }
        }
        if !path_same(t.last()@, s.last()@) {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies path_le(d[i]@, d[j]@) && !#[trigger] path_le(d[j]@, d[i]@) by {
                if j < r.len() { assert(path_le(r[i]@, r[j]@) && !path_le(r[j]@, r[i]@)); }
                else {
                    if i < r.len() - 1 { assert(path_le(r[i]@, r[r.len() - 1]@) && !path_le(r[r.len() - 1]@, r[i]@)); }
                    assert(path_le(d[i]@, r.last()@));
                }
            }
        }
    } else {
        assert forall|p: Seq<char>| has_path(s, p) == #[trigger] has_path(paths_deduped(s), p) by {}
        if s.len() == 1 { assert(path_le(s[0]@, s[0]@)); }
    }
}
pub proof fn lemma_paths_multiset(s: Seq<PathB>, t: Seq<PathB>, p: Seq<char>)
    requires s.to_multiset() == t.to_multiset(), has_path(s, p)
    ensures has_path(t, p)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let i = choose|i: int| 0 <= i < s.len() && path_same(#[trigger] s[i]@, p);
    assert(s.contains(s[i]));
    assert(t.to_multiset().count(s[i]) > 0);
    assert(t.contains(s[i]));
    let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
    assert(path_same(t[j]@, p));
}
// Sorted and then deduplicated.
pub open spec fn arranged(m: Seq<PathB>, v: Seq<PathB>) -> bool { exists|t: Seq<PathB>| t.to_multiset() == m.to_multiset() && in_order(t) && v == #[trigger] paths_deduped(t) }
pub proof fn lemma_listing(m: Seq<PathB>, r: Result<Vec<PathB>, DynError>)
    ensures r is Ok && arranged(m, r->Ok_0@) ==> paths_ascending(r->Ok_0@) && forall|p: Seq<char>| #[trigger] has_path(r->Ok_0@, p) == has_path(m, p)
{
    if r is Ok && arranged(m, r->Ok_0@) {
        let v = r->Ok_0@;
        let t = choose|t: Seq<PathB>| t.to_multiset() == m.to_multiset() && in_order(t) && v == #[trigger] paths_deduped(t);
        lemma_deduped(t);
        assert forall|p: Seq<char>| #[trigger] has_path(v, p) == has_path(m, p) by {
            if has_path(t, p) { lemma_paths_multiset(t, m, p); }
            if has_path(m, p) { lemma_paths_multiset(m, t, p); }
        }
    }
}
// One comma-separated alternative, below the literal directory.
pub open spec fn pattern_of(base: Seq<char>, a: Seq<char>) -> Seq<char> { literally(base) + "/"@ + a }
pub open spec fn readable_match(v: Option<Seq<Result<PathB, GlobError>>>) -> bool { v is Some && forall|k: int| 0 <= k < v->0.len() ==> (#[trigger] v->0[k]) is Ok }
pub open spec fn ok_paths(v: Seq<Result<PathB, GlobError>>) -> Seq<PathB> { Seq::new(v.len(), |k: int| v[k]->Ok_0) }
pub open spec fn no_module(p: PathB) -> bool { !path_ends(p@, "mod.rs"@) }
pub open spec fn source_files(s: Seq<PathB>) -> Seq<PathB>
    decreases s.len()
{
    if s.len() == 0 { s } else if no_module(s.last()) { source_files(s.drop_last()).push(s.last()) } else { source_files(s.drop_last()) }
}
// All matches of the alternatives, in turn.
pub open spec fn all_matches(f: Files, base: Seq<char>, alts: Seq<Seq<char>>) -> Seq<PathB>
    decreases alts.len()
{
    if alts.len() == 0 { Seq::empty() } else { all_matches(f, base, alts.drop_last()) + source_files(ok_paths(matches_of(f, pattern_of(base, alts.last()))->0)) }
}
pub open spec fn all_readable(f: Files, base: Seq<char>, alts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < alts.len() ==> readable_match(matches_of(f, pattern_of(base, #[trigger] alts[i]))) }
// The listing_of of a path pattern.
pub open spec fn listing_of(f: Files, base: Seq<char>, pat: Seq<char>, max: int, v: Seq<PathB>) -> bool {
    let m = all_matches(f, base, cut_at(pat, ','));
    &&& all_readable(f, base, cut_at(pat, ','))
    &&& m.len() <= max
    &&& paths_ascending(v)
    &&& forall|p: Seq<char>| #[trigger] has_path(v, p) == has_path(m, p)
}
pub open spec fn unlistable(f: Files, base: Seq<char>, pat: Seq<char>, max: int) -> bool {
    !all_readable(f, base, cut_at(pat, ',')) || all_matches(f, base, cut_at(pat, ',')).len() > max
}
pub proof fn lemma_matched_grows(f: Files, base: Seq<char>, alts: Seq<Seq<char>>, k: int)
    requires 0 <= k <= alts.len()
    ensures all_matches(f, base, alts.take(k)).len() <= all_matches(f, base, alts).len()
    decreases alts.len()
{
    if k < alts.len() {
        lemma_matched_grows(f, base, alts.drop_last(), k);
        assert(alts.drop_last().take(k) =~= alts.take(k));
    } else { assert(alts.take(k) =~= alts); }
}
@end
@fn crate::list_files
@params __w: &crate::vx::World
@pass __w
@args base_path regex max_files
@fmt
@at start
            let ghost f = disk(__w@);
            let ghost base = base_path@;
            let ghost pattern = regex@;
@ensures
        match r {
            Ok(v) => listing_of(disk(__w@), base_path@, regex@, max_files as int, v@),
            Err(_) => unlistable(disk(__w@), base_path@, regex@, max_files as int),
        },
@loop 0 inv
            invariant
                $src@.len() == cut_at(pattern, ',').len(),
                forall|k: int| 0 <= k < $src@.len() ==> (#[trigger] $src@[k])@ == cut_at(pattern, ',')[k],
                base_path@ == literally(base),
                paths@ =~= all_matches(f, base, cut_at(pattern, ',').take($i as int)),
                all_readable(f, base, cut_at(pattern, ',').take($i as int)),
                paths@.len() <= max_files,
@loop 0 start
            proof {
                let alts = cut_at(pattern, ',');
                lemma_matched_grows(f, base, alts, $i + 1);
                assert(alts.take($i + 1).drop_last() =~= alts.take($i as int));
                assert(alts.take($i + 1).last() == alts[$i as int]);
                assert("/"@.len() == 1) by { reveal_strlit("/"); }
            }
@loop 0 after
            proof { assert(cut_at(pattern, ',').take($n as int) =~= cut_at(pattern, ',')); }
@loop 1 inv
            invariant
                $acc@ =~= source_files($src@.take($i as int)),
@loop 1 start
            proof { assert($src@.take($i + 1).drop_last() =~= $src@.take($i as int)); }
@loop 1 after
            proof {
                let alts = cut_at(pattern, ',');
                let m = matches_of(f, pattern_of(base, alts[$i0 as int]))->0;
                assert($src@ =~= ok_paths(m));
                assert($src@.take($n as int) =~= $src@);
            }
@at end
            proof {
                lemma_listing(all_matches(f, base, cut_at(pattern, ',')), __ret);
            }
@end
