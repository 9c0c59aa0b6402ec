@ghost sp
// The rank of a result: failures, then by kind of change, then by percentage at reported precision (C10).
pub open spec fn change_cmp(a: TermChange, b: TermChange) -> std::cmp::Ordering {
    let k = ord_int(a.change.drank(), b.change.drank());
    if k != std::cmp::Ordering::Equal { k } else { ord_int(shown_percent(a), shown_percent(b)) }
}
pub open spec fn shown_percent(a: TermChange) -> int { i_of_f(fmul(a.percent, fbits(0x408f400000000000))) as int }
pub open spec fn change_of(d: TermDiff) -> Option<TermChange> {
    match d { TermDiff::Failed(_) => None, TermDiff::Warning(c, _) => Some(c), TermDiff::Changed(c) => Some(c) }
}
pub open spec fn diff_cmp(a: TermDiff, b: TermDiff) -> std::cmp::Ordering {
    match (change_of(a), change_of(b)) {
        (None, None) => std::cmp::Ordering::Equal,
        (None, _) => std::cmp::Ordering::Less,
        (_, None) => std::cmp::Ordering::Greater,
        (Some(a), Some(b)) => change_cmp(a, b),
    }
}
// The order is a total preorder: reflexive, total and transitive, and the two directions agree.
pub proof fn lemma_diff_cmp_preorder(a: TermDiff, b: TermDiff, c: TermDiff)
    ensures
        diff_cmp(a, a) == std::cmp::Ordering::Equal,
        diff_cmp(a, b) == std::cmp::Ordering::Less <==> diff_cmp(b, a) == std::cmp::Ordering::Greater,
        diff_cmp(a, b) == std::cmp::Ordering::Equal <==> diff_cmp(b, a) == std::cmp::Ordering::Equal,
        diff_cmp(a, b) != std::cmp::Ordering::Greater && diff_cmp(b, c) != std::cmp::Ordering::Greater ==> diff_cmp(a, c) != std::cmp::Ordering::Greater,
        // kinds rank unchanged, added, removed, changed
        RelativeChange::Unchanged.drank() < RelativeChange::Added.drank() < RelativeChange::Removed.drank() < RelativeChange::Changed.drank(),
{}
@end
@fn crate::TermChange::cmp
@ensures
        r == change_cmp(*self, *other),
@fn crate::TermDiff::cmp
@ensures
        r == diff_cmp(*self, *other),
@ghost vx
// `le` is a total preorder.
pub open spec fn preorder<T>(c: spec_fn(T, T) -> std::cmp::Ordering) -> bool {
    &&& forall|a: T| #[trigger] c(a, a) == std::cmp::Ordering::Equal
    &&& forall|a: T, b: T| #![trigger c(a, b)] c(a, b) == std::cmp::Ordering::Less <==> c(b, a) == std::cmp::Ordering::Greater
    &&& forall|a: T, b: T| #![trigger c(a, b)] c(a, b) == std::cmp::Ordering::Equal <==> c(b, a) == std::cmp::Ordering::Equal
    &&& forall|a: T, b: T, d: T| #[trigger] c(a, b) != std::cmp::Ordering::Greater && #[trigger] c(b, d) != std::cmp::Ordering::Greater ==> c(a, d) != std::cmp::Ordering::Greater
}
pub open spec fn is_sorted<T>(s: Seq<T>, c: spec_fn(T, T) -> std::cmp::Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> c(s[i], s[j]) != std::cmp::Ordering::Greater
}
pub open spec fn ties<T>(c: spec_fn(T, T) -> std::cmp::Ordering, x: T) -> spec_fn(T) -> bool { |y: T| c(x, y) == std::cmp::Ordering::Equal }
// Every element keeps its order relative to the elements that rank equal.
pub open spec fn stable<T>(s: Seq<T>, r: Seq<T>, c: spec_fn(T, T) -> std::cmp::Ordering) -> bool {
    forall|x: T| #[trigger] s.filter(ties(c, x)) == r.filter(ties(c, x))
}
#[verifier::external_body]
pub fn vec_sort_by<T, F: Fn(&T, &T) -> std::cmp::Ordering>(v: &mut Vec<T>, f: F, Ghost(c): Ghost<spec_fn(T, T) -> std::cmp::Ordering>)
    requires
        preorder(c),
        forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
        forall|a: T, b: T, o: std::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == c(a, b),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        is_sorted(final(v)@, c),
        stable(old(v)@, final(v)@, c),
{ unimplemented!() }
@end
@call slice::sort_by => crate::vx::vec_sort_by
@fn crate::sort_changes
@ensures
        final(diff)@.to_multiset() == old(diff)@.to_multiset(),
        is_sorted(final(diff)@, |a: ExtrinsicDiff, b: ExtrinsicDiff| diff_cmp(a.change, b.change)),
        stable(old(diff)@, final(diff)@, |a: ExtrinsicDiff, b: ExtrinsicDiff| diff_cmp(a.change, b.change)),
@at start
    proof {
        let c = |a: ExtrinsicDiff, b: ExtrinsicDiff| diff_cmp(a.change, b.change);
        assert forall|a: ExtrinsicDiff, b: ExtrinsicDiff, d: ExtrinsicDiff| true implies
            c(a, a) == std::cmp::Ordering::Equal
            && (c(a, b) == std::cmp::Ordering::Less <==> c(b, a) == std::cmp::Ordering::Greater)
            && (c(a, b) == std::cmp::Ordering::Equal <==> c(b, a) == std::cmp::Ordering::Equal)
            && (#[trigger] c(a, b) != std::cmp::Ordering::Greater && #[trigger] c(b, d) != std::cmp::Ordering::Greater ==> c(a, d) != std::cmp::Ordering::Greater)
        by { lemma_diff_cmp_preorder(a.change, b.change, d.change); }
        assert(preorder(c));
    }
@closure 0 ens
        ensures r == diff_cmp(a.change, b.change)
@closure 0 ghost
        Ghost(|a: ExtrinsicDiff, b: ExtrinsicDiff| diff_cmp(a.change, b.change))
@end
