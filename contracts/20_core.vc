@ghost sp
// Whether the filter keeps a change (C09).
pub open spec fn wanted(p: FilterParams, c: RelativeChange) -> bool {
    match p.change { Some(s) => s@.contains(c), None => true }
}
pub open spec fn kept_change(p: FilterParams, c: TermChange) -> bool {
    &&& wanted(p, c.change)
    &&& c.change == RelativeChange::Changed ==> !flt(fabs(c.percent), p.threshold)
    &&& c.change == RelativeChange::Unchanged ==> !fle(fbits(0x3eb0c6f7a0b5ed8d), p.threshold)
}
pub open spec fn kept(p: FilterParams, d: ExtrinsicDiff) -> bool {
    match d.change {
        TermDiff::Failed(_) => true,
        TermDiff::Warning(c, _) => kept_change(p, c),
        TermDiff::Changed(c) => kept_change(p, c),
    }
}
@end
@fn crate::FilterParams::included
@ensures
        r == wanted(*self, *change),
@fn crate::filter_changes
@ensures
        r@ == diff@.filter(|d: ExtrinsicDiff| kept(*params, d)),
@loop 0 inv
            invariant
                $acc@ == $src@.take($i as int).filter(|d: ExtrinsicDiff| kept(*params, d)),
@loop 0 start
            proof { lemma_filter_push($src@, $i as int, |d: ExtrinsicDiff| kept(*params, d)); }
@loop 0 after
            proof { assert($src@.take($n as int) =~= $src@); }
@end
@ghost sp
pub proof fn lemma_filter_push<T>(s: Seq<T>, i: int, f: spec_fn(T) -> bool)
    requires 0 <= i < s.len()
    ensures s.take(i + 1).filter(f) == if f(s[i]) { s.take(i).filter(f).push(s[i]) } else { s.take(i).filter(f) }
{
    reveal(Seq::filter);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
@end
