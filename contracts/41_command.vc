# The command line: `main` hands the right things to the parts proved above (one contract per property, the
# conditions being about different parts of it).
@ghost sp when shown_some | shown_kept
// Shown is a list of which every member is one of `d`.
pub open spec fn shown_some(d: Seq<ExtrinsicDiff>, f: FormatParams, u: Dimension, verbose: bool, a: Seq<char>, b: Seq<char>) -> bool {
    exists|l: Seq<ExtrinsicDiff>| #[trigger] shown_in(l, f, u, verbose, a, b) && (forall|x: ExtrinsicDiff| #[trigger] l.contains(x) ==> d.contains(x))
}
// Shown are exactly the members of `d` that the filter keeps.
pub open spec fn shown_kept(d: Seq<ExtrinsicDiff>, q: FilterParams, f: FormatParams, u: Dimension, verbose: bool, a: Seq<char>, b: Seq<char>) -> bool {
    exists|l: Seq<ExtrinsicDiff>| #[trigger] shown_in(l, f, u, verbose, a, b) && l.to_multiset() =~= d.to_multiset().filter(|x: ExtrinsicDiff| kept(q, x))
}
pub broadcast proof fn lemma_reversed<T>(s: Seq<T>)
    ensures #[trigger] s.reverse().to_multiset() == s.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(s.reverse() =~= s); } else {
        let (t, x) = (s.drop_last(), s.last());
        lemma_reversed(t);
        assert(s =~= t.push(x));
        assert(s.reverse() =~= seq![x] + t.reverse());
        vstd::seq_lib::lemma_multiset_commutative(seq![x], t.reverse());
        assert(Seq::<T>::empty().push(x) =~= seq![x]);
        assert(seq![x].to_multiset() =~= vstd::multiset::Multiset::<T>::empty().insert(x));
        assert(s.to_multiset() =~= t.to_multiset().insert(x));
        assert(s.reverse().to_multiset() =~= seq![x].to_multiset().add(t.to_multiset()));
        assert(s.reverse().to_multiset() =~= s.to_multiset());
    }
}
pub broadcast proof fn lemma_kept_all<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures #[trigger] s.filter(f).to_multiset() == s.to_multiset().filter(f)
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(Seq::filter);
    if s.len() == 0 { assert(s.filter(f).to_multiset() =~= s.to_multiset().filter(f)); } else {
        let (t, x) = (s.drop_last(), s.last());
        lemma_kept_all(t, f);
        assert(s =~= t.push(x));
        assert(s.to_multiset() =~= t.to_multiset().insert(x));
        if f(x) { assert(s.filter(f) == t.filter(f).push(x)); assert(s.to_multiset().filter(f) =~= t.to_multiset().filter(f).insert(x)); }
        else { assert(s.filter(f) == t.filter(f)); assert(s.to_multiset().filter(f) =~= t.to_multiset().filter(f)); }
    }
}
// The members of a list are those of its multiset.
pub broadcast proof fn lemma_members<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.contains(x) <==> s.to_multiset().count(x) > 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}
pub broadcast group lists_shown { lemma_reversed, lemma_kept_all, lemma_members }
@end
@fn cli::main for C09
@params __w: &mut crate::vx::World, __out: &mut crate::vx::Out
@pass __w, __out
@requires
        usable(given()),
@ensures
        r is Ok ==> (match given().subcommand {
            SubCommand::Compare(CompareCmd::Files(c)) => exists|d: Seq<ExtrinsicDiff>, o: Exts, n: Exts| #[trigger] pairs_of(d, o, n, c.params, c.filter) && shown_kept(d, c.filter, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@),
            SubCommand::Compare(CompareCmd::Commits(c)) => exists|d: Seq<ExtrinsicDiff>, o: Exts, n: Exts| #[trigger] pairs_of(d, o, n, c.params, c.filter) && shown_kept(d, c.filter, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@),
            _ => true,
        }),
@at start
    broadcast use lists_shown;
@end
@ghost sp when files_gathered | files_compared
// The functions of the files named on the command line; without ignoring errors only if all of them parse.
pub open spec fn files_gathered(w: WorldV, ps: Seq<PathB>, v: Exts, ignore: bool) -> bool { gathered(disk(w), PathStripping::FileName, "."@, ps, v, ignore) }
// Shown are results of comparing what the two lists of files contain.
pub open spec fn files_compared(w: WorldV, old: Seq<PathB>, new: Seq<PathB>, d: Seq<ExtrinsicDiff>, p: CompareParams, q: FilterParams) -> bool {
    exists|o: Exts, n: Exts| #[trigger] files_gathered(w, old, o, p.ignore_errors) && #[trigger] files_gathered(w, new, n, p.ignore_errors) && pairs_of(d, o, n, p, q)
}
pub broadcast proof fn lemma_files_gathered(w: WorldV, ps: Seq<PathB>, v: Exts, e: bool)
    requires #[trigger] gathered(disk(w), PathStripping::FileName, "."@, ps, v, e)
    ensures files_gathered(w, ps, v, e)
{}
pub broadcast proof fn lemma_files_compared(w: WorldV, old: Seq<PathB>, new: Seq<PathB>, o: Exts, n: Exts, d: Seq<ExtrinsicDiff>, p: CompareParams, q: FilterParams, e: bool)
    requires #[trigger] files_gathered(w, old, o, e), #[trigger] files_gathered(w, new, n, e), #[trigger] pairs_of(d, o, n, p, q), e == p.ignore_errors
    ensures files_compared(w, old, new, d, p, q)
{
    assert(files_gathered(w, old, o, p.ignore_errors) && files_gathered(w, new, n, p.ignore_errors));
}
@end
@fn cli::main for C08
@params __w: &mut crate::vx::World, __out: &mut crate::vx::Out
@pass __w, __out
@requires
        usable(given()),
@ensures
        r is Ok ==> (match given().subcommand {
            SubCommand::Compare(CompareCmd::Files(c)) => exists|d: Seq<ExtrinsicDiff>| #[trigger] files_compared(old(__w)@, c.old@, c.new@, d, c.params, c.filter) && shown_some(d, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@),
            _ => true,
        }),
@at start
    broadcast use {lists_shown, lemma_files_gathered, lemma_files_compared};
@fn cli::main for C12
@params __w: &mut crate::vx::World, __out: &mut crate::vx::Out
@pass __w, __out
@requires
        usable(given()),
@ensures
        match given().subcommand {
            SubCommand::Compare(CompareCmd::Files(c)) => match r {
                Ok(_) => exists|o: Exts, n: Exts| #[trigger] files_gathered(old(__w)@, c.old@, o, c.params.ignore_errors) && #[trigger] files_gathered(old(__w)@, c.new@, n, c.params.ignore_errors),
                Err(_) => c.params.ignore_errors ==> bad_filter(c.filter.extrinsic) || bad_filter(c.filter.pallet) || exists|l: Seq<ExtrinsicDiff>| #[trigger] rendered(l, c.format, c.params.unit) is None,
            },
            SubCommand::Parse(ParseCmd::Files(c)) => match r {
                Ok(_) => exists|v: Exts| #[trigger] files_gathered(old(__w)@, c.files@, v, false),
                Err(_) => exists|i: int, e: String| 0 <= i < c.files@.len() && #[trigger] file_outcome(disk(old(__w)@), PathStripping::FileName, "."@, c.files@[i]@, Err::<Vec<ChromaticExtrinsic>, String>(e)),
            },
            _ => true,
        },
@at start
    broadcast use lemma_files_gathered;
@fn cli::main for C13
@params __w: &mut crate::vx::World, __out: &mut crate::vx::Out
@pass __w, __out
@requires
        usable(given()),
@ensures
        match given().subcommand {
            SubCommand::Compare(CompareCmd::Commits(c)) => {
                &&& text_occurs(".."@, c.path_pattern@) ==> r is Err && final(__w)@ == old(__w)@
                &&& does_either(old(__w)@, final(__w)@, c.repo@, c.old@, c.new@, pulls(c.params))
                &&& r is Ok ==> exists|d: Seq<ExtrinsicDiff>| #[trigger] commits_compared(old(__w)@, final(__w)@, c.repo@, c.old@, c.new@, c.params, c.filter, c.path_pattern@, usize::MAX as int, d) && shown_some(d, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@)
            },
            _ => final(__w)@ == old(__w)@,
        },
@at start
    broadcast use lists_shown;
@end
