@ghost sp
// The advertised names (C21).
pub open spec fn method_name(m: CompareMethod) -> Seq<char> {
    match m {
        CompareMethod::Base => "base"@,
        CompareMethod::GuessWorst => "guess-worst"@,
        CompareMethod::ExactWorst => "exact-worst"@,
        CompareMethod::ExactAsymptotic => "exact-asymptotic"@,
        CompareMethod::Asymptotic => "asymptotic"@,
    }
}
pub proof fn lemma_method_words()
    ensures
        "base"@ != "guess-worst"@,
        "base"@ != "exact-worst"@,
        "base"@ != "exact-asymptotic"@,
        "base"@ != "asymptotic"@,
        "guess-worst"@ != "exact-worst"@,
        "guess-worst"@ != "exact-asymptotic"@,
        "guess-worst"@ != "asymptotic"@,
        "exact-worst"@ != "exact-asymptotic"@,
        "exact-worst"@ != "asymptotic"@,
        "exact-asymptotic"@ != "asymptotic"@,
{
    reveal_strlit("base"); reveal_strlit("guess-worst"); reveal_strlit("exact-worst"); reveal_strlit("exact-asymptotic"); reveal_strlit("asymptotic");
    assert("base"@.len() == 4);
    assert("guess-worst"@.len() == 11);
    assert("exact-worst"@.len() == 11);
    assert("exact-asymptotic"@.len() == 16);
    assert("asymptotic"@.len() == 10);
    assert("guess-worst"@[0] != "exact-worst"@[0]);
}
pub proof fn lemma_method_names(a: CompareMethod, b: CompareMethod)
    ensures method_name(a) == method_name(b) ==> a == b
{
    lemma_method_words();
}
@end
@ghost sp
pub open spec fn unit_name(m: Dimension) -> Seq<char> { match m { Dimension::Time => "time"@, Dimension::Proof => "proof"@ } }
// The legacy name stays accepted.
pub open spec fn unit_named(m: Dimension, s: Seq<char>) -> bool { s == unit_name(m) || (m == Dimension::Time && s == "weight"@) }
pub proof fn lemma_unit_words()
    ensures
        "time"@ != "proof"@,
        "time"@ != "weight"@,
        "proof"@ != "weight"@,
{
    reveal_strlit("time"); reveal_strlit("proof"); reveal_strlit("weight");
    assert("time"@.len() == 4);
    assert("proof"@.len() == 5);
    assert("weight"@.len() == 6);
}
pub proof fn lemma_unit_names(a: Dimension, b: Dimension, s: Seq<char>)
    ensures unit_named(a, s) && unit_named(b, s) ==> a == b
{
    lemma_unit_words();
}
@end
@ghost sp
pub open spec fn change_name(m: RelativeChange) -> Seq<char> {
    match m {
        RelativeChange::Unchanged => "unchanged"@,
        RelativeChange::Changed => "changed"@,
        RelativeChange::Added => "added"@,
        RelativeChange::Removed => "removed"@,
    }
}
pub open spec fn names_change(s: Seq<char>) -> bool { exists|m: RelativeChange| s == #[trigger] change_name(m) }
pub proof fn lemma_change_words()
    ensures
        "unchanged"@ != "changed"@,
        "unchanged"@ != "added"@,
        "unchanged"@ != "removed"@,
        "changed"@ != "added"@,
        "changed"@ != "removed"@,
        "added"@ != "removed"@,
{
    reveal_strlit("unchanged"); reveal_strlit("changed"); reveal_strlit("added"); reveal_strlit("removed");
    assert("unchanged"@.len() == 9);
    assert("changed"@.len() == 7);
    assert("added"@.len() == 5);
    assert("removed"@.len() == 7);
    assert("changed"@[0] != "removed"@[0]);
}
pub proof fn lemma_change_names(a: RelativeChange, b: RelativeChange)
    ensures change_name(a) == change_name(b) ==> a == b
{
    lemma_change_words();
}
@end
@ghost sp
// Every entry lists the name of its own choice, and every choice is listed.
pub open spec fn lists<T>(r: Seq<(T, &'static str)>, name: spec_fn(T) -> Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1@ == name(r[i].0)
    &&& forall|x: T| #[trigger] listed(r, x)
}
pub open spec fn listed<T>(r: Seq<(T, &'static str)>, x: T) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i].0 == x }
pub open spec fn advertised(r: Seq<&'static str>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i]@ == n }
@end
@fn crate::CompareMethod::FromStr::from_str
@ensures
        forall|m: CompareMethod| s@ == #[trigger] method_name(m) ==> r == Ok::<CompareMethod, String>(m),
        r is Ok ==> s@ == method_name(r->Ok_0),
@at start
    proof { lemma_method_words(); }
@fn crate::CompareMethod::variants
@ensures
        r@.len() == 5 && r@[0]@ == "base"@ && r@[1]@ == "guess-worst"@ && r@[2]@ == "exact-worst"@ && r@[3]@ == "exact-asymptotic"@ && r@[4]@ == "asymptotic"@,
@fn crate::CompareMethod::all
@ensures
        r@ == seq![CompareMethod::Base, CompareMethod::GuessWorst, CompareMethod::ExactWorst, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic],
@fn crate::CompareMethod::reflect
@ensures
        lists(r@, |m: CompareMethod| method_name(m)),
@at end
    proof { assert forall|x: CompareMethod| #[trigger] listed(__ret@, x) by {
        let i = match x { CompareMethod::Base => 0int, CompareMethod::GuessWorst => 1, CompareMethod::ExactWorst => 2, CompareMethod::ExactAsymptotic => 3, CompareMethod::Asymptotic => 4 };
        assert(__ret@[i].0 == x);
    } }
@fn crate::Dimension::FromStr::from_str
@ensures
        forall|m: Dimension| #[trigger] unit_named(m, s@) ==> r == Ok::<Dimension, String>(m),
        r is Ok ==> unit_named(r->Ok_0, s@),
@at start
    proof { lemma_unit_words(); }
@fn crate::Dimension::variants
@ensures
        r@.len() == 2 && r@[0]@ == "time"@ && r@[1]@ == "proof"@,
@fn crate::Dimension::all
@ensures
        r@ == seq![Dimension::Time, Dimension::Proof],
@fn crate::Dimension::reflect
@ensures
        lists(r@, |m: Dimension| unit_name(m)),
@at end
    proof { assert forall|x: Dimension| #[trigger] listed(__ret@, x) by {
        let i = match x { Dimension::Time => 0int, Dimension::Proof => 1 };
        assert(__ret@[i].0 == x);
    } }
@fn crate::RelativeChange::FromStr::from_str
@ensures
        forall|m: RelativeChange| s@ == #[trigger] change_name(m) ==> r == Ok::<RelativeChange, String>(m),
        r is Ok ==> s@ == change_name(r->Ok_0),
@at start
    proof { lemma_change_words(); }
@fn crate::RelativeChange::variants
@ensures
        forall|m: RelativeChange| advertised(r@, #[trigger] change_name(m)),
        forall|i: int| 0 <= i < r@.len() ==> names_change(#[trigger] r@[i]@),
@at end
    proof {
        assert forall|m: RelativeChange| advertised(__ret@, #[trigger] change_name(m)) by {
            if m == RelativeChange::Unchanged { assert(__ret@[0]@ == change_name(m)); }
            if m == RelativeChange::Changed { assert(__ret@[1]@ == change_name(m)); }
            if m == RelativeChange::Added { assert(__ret@[2]@ == change_name(m)); }
            if m == RelativeChange::Removed { assert(__ret@[3]@ == change_name(m)); }
        }
        assert forall|i: int| 0 <= i < __ret@.len() implies names_change(#[trigger] __ret@[i]@) by {
            if i == 0 { assert(__ret@[i]@ == change_name(RelativeChange::Unchanged)); }
            if i == 1 { assert(__ret@[i]@ == change_name(RelativeChange::Changed)); }
            if i == 2 { assert(__ret@[i]@ == change_name(RelativeChange::Added)); }
            if i == 3 { assert(__ret@[i]@ == change_name(RelativeChange::Removed)); }
        }
    }
@fn parse::PathStripping::FromStr::from_str
@ensures
        forall|m: PathStripping| s@ == #[trigger] strip_name(m) ==> r == Ok::<PathStripping, String>(m),
        r is Ok ==> s@ == strip_name(r->Ok_0),
@at start
    proof { reveal_strlit("file_name"); reveal_strlit("repo_relative"); assert("file_name"@.len() != "repo_relative"@.len()); }
@fn parse::PathStripping::variants
@ensures
        r@.len() == 2 && r@[0]@ == "file_name"@ && r@[1]@ == "repo_relative"@,
@ghost sp
pub open spec fn strip_name(m: PathStripping) -> Seq<char> { match m { PathStripping::FileName => "file_name"@, PathStripping::RepoRelative => "repo_relative"@ } }
@end
