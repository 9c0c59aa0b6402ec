@ghost vx
// `fancy_regex::Regex`: whether a text matches a pattern (None: the match is abandoned).
pub uninterp spec fn regex_valid(p: Seq<char>) -> bool;
pub uninterp spec fn regex_hit(p: Seq<char>, s: Seq<char>) -> Option<bool>;
#[verifier::external_body]
pub struct Regex { v: () }
#[verifier::external_body]
#[verifier::external_derive]
#[derive(Debug)]
pub struct RegexError { v: () }
impl Regex { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn regex_new(p: &str) -> (r: Result<Regex, RegexError>)
    ensures r is Ok <==> regex_valid(p@), r is Ok ==> r->Ok_0@ == p@
{ unimplemented!() }
#[verifier::external_body]
pub fn regex_is_match(x: &Regex, s: &str) -> (r: Result<bool, RegexError>)
    ensures match r { Ok(b) => regex_hit(x@, s@) == Some(b), Err(_) => regex_hit(x@, s@) is None }
{ unimplemented!() }
impl VInto<DynError> for RegexError {
    open spec fn vi(self, r: DynError) -> bool { true }
    #[verifier::external_body]
    fn vinto(self) -> (r: DynError) { unimplemented!() }
}
@end
@ghost vx
// `Box<dyn Error>`
#[verifier::external_body]
pub struct DynError { v: () }
impl DynError { pub uninterp spec fn view(&self) -> Seq<char>; }
impl VInto<DynError> for String {
    open spec fn vi(self, r: DynError) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: DynError) { unimplemented!() }
}
@end
@type Box<dyn std::error::Error> => crate::vx::DynError
@call Regex::new => crate::vx::regex_new
@call Regex::is_match => crate::vx::regex_is_match
@ghost sp
pub type Key = (Seq<char>, Seq<char>);
pub open spec fn ekey(e: SimpleExtrinsic) -> Key { (e.pallet@, e.name@) }
pub open spec fn dkey(d: ExtrinsicDiff) -> Key { (d.file@, d.name@) }
// The definition of a function: the first one listed.
pub open spec fn first_of(l: Seq<SimpleExtrinsic>, k: Key) -> Option<SimpleExtrinsic>
    decreases l.len()
{
    if l.len() == 0 { None } else { match first_of(l.drop_last(), k) { Some(e) => Some(e), None => if ekey(l.last()) == k { Some(l.last()) } else { None } } }
}
pub proof fn lemma_first_of(l: Seq<SimpleExtrinsic>, k: Key)
    ensures
        first_of(l, k) is Some <==> exists|i: int| 0 <= i < l.len() && ekey(#[trigger] l[i]) == k,
        first_of(l, k) is Some ==> ekey(first_of(l, k)->0) == k,
    decreases l.len()
{
    if l.len() > 0 {
        lemma_first_of(l.drop_last(), k);
        if exists|i: int| 0 <= i < l.len() && ekey(#[trigger] l[i]) == k {
            let i = choose|i: int| 0 <= i < l.len() && ekey(#[trigger] l[i]) == k;
            if i < l.len() - 1 { assert(l.drop_last()[i] == l[i]); }
        }
        if first_of(l.drop_last(), k) is Some { let i = choose|i: int| 0 <= i < l.len() - 1 && ekey(#[trigger] l.drop_last()[i]) == k; assert(ekey(l[i]) == k); }
    }
}
pub proof fn lemma_first_push(l: Seq<SimpleExtrinsic>, n: int, k: Key)
    requires 0 <= n < l.len()
    ensures first_of(l.take(n + 1), k) == match first_of(l.take(n), k) { Some(e) => Some(e), None => if ekey(l[n]) == k { Some(l[n]) } else { None } }
{
    assert(l.take(n + 1).drop_last() =~= l.take(n));
}
// The functions of one version in one dimension.
pub open spec fn same_entry(e: ChromaticExtrinsic, s: SimpleExtrinsic, u: Dimension) -> bool {
    &&& s.name == e.name && s.pallet == e.pallet && s.comp_ranges == e.comp_ranges
    &&& forall|a: spec_fn(Seq<char>) -> nat| #[trigger] sval(s.term, a) == cval(e.term, u, a)
}
pub open spec fn in_dimension(l: Seq<ChromaticExtrinsic>, s: Seq<SimpleExtrinsic>, u: Dimension) -> bool {
    s.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> same_entry(l[i], #[trigger] s[i], u)
}
pub open spec fn passes(f: Option<String>, n: Seq<char>) -> bool {
    match f { Some(p) => regex_hit(p@, n) == Some(true), None => true }
}
pub open spec fn passes_both(f: FilterParams, k: Key) -> bool { passes(f.pallet, k.0) && passes(f.extrinsic, k.1) }
pub open spec fn relevant(old: Seq<SimpleExtrinsic>, new: Seq<SimpleExtrinsic>, f: FilterParams, k: Key) -> bool {
    (first_of(old, k) is Some || first_of(new, k) is Some) && passes_both(f, k)
}
pub open spec fn newer(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>) -> Term<u128> { if new is Some { new->0.term } else { old->0.term } }
pub open spec fn suspicious(t: Term<u128>) -> bool { charges_over(t, "READ"@, 1000) || charges_over(t, "WRITE"@, 1000) }
// What is said about the function `k`.
pub open spec fn result_of(d: TermDiff, old: Seq<SimpleExtrinsic>, new: Seq<SimpleExtrinsic>, p: CompareParams, k: Key) -> bool {
    let (o, n) = (first_of(old, k), first_of(new, k));
    match d {
        TermDiff::Failed(_) => not_comparable(o, n, p),
        TermDiff::Changed(c) => worst_change(c, o, n, p) && !suspicious(newer(o, n)),
        TermDiff::Warning(c, w) => worst_change(c, o, n, p) && suspicious(newer(o, n)) && exists|e: Seq<char>| #[trigger] names_larger(newer(o, n), e) && w@ == e + ": "@ + k.0 + "::"@ + k.1,
    }
}
pub open spec fn reported(d: Seq<ExtrinsicDiff>, k: Key) -> bool { exists|i: int| 0 <= i < d.len() && dkey(#[trigger] d[i]) == k }
pub open spec fn dkey_lt(a: ExtrinsicDiff, b: ExtrinsicDiff) -> bool { <(String, String) as VOrd>::vlt(dkey(a), dkey(b)) }
pub open spec fn all_pairs(d: Seq<ExtrinsicDiff>, old: Seq<SimpleExtrinsic>, new: Seq<SimpleExtrinsic>, p: CompareParams, f: FilterParams) -> bool {
    &&& forall|k: Key| #[trigger] reported(d, k) <==> relevant(old, new, f, k)
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> dkey_lt(#[trigger] d[i], #[trigger] d[j])
    &&& forall|i: int| 0 <= i < d.len() ==> result_of((#[trigger] d[i]).change, old, new, p, dkey(d[i]))
}
pub open spec fn pairs_of(d: Seq<ExtrinsicDiff>, old: Seq<ChromaticExtrinsic>, new: Seq<ChromaticExtrinsic>, p: CompareParams, f: FilterParams) -> bool {
    exists|o: Seq<SimpleExtrinsic>, n: Seq<SimpleExtrinsic>| in_dimension(old, o, p.unit) && in_dimension(new, n, p.unit) && #[trigger] all_pairs(d, o, n, p, f)
}
pub open spec fn bad_filter(f: Option<String>) -> bool { f is Some && !regex_valid(f->0@) }
@end
@fn parse::pallet::GenericExtrinsic<T>::map_term@compare_files
@ensures
        same_entry(self, r, params.unit),
@ghost sp when compare_files
pub open spec fn found(a: Option<&SimpleExtrinsic>, l: Seq<SimpleExtrinsic>, k: Key) -> bool {
    (a is Some <==> first_of(l, k) is Some) && (a is Some ==> *a->0 == first_of(l, k)->0)
}
pub open spec fn is_key(p: (String, String), e: SimpleExtrinsic) -> bool { p.vkey() == ekey(e) }
pub open spec fn key_at(s: Seq<(String, String)>, i: int) -> Key { s[i].vkey() }
@end
@fn crate::compare_files
@fmt
@ensures
        r is Ok ==> pairs_of(r->Ok_0@, olds@, news@, *params, *filter),
        r is Err ==> bad_filter(filter.extrinsic) || bad_filter(filter.pallet),
@at start
    broadcast use axiom_order;
    let ghost (co, cn) = (olds@, news@);
@loop 0 inv
            invariant
                $acc@.len() == $i,
                forall|j: int| 0 <= j < $i ==> same_entry(co[j], #[trigger] $acc@[j], params.unit),
@loop 1 inv
            invariant
                $acc@.len() == $i,
                forall|j: int| 0 <= j < $i ==> same_entry(cn[j], #[trigger] $acc@[j], params.unit),
@at let news
    let ghost (so, sn) = (olds@, news@);
    assert(in_dimension(co, so, params.unit) && in_dimension(cn, sn, params.unit));
@loop 2 inv
            invariant
                $acc@.len() == $i,
                forall|j: int| 0 <= j < $i ==> is_key(#[trigger] $acc@[j], so[j]),
@loop 3 inv
            invariant
                $acc@.len() == $i,
                forall|j: int| 0 <= j < $i ==> is_key(#[trigger] $acc@[j], sn[j]),
@at let new_names
    let ghost (ko, kn) = (old_names@, new_names@);
@at let names
    assert forall|k: Key| #[trigger] names@.contains(k) <==> first_of(so, k) is Some || first_of(sn, k) is Some by {
        lemma_first_of(so, k);
        lemma_first_of(sn, k);
        let all = ko + kn;
        if names@.contains(k) {
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).vkey() == k;
            if i < ko.len() { assert(ko[i].vkey() == k); assert(is_key(ko[i], so[i])); assert(ekey(so[i]) == k); } else { assert(kn[i - ko.len()].vkey() == k); assert(is_key(kn[i - ko.len()], sn[i - ko.len()])); assert(ekey(sn[i - ko.len()]) == k); }
        }
        if first_of(so, k) is Some { let i = choose|i: int| 0 <= i < so.len() && ekey(#[trigger] so[i]) == k; assert(is_key(ko[i], so[i])); assert(all[i] == ko[i]); }
        if first_of(sn, k) is Some { let i = choose|i: int| 0 <= i < sn.len() && ekey(#[trigger] sn[i]) == k; assert(is_key(kn[i], sn[i])); assert(all[ko.len() + i] == kn[i]); }
    }
    let ghost ks = names.order();
@loop 4 inv
            invariant
                forall|j: int| 0 <= j < diff@.len() ==> passes_both(*filter, dkey(#[trigger] diff@[j])) && result_of(diff@[j].change, so, sn, *params, dkey(diff@[j])) && exists|w: int| 0 <= w < $i && #[trigger] key_at(ks, w) == dkey(diff@[j]),
                forall|w: int| 0 <= w < $i && passes_both(*filter, #[trigger] key_at(ks, w)) ==> reported(diff@, key_at(ks, w)),
                forall|i: int, j: int| 0 <= i < j < diff@.len() ==> dkey_lt(#[trigger] diff@[i], #[trigger] diff@[j]),
@loop 4 start
            let ghost d0 = diff@;
            let ghost k = key_at(ks, $i as int);
            proof { lemma_first_of(so, k); lemma_first_of(sn, k); }
            assert(names@.contains(k)) by { assert(ks[$i as int].vkey() == k); }
@loop 4 end
            proof {
                assert(diff@ == d0 && !passes_both(*filter, k) || diff@.len() == d0.len() + 1 && diff@.drop_last() =~= d0 && dkey(diff@.last()) == k && passes_both(*filter, k));
                if diff@.len() == d0.len() + 1 {
                    assert(reported(diff@, k)) by { assert(dkey(diff@[d0.len() as int]) == k); }
                    assert forall|x: Key| #[trigger] reported(d0, x) implies reported(diff@, x) by { let j = choose|j: int| 0 <= j < d0.len() && dkey(#[trigger] d0[j]) == x; assert(dkey(diff@[j]) == x); }
                    assert forall|i: int, j: int| 0 <= i < j < diff@.len() implies dkey_lt(#[trigger] diff@[i], #[trigger] diff@[j]) by {
                        assert(diff@[i] == d0[i]);
                        if j == d0.len() {
                            let w = choose|w: int| 0 <= w < $i && #[trigger] key_at(ks, w) == dkey(d0[i]);
                            assert(<(String, String) as VOrd>::vlt(ks[w].vkey(), ks[$i as int].vkey()));
                        } else { assert(diff@[j] == d0[j]); }
                    }
                }
            }
@loop 4 after
            assert forall|x: Key| #[trigger] reported(diff@, x) <==> relevant(so, sn, *filter, x) by {
                if reported(diff@, x) {
                    let j = choose|j: int| 0 <= j < diff@.len() && dkey(#[trigger] diff@[j]) == x;
                    let w = choose|w: int| 0 <= w < ks.len() && #[trigger] key_at(ks, w) == dkey(diff@[j]);
                    assert(ks[w].vkey() == x);
                    assert(names@.contains(x));
                }
                if relevant(so, sn, *filter, x) {
                    assert(names@.contains(x));
                    let w = choose|w: int| 0 <= w < ks.len() && (#[trigger] ks[w]).vkey() == x;
                    assert(key_at(ks, w) == x);
                }
            }
            assert(all_pairs(diff@, so, sn, *params, *filter));
            assert(pairs_of(diff@, co, cn, *params, *filter));
@loop 5 inv
            invariant
                found($acc, $src@.take($i as int), k),
@loop 5 start
            proof { lemma_first_push($src@, $i as int, k); }
@loop 5 after
            proof { assert($src@.take($src@.len() as int) =~= $src@); }
@loop 6 inv
            invariant
                found($acc, $src@.take($i as int), k),
@loop 6 start
            proof { lemma_first_push($src@, $i as int, k); }
@loop 6 after
            proof { assert($src@.take($src@.len() as int) =~= $src@); }
@end
