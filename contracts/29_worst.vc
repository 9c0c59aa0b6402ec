@ghost sp
// The equation with a variable replaced by an equation.
pub open spec fn subst(t: Term<u128>, n: Seq<char>, u: Term<u128>) -> Term<u128>
    decreases t
{
    match t {
        Term::Var(v) => if v.0@ == n { u } else { t },
        Term::Add(l, r) => Term::Add(Box::new(subst(*l, n, u)), Box::new(subst(*r, n, u))),
        Term::Mul(l, r) => Term::Mul(Box::new(subst(*l, n, u)), Box::new(subst(*r, n, u))),
        _ => t,
    }
}
pub open spec fn read_n() -> Seq<char> { "READ"@ }
pub open spec fn write_n() -> Seq<char> { "WRITE"@ }
pub open spec fn nat_term(x: nat) -> Term<u128> { Term::Scalar(x as u128) }
// The cost of a read and a write in each dimension.
pub open spec fn base_of(u: Dimension) -> Ctx {
    let t = u is Time;
    Map::<Seq<char>, Term<u128>>::empty()
        .insert(read_n(), nat_term(if t { 25_000_000 } else { 0 }))
        .insert(write_n(), nat_term(if t { 100_000_000 } else { 0 }))
}
// The equation that is evaluated and shown: without reads and writes in the proof dimension.
pub open spec fn priced(t: Term<u128>, u: Dimension) -> Term<u128> {
    if u is Time { t } else { subst(subst(t, read_n(), nat_term(0)), write_n(), nat_term(0)) }
}
pub open spec fn priced_ext(e: Option<SimpleExtrinsic>, u: Dimension) -> Option<SimpleExtrinsic> {
    match e { Some(e) => Some(SimpleExtrinsic { term: priced(e.term, u), ..e }), None => None }
}
pub open spec fn ref_of(e: Option<SimpleExtrinsic>) -> Option<&'static SimpleExtrinsic> { match e { Some(e) => Some(&e), None => None } }
pub open spec fn term_of(e: Option<SimpleExtrinsic>) -> Option<&'static Term<u128>> { match e { Some(e) => Some(&e.term), None => None } }
pub open spec fn corner_of(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx) -> bool {
    corner(ref_of(priced_ext(old, p.unit)), ref_of(priced_ext(new, p.unit)), p.method, base_of(p.unit), v)
}
pub open spec fn change_at(r: TermChange, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx) -> bool {
    r.scope.vars@ == v && compared(r, term_of(priced_ext(old, p.unit)), term_of(priced_ext(new, p.unit)), p.method, r.scope)
}
pub proof fn lemma_fv_mono(t: Term<u128>, c: Ctx, d: Ctx)
    requires forall|n: Seq<char>| #[trigger] c.contains_key(n) ==> d.contains_key(n), forall|n: Seq<char>| #[trigger] fv(t, c).contains(n) ==> d.contains_key(n)
    ensures fv(t, d) =~= Set::<Seq<char>>::empty()
    decreases t
{
    match t {
        Term::Add(l, r) => {
            assert forall|n: Seq<char>| #[trigger] fv(*l, c).contains(n) implies d.contains_key(n) by { assert(fv(t, c).contains(n)); }
            assert forall|n: Seq<char>| #[trigger] fv(*r, c).contains(n) implies d.contains_key(n) by { assert(fv(t, c).contains(n)); }
            lemma_fv_mono(*l, c, d);
            lemma_fv_mono(*r, c, d);
        }
        Term::Mul(l, r) => {
            assert forall|n: Seq<char>| #[trigger] fv(*l, c).contains(n) implies d.contains_key(n) by { assert(fv(t, c).contains(n)); }
            assert forall|n: Seq<char>| #[trigger] fv(*r, c).contains(n) implies d.contains_key(n) by { assert(fv(t, c).contains(n)); }
            lemma_fv_mono(*l, c, d);
            lemma_fv_mono(*r, c, d);
        }
        Term::Var(v) => { if !c.contains_key(v.0@) { assert(fv(t, c).contains(v.0@)); } }
        _ => {}
    }
}
// Replacing a variable by a number is the same as binding it to that number.
pub proof fn lemma_subst(t: Term<u128>, n: Seq<char>, x: u128, c: Ctx)
    requires c.contains_key(n), c[n] == Term::<u128>::Scalar(x)
    ensures den(subst(t, n, Term::Scalar(x)), c) == den(t, c)
    decreases t
{
    lemma_den(t, c);
    lemma_den(subst(t, n, Term::Scalar(x)), c);
    lemma_den(Term::Scalar(x), c);
    match t {
        Term::Add(l, r) => { lemma_subst(*l, n, x, c); lemma_subst(*r, n, x, c); }
        Term::Mul(l, r) => { lemma_subst(*l, n, x, c); lemma_subst(*r, n, x, c); }
        _ => {}
    }
}
// In the proof dimension the numbers of reads and writes do not matter: no such variable is left, and the
// value is that of the equation with free reads and writes.
pub open spec fn mentions(t: Term<u128>, n: Seq<char>) -> bool
    decreases t
{
    match t {
        Term::Var(v) => v.0@ == n,
        Term::Add(l, r) => mentions(*l, n) || mentions(*r, n),
        Term::Mul(l, r) => mentions(*l, n) || mentions(*r, n),
        _ => false,
    }
}
pub proof fn lemma_subst_gone(t: Term<u128>, n: Seq<char>, m: Seq<char>, x: u128)
    ensures mentions(subst(t, n, Term::Scalar(x)), m) ==> m != n && mentions(t, m)
    decreases t
{
    match t {
        Term::Add(l, r) => { lemma_subst_gone(*l, n, m, x); lemma_subst_gone(*r, n, m, x); }
        Term::Mul(l, r) => { lemma_subst_gone(*l, n, m, x); lemma_subst_gone(*r, n, m, x); }
        _ => {}
    }
}
pub proof fn lemma_proof_free(t: Term<u128>, c: Ctx)
    requires c.contains_key(read_n()), c[read_n()] == nat_term(0), c.contains_key(write_n()), c[write_n()] == nat_term(0)
    ensures
        !mentions(priced(t, Dimension::Proof), read_n()),
        !mentions(priced(t, Dimension::Proof), write_n()),
        den(priced(t, Dimension::Proof), c) == den(t, c),
{
    let s = subst(t, read_n(), nat_term(0));
    lemma_subst_gone(t, read_n(), read_n(), 0);
    lemma_subst_gone(s, write_n(), read_n(), 0);
    lemma_subst_gone(s, write_n(), write_n(), 0);
    lemma_subst(t, read_n(), 0, c);
    lemma_subst(s, write_n(), 0, c);
}
@end
@fn scope::Scope<SimpleTerm>::with_storage_weights
@ensures
        r.vars@ == self.vars@.insert(read_n(), read).insert(write_n(), write),
@fn term::Term<T>::substitute
@ensures
        *final(self) == subst(*old(self), var@, *term),
@ghost sp when compare_extrinsics | worst_change
pub open spec fn old_term(old: Option<SimpleExtrinsic>, p: CompareParams) -> Option<&'static Term<u128>> { term_of(priced_ext(old, p.unit)) }
// No change at the assignment `v` is larger than `r`.
pub open spec fn not_above(r: TermChange, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx) -> bool {
    &&& exists|x: TermChange| #[trigger] change_at(x, old, new, p, v)
    &&& forall|x: TermChange| #[trigger] change_at(x, old, new, p, v) ==> change_cmp(x, r) != std::cmp::Ordering::Greater
}
pub open spec fn corner_fails(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx) -> bool {
    corner_of(old, new, p, v) && (fails_in(old_term(old, p), v) || fails_in(old_term(new, p), v))
}
pub open spec fn no_corners(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams) -> bool {
    let (o, n) = (ref_of(priced_ext(old, p.unit)), ref_of(priced_ext(new, p.unit)));
    comps(o, n, base_of(p.unit)).len() > 16 || undefined_value(o, n, p.method, base_of(p.unit))
}
pub proof fn lemma_corner_dom(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx)
    requires corner_of(old, new, p, v)
    ensures
        v.contains_key(read_n()),
        v.dom() != Set::<Seq<char>>::empty(),
        old is Some ==> fv(*old_term(old, p)->0, v) =~= Set::<Seq<char>>::empty(),
        new is Some ==> fv(*old_term(new, p)->0, v) =~= Set::<Seq<char>>::empty(),
{
    let base = base_of(p.unit);
    let (o, n) = (ref_of(priced_ext(old, p.unit)), ref_of(priced_ext(new, p.unit)));
    assert forall|c: Seq<char>| #[trigger] base.contains_key(c) || comps(o, n, base).contains(c) implies v.contains_key(c) by {
        assert(v.dom().contains(c) <==> base.dom().union(comps(o, n, base)).contains(c));
    }
    assert(base.contains_key(read_n()));
    assert(v.dom().contains(read_n()));
    if old is Some {
        assert forall|c: Seq<char>| #[trigger] base.contains_key(c) || fv(o->0.term, base).contains(c) implies v.contains_key(c) by { assert(comps(o, n, base).contains(c) || base.contains_key(c)); }
        lemma_fv_mono(o->0.term, base, v);
    }
    if new is Some {
        assert forall|c: Seq<char>| #[trigger] base.contains_key(c) || fv(n->0.term, base).contains(c) implies v.contains_key(c) by { assert(comps(o, n, base).contains(c) || base.contains_key(c)); }
        lemma_fv_mono(n->0.term, base, v);
    }
}
pub proof fn lemma_not_above(r: TermChange, x: TermChange, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx)
    requires change_at(x, old, new, p, v), change_cmp(x, r) != std::cmp::Ordering::Greater
    ensures not_above(r, old, new, p, v)
{}
// The reported change: one that occurs at a corner, and no corner has a larger one.
pub open spec fn worst_change(r: TermChange, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams) -> bool {
    &&& occurs(r, old, new, p, r.scope.vars@)
    &&& old is Some && new is Some ==> forall|v: Ctx| #[trigger] corner_of(old, new, p, v) ==> not_above(r, old, new, p, v)
}
pub open spec fn not_comparable(old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams) -> bool {
    no_corners(old, new, p) || exists|v: Ctx| #[trigger] corner_fails(old, new, p, v)
}
// The change `x` occurs at the corner `v`.
pub open spec fn occurs(x: TermChange, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams, v: Ctx) -> bool {
    corner_of(old, new, p, v) && change_at(x, old, new, p, v)
}
// The changes `rs` are those at the first assignments of `ss`, which are corners.
pub open spec fn each_at(rs: Seq<TermChange>, ss: Seq<SimpleScope>, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams) -> bool {
    rs.len() <= ss.len() && forall|j: int| 0 <= j < rs.len() ==> occurs(#[trigger] rs[j], old, new, p, ss[j].vars@)
}
pub open spec fn all_corners(ss: Seq<SimpleScope>, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams) -> bool {
    forall|v: Ctx| #[trigger] corner_of(old, new, p, v) <==> among(ss, v)
}
pub proof fn lemma_each_push(rs: Seq<TermChange>, x: TermChange, ss: Seq<SimpleScope>, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams)
    requires each_at(rs, ss, old, new, p), rs.len() < ss.len(), occurs(x, old, new, p, ss[rs.len() as int].vars@)
    ensures each_at(rs.push(x), ss, old, new, p)
{
    hide(occurs);
    let n = rs.push(x);
    assert forall|j: int| 0 <= j < n.len() implies occurs(#[trigger] n[j], old, new, p, ss[j].vars@) by {
        if j < rs.len() { assert(n[j] == rs[j]); }
    }
}
pub proof fn lemma_each_get(rs: Seq<TermChange>, i: int, ss: Seq<SimpleScope>, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams)
    requires each_at(rs, ss, old, new, p), 0 <= i < rs.len()
    ensures
        occurs(rs[i], old, new, p, rs[i].scope.vars@),
        rs[i].change == kind_of(old_term(old, p), old_term(new, p)),
{}
// A largest one of the first `n` changes.
pub open spec fn is_best(a: Option<TermChange>, rs: Seq<TermChange>, n: int) -> bool {
    if n == 0 { a is None } else { a is Some && (exists|j: int| 0 <= j < n && a->0 == #[trigger] rs[j]) && forall|j: int| 0 <= j < n ==> change_cmp(#[trigger] rs[j], a->0) != std::cmp::Ordering::Greater }
}
pub proof fn lemma_best_step(a: Option<TermChange>, rs: Seq<TermChange>, n: int)
    requires is_best(a, rs, n), 0 <= n < rs.len()
    ensures is_best(if a is Some && change_cmp(a->0, rs[n]) == std::cmp::Ordering::Greater { a } else { Some(rs[n]) }, rs, n + 1)
{}
pub proof fn lemma_best(a: Option<TermChange>, rs: Seq<TermChange>, ss: Seq<SimpleScope>, old: Option<SimpleExtrinsic>, new: Option<SimpleExtrinsic>, p: CompareParams)
    requires is_best(a, rs, rs.len() as int), rs.len() == ss.len(), rs.len() > 0, each_at(rs, ss, old, new, p), all_corners(ss, old, new, p)
    ensures a is Some, worst_change(a->0, old, new, p)
{
    let best = a->0;
    let j = choose|j: int| 0 <= j < rs.len() && best == #[trigger] rs[j];
    lemma_each_get(rs, j, ss, old, new, p);
    assert forall|v: Ctx| #[trigger] corner_of(old, new, p, v) implies not_above(best, old, new, p, v) by {
        assert(among(ss, v));
        let j = choose|j: int| 0 <= j < ss.len() && (#[trigger] ss[j]).vars@ == v;
        assert(occurs(rs[j], old, new, p, v));
        lemma_not_above(best, rs[j], old, new, p, v);
    }
}
@end
@fn crate::compare_extrinsics
@requires
        old is Some || new is Some,
@ensures
        r is Ok ==> worst_change(r->Ok_0, old, new, *params),
        r is Err ==> not_comparable(old, new, *params),
@at start
    hide(corner);
    hide(fv);
    hide(each_at);
    hide(is_best);
    hide(worst_change);
    hide(change_cmp);
    hide(all_corners);
    hide(subst);
    hide(occurs);
    hide(change_at);
    hide(compared);
    let ghost (old0, new0) = (old, new);
    let ghost kind = kind_of(old_term(old, *params), old_term(new, *params));
@at let scopes
    assert(scope.vars@ =~= base_of(params.unit));
    assert(old == ref_of(priced_ext(old0, params.unit)));
    assert(new == ref_of(priced_ext(new0, params.unit)));
    assert(all_corners(scopes@, old0, new0, *params)) by {
        reveal(all_corners);
        assert forall|v: Ctx| #[trigger] corner_of(old0, new0, *params, v) <==> among(scopes@, v) by {
            if corner_of(old0, new0, *params, v) { lemma_corner_dom(old0, new0, *params, v); }
        }
    }
    assert(base_of(params.unit).dom().contains(read_n()));
    let ghost ss = scopes@;
@loop 0 before
    assert(each_at(results@, ss, old0, new0, *params)) by { reveal(each_at); }
@loop 0 inv
            invariant
                results@.len() == $i,
                each_at(results@, ss, old0, new0, *params),
@loop 0 start
            let ghost here = ss[$i as int].vars@;
            let ghost r0 = results@;
            proof {
                reveal(all_corners);
                assert(among(ss, here));
                assert(corner_of(old0, new0, *params, here));
                lemma_corner_dom(old0, new0, *params, here);
                if fails_in(old_term(old0, *params), here) || fails_in(old_term(new0, *params), here) { assert(corner_fails(old0, new0, *params, here)); }
            }
@loop 0 end
            proof { reveal(change_at); reveal(compared); reveal(occurs); lemma_each_push(r0, results@.last(), ss, old0, new0, *params); assert(results@ =~= r0.push(results@.last())); }
@loop 1 inv
            invariant
                $acc == ($i == 0 || kind is Changed || kind is Unchanged),
@loop 1 start
            proof { lemma_each_get(results@, $i as int, ss, old0, new0, *params); }
@loop 2 inv
            invariant
                $acc == ($i == 0 || kind is Added || kind is Removed),
@loop 2 start
            proof { lemma_each_get(results@, $i as int, ss, old0, new0, *params); }
@loop 3 inv
            invariant
                $i == 0 ==> $acc is None,
                $i > 0 ==> $acc == Some($src@[0]),
@loop 3 after
            proof {
                lemma_each_get($src@, 0, ss, old0, new0, *params);
                reveal(worst_change);
            }
@loop 4 before
            assert(is_best($acc, $src@, 0)) by { reveal(is_best); }
@loop 4 inv
            invariant
                is_best($acc, $src@, $i as int),
@loop 4 start
            proof { reveal(is_best); lemma_best_step($acc, $src@, $i as int); }
@loop 4 after
            proof { lemma_best($acc, $src@, ss, old0, new0, *params); }
@end
