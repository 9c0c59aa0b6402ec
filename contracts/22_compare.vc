@ownderive Term PartialEq
@fn term::VarValue::PartialEq::eq
@ensures
        r == name_eq(self.0@, other.0@),
@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@ghost sp
// Names are compared without underscores.
pub open spec fn name_eq(a: Seq<char>, b: Seq<char>) -> bool { without(a, '_') == without(b, '_') }
// The same equation: equality derived for `Term`, with names compared by `name_eq`.
pub open spec fn same_term(a: Term<u128>, b: Term<u128>) -> bool
    decreases a
{
    match (a, b) {
        (Term::Value(x), Term::Value(y)) => x == y,
        (Term::Scalar(x), Term::Scalar(y)) => x == y,
        (Term::Var(x), Term::Var(y)) => name_eq(x.0@, y.0@),
        (Term::Add(x, y), Term::Add(v, w)) => same_term(*x, *v) && same_term(*y, *w),
        (Term::Mul(x, y), Term::Mul(v, w)) => same_term(*x, *v) && same_term(*y, *w),
        _ => false,
    }
}
@end
@ghost vx
#[verifier::external_body]
pub fn opt_term_eq(a: &Option<&Term<u128>>, b: &Option<&Term<u128>>) -> (r: bool)
    ensures r == match (*a, *b) { (Some(x), Some(y)) => same_term(*x, *y), (None, None) => true, _ => false }
{ unimplemented!() }
@end
@call PartialEq::eq[Option<&Term<u128>>] => crate::vx::opt_term_eq
@ghost vx
pub fn term_eq(a: &Term<u128>, b: &Term<u128>) -> (r: bool)
    ensures r == same_term(*a, *b)
{ opt_term_eq(&Some(a), &Some(b)) }
@end
@call PartialEq::eq[Term<u128>] => crate::vx::term_eq
@ghost vx
pub fn opt_term_cloned(a: Option<&Term<u128>>) -> (r: Option<Term<u128>>)
    ensures a is Some <==> r is Some, a is Some ==> r->0 == *a->0
{ match a { Some(x) => Some(crate::vx::clone(x)), None => None } }
@end
@ghost vx
pub fn transpose<T, E>(a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures
        match a { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) }
{ match a { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
@end
@call Option::transpose => crate::vx::transpose
@ghost sp
pub open spec fn or_zero(v: Option<u128>) -> int { match v { Some(x) => x as int, None => 0 } }
// 100 * new / old - 100
pub open spec fn pct(old: int, new: int) -> f64 {
    fsub(fmul(fbits(0x4059000000000000), fdiv(f_of_u(new), f_of_u(old))), fbits(0x4059000000000000))
}
pub open spec fn value_in(v: Option<u128>, t: Option<&Term<u128>>, c: Ctx) -> bool {
    match t { Some(t) => v is Some && den(*t, c) == Ev::Val(v->0 as nat), None => v is None }
}
pub open spec fn fails_in(t: Option<&Term<u128>>, c: Ctx) -> bool {
    match t { Some(t) => den(*t, c) == Ev::Fail, None => false }
}
pub open spec fn kind_of(old: Option<&Term<u128>>, new: Option<&Term<u128>>) -> RelativeChange {
    match (old, new) {
        (None, None) => RelativeChange::Unchanged,
        (None, Some(_)) => RelativeChange::Added,
        (Some(_), None) => RelativeChange::Removed,
        (Some(a), Some(b)) => if same_term(*a, *b) { RelativeChange::Unchanged } else { RelativeChange::Changed },
    }
}
pub open spec fn holds(a: Option<Term<u128>>, t: Option<&Term<u128>>) -> bool {
    (a is Some <==> t is Some) && (t is Some ==> a->0 == *t->0)
}
// The comparison of two equations under one assignment (C07).
pub open spec fn compared(r: TermChange, old: Option<&Term<u128>>, new: Option<&Term<u128>>, method: CompareMethod, scope: SimpleScope) -> bool {
    &&& holds(r.old, old) && holds(r.new, new)
    &&& value_in(r.old_v, old, scope.vars@) && value_in(r.new_v, new, scope.vars@)
    &&& r.scope == scope && r.method == method
    &&& r.change == kind_of(old, new)
    &&& r.percent == pct(or_zero(r.old_v), or_zero(r.new_v))
}
@end
@fn crate::percent
@ensures
        r == pct(old as int, new as int),
@fn crate::RelativeChange::new
@requires
        old is Some || new is Some,
@ensures
        old is None ==> r == RelativeChange::Added,
        new is None ==> r == RelativeChange::Removed,
        old is Some && new is Some ==> r == RelativeChange::Changed,
@fn crate::compare_terms
@ensures
        r is Ok ==> compared(r->Ok_0, old, new, method, *scope),
        r is Err ==> fails_in(old, scope.vars@) || fails_in(new, scope.vars@),
@end
