@ghost vx
pub fn max_u128(a: u128, b: u128) -> (r: u128) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
@end
@ghost vx
pub fn min_u128(a: u128, b: u128) -> (r: u128) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
@end
@call Ord::max[u128] => crate::vx::max_u128
@call Ord::min[u128] => crate::vx::min_u128
@ghost vx
// `==` of optional texts.
pub fn opt_str_eq(a: &Option<&str>, b: &Option<&str>) -> (r: bool)
    ensures r == match (*a, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false }
{ match (*a, *b) { (Some(x), Some(y)) => crate::vx::str_eq(x, y), (None, None) => true, _ => false } }
@end
@call PartialEq::eq[Option<&str>] => crate::vx::opt_str_eq

@ghost sp
pub broadcast proof fn contains_add<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
}
pub broadcast proof fn contains_push<T>(a: Seq<T>, y: T, x: T)
    ensures #[trigger] a.push(y).contains(x) <==> a.contains(x) || y == x
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a.push(y)[i] == x); }
    assert(a.push(y)[a.len() as int] == y);
}
@end
@ghost sp
// The number a literal stands for.
pub open spec fn literal(t: Term<u128>) -> Option<u128> {
    match t { Term::Value(x) => Some(x), Term::Scalar(x) => Some(x), _ => None }
}
pub open spec fn is_var(t: Term<u128>, v: Seq<char>) -> bool { match t { Term::Var(x) => x.0@ == v, _ => false } }
// The literal number of `v` that the product at the root of `t` charges.
pub open spec fn charge_here(t: Term<u128>, v: Seq<char>) -> Option<u128> {
    match t {
        Term::Mul(l, r) => if is_var(*r, v) && literal(*l) is Some { literal(*l) } else if is_var(*l, v) && literal(*r) is Some { literal(*r) } else { None },
        _ => None,
    }
}
// Somewhere in `t`, `n` times `v` is charged in one place.
pub open spec fn charges(t: Term<u128>, v: Seq<char>, n: u128) -> bool
    decreases t
{
    charge_here(t, v) == Some(n) || match t {
        Term::Add(l, r) => charges(*l, v, n) || charges(*r, v, n),
        Term::Mul(l, r) => charges(*l, v, n) || charges(*r, v, n),
        _ => false,
    }
}
pub open spec fn charges_over(t: Term<u128>, v: Seq<char>, lim: int) -> bool { exists|n: u128| #[trigger] charges(t, v, n) && n > lim }
pub open spec fn largest_charge(t: Term<u128>, v: Seq<char>, n: int) -> bool {
    if n == 0 { !charges_over(t, v, 0) } else { charges(t, v, n as u128) && !charges_over(t, v, n) }
}
// The warning names the larger kind and count.
pub open spec fn names_larger(t: Term<u128>, e: Seq<char>) -> bool {
    exists|r: int, w: int| #[trigger] largest_charge(t, "READ"@, r) && #[trigger] largest_charge(t, "WRITE"@, w) && e == (if r > w { "Call has "@ + dec(r) + " READs"@ } else { "Call has "@ + dec(w) + " WRITEs"@ })
}
@end
@fn term::Term<T>::as_scalar
@ensures
        r == literal(*self),
@fn term::Term<T>::as_var
@ensures
        match *self { Term::Var(x) => r is Some && r->0@ == x.0@, _ => r is None },
@fn term::Term<T>::visit@find_largest_factor
@ensures
        r is Ok,
        forall|n: u128| #[trigger] r->Ok_0@.contains(Some(n)) <==> charges(*self, var@, n),
@at start
    broadcast use {contains_add, contains_push};
@fn term::Term<T>::find_largest_factor
@ensures
        match r {
            Some(n) => charges(*self, var@, n) && forall|m: u128| #[trigger] charges(*self, var@, m) ==> m <= n,
            None => forall|m: u128| !#[trigger] charges(*self, var@, m),
        },
        largest_charge(*self, var@, match r { Some(n) => n as int, None => 0 }),
@loop 0 inv
            invariant
                match $acc {
                    Some(n) => $src@.contains(Some(n)) && forall|j: int| 0 <= j < $i ==> (match #[trigger] $src@[j] { Some(m) => m <= n, None => true }),
                    None => forall|j: int| 0 <= j < $i ==> #[trigger] $src@[j] is None,
                },
@loop 0 after
            proof {
                assert forall|m: u128| #[trigger] charges(*self, var@, m) implies $acc is Some && m <= $acc->0 by {
                    assert($src@.contains(Some(m)));
                    let j = choose|j: int| 0 <= j < $src@.len() && $src@[j] == Some(m);
                    assert($src@[j] == Some(m));
                }
            }
@fn crate::sanity_check_term
@fmt
@ensures
        r is Err <==> charges_over(*term, "READ"@, 1000) || charges_over(*term, "WRITE"@, 1000),
        r is Err ==> names_larger(*term, r->Err_0@),
@at start
    proof {
        reveal_strlit(" "); reveal_strlit("READs"); reveal_strlit("WRITEs"); reveal_strlit(" READs"); reveal_strlit(" WRITEs");
        assert(" READs"@ =~= " "@ + "READs"@ && " WRITEs"@ =~= " "@ + "WRITEs"@);
        assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + b + c) == a + (b + c) by { assert(a + b + c =~= a + (b + c)); }
    }
@end
