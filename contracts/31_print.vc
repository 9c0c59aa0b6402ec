@ghost sp
// How a printed equation is read: numbers with their scale suffix, names, sums, products and brackets.
pub enum Rd { Lit(u128), Name(Seq<char>), Paren(Box<Rd>), Sum(Box<Rd>, Box<Rd>), Prod(Box<Rd>, Box<Rd>) }
pub open spec fn rd_text(d: Rd) -> Seq<char>
    decreases d
{
    match d {
        Rd::Lit(v) => scalar_text(v),
        Rd::Name(n) => n,
        Rd::Paren(x) => "("@ + rd_text(*x) + ")"@,
        Rd::Sum(a, b) => rd_text(*a) + " + "@ + rd_text(*b),
        Rd::Prod(a, b) => rd_text(*a) + " * "@ + rd_text(*b),
    }
}
// With multiplication binding stronger than addition, a sum is a factor only in brackets.
pub open spec fn rd_ok(d: Rd) -> bool
    decreases d
{
    match d {
        Rd::Paren(x) => rd_ok(*x),
        Rd::Sum(a, b) => rd_ok(*a) && rd_ok(*b),
        Rd::Prod(a, b) => rd_ok(*a) && rd_ok(*b) && !(*a is Sum) && !(*b is Sum),
        _ => true,
    }
}
pub type Names = spec_fn(Seq<char>) -> nat;
pub open spec fn rd_value(d: Rd, e: Names) -> nat
    decreases d
{
    match d {
        Rd::Lit(v) => v as nat,
        Rd::Name(n) => e(n),
        Rd::Paren(x) => rd_value(*x, e),
        Rd::Sum(a, b) => rd_value(*a, e) + rd_value(*b, e),
        Rd::Prod(a, b) => rd_value(*a, e) * rd_value(*b, e),
    }
}
// The polynomial an equation denotes, as its value at every assignment of the variables.
pub open spec fn poly(t: Term<u128>, e: Names) -> nat
    decreases t
{
    match t {
        Term::Value(x) => x as nat,
        Term::Scalar(x) => x as nat,
        Term::Var(v) => e(v.0@),
        Term::Add(a, b) => poly(*a, e) + poly(*b, e),
        Term::Mul(a, b) => poly(*a, e) * poly(*b, e),
    }
}
// `s` reads as the equation; `open` is whether it may be a sum without brackets.
pub open spec fn reads_as(d: Rd, s: Seq<char>, t: Term<u128>, open: bool) -> bool {
    &&& rd_text(d) == s
    &&& rd_ok(d)
    &&& open || !(d is Sum)
    &&& forall|e: Names| #[trigger] rd_value(d, e) == poly(t, e)
}
pub open spec fn faithful(s: Seq<char>, t: Term<u128>, open: bool) -> bool { exists|d: Rd| reads_as(d, s, t, open) }
pub open spec fn vanishes(t: Term<u128>) -> bool { forall|e: Names| #[trigger] poly(t, e) == 0 }
pub open spec fn printed(r: Option<Seq<char>>, t: Term<u128>, open: bool) -> bool {
    match r { Some(s) => faithful(s, t, open), None => vanishes(t) }
}
pub open spec fn text_of(r: Option<String>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
// One step of reading, for each way an equation may be printed.
pub broadcast proof fn lemma_lit(v: u128, t: Term<u128>, open: bool)
    requires t == Term::<u128>::Value(v) || t == Term::<u128>::Scalar(v)
    ensures #[trigger] faithful(scalar_text(v), t, open)
{
    assert(reads_as(Rd::Lit(v), scalar_text(v), t, open));
}
pub broadcast proof fn lemma_var(s: Seq<char>, t: Term<u128>, open: bool)
    requires t is Var, s == t->Var_0.0@
    ensures #[trigger] faithful(s, t, open)
{
    assert(reads_as(Rd::Name(t->Var_0.0@), t->Var_0.0@, t, open));
}
pub open spec fn same_poly(t: Term<u128>, u: Term<u128>) -> bool { forall|e: Names| #[trigger] poly(t, e) == poly(u, e) }
pub broadcast proof fn lemma_weaken(s: Seq<char>, t: Term<u128>, u: Term<u128>, open: bool, open2: bool)
    requires #[trigger] faithful(s, t, open), open ==> open2, same_poly(t, u)
    ensures #[trigger] faithful(s, u, open2)
{
    let d = choose|d: Rd| reads_as(d, s, t, open);
    assert forall|e: Names| #[trigger] rd_value(d, e) == poly(u, e) by { assert(poly(t, e) == poly(u, e)); }
    assert(reads_as(d, s, u, open2));
}
pub broadcast proof fn lemma_prod(t: Term<u128>, l: Term<u128>, r: Term<u128>, s: Seq<char>, a: Seq<char>, b: Seq<char>, open: bool)
    requires t is Mul, *t->Mul_0 == l, *t->Mul_1 == r, #[trigger] faithful(a, l, false), #[trigger] faithful(b, r, false), s =~= a + " * "@ + b
    ensures #[trigger] faithful(s, t, open)
{
    let x = choose|d: Rd| reads_as(d, a, l, false);
    let y = choose|d: Rd| reads_as(d, b, r, false);
    let d = Rd::Prod(Box::new(x), Box::new(y));
    assert forall|e: Names| #[trigger] rd_value(d, e) == poly(t, e) by { assert(rd_value(x, e) == poly(l, e)); assert(rd_value(y, e) == poly(r, e)); }
    assert(reads_as(d, s, t, open));
}
pub broadcast proof fn lemma_sum(t: Term<u128>, l: Term<u128>, r: Term<u128>, s: Seq<char>, a: Seq<char>, b: Seq<char>, open: bool)
    requires
        t is Add, *t->Add_0 == l, *t->Add_1 == r, #[trigger] faithful(a, l, true), #[trigger] faithful(b, r, true),
        s =~= "("@ + a + " + "@ + b + ")"@ || open && s =~= a + " + "@ + b,
    ensures #[trigger] faithful(s, t, open)
{
    let x = choose|d: Rd| reads_as(d, a, l, true);
    let y = choose|d: Rd| reads_as(d, b, r, true);
    let d = Rd::Sum(Box::new(x), Box::new(y));
    let p = Rd::Paren(Box::new(d));
    assert forall|e: Names| #[trigger] rd_value(d, e) == poly(t, e) by { assert(rd_value(x, e) == poly(l, e)); assert(rd_value(y, e) == poly(r, e)); }
    assert forall|e: Names| #[trigger] rd_value(p, e) == poly(t, e) by { assert(rd_value(d, e) == poly(t, e)); }
    if open && s =~= a + " + "@ + b {
        assert(reads_as(d, s, t, open));
    } else {
        let ab = a + " + "@ + b;
        assert(rd_text(d) == ab);
        assert(rd_text(*p->Paren_0) == ab);
        assert(rd_text(p) == "("@ + ab + ")"@);
        assert("("@ + a + " + "@ + b + ")"@ =~= "("@ + ab + ")"@);
        assert(s == rd_text(p));
        assert(rd_ok(d));
        assert(rd_ok(p));
        assert(reads_as(p, s, t, open));
    }
}
pub broadcast proof fn lemma_vanish(t: Term<u128>)
    requires
        match t {
            Term::Value(x) => x == 0,
            Term::Scalar(x) => x == 0,
            Term::Add(a, b) => vanishes(*a) && vanishes(*b),
            Term::Mul(a, b) => vanishes(*a) || vanishes(*b),
            _ => false,
        },
    ensures #[trigger] vanishes(t)
{
    assert forall|e: Names| #[trigger] poly(t, e) == 0 by {
        match t {
            Term::Add(a, b) => { assert(poly(*a, e) + poly(*b, e) == 0); }
            Term::Mul(a, b) => { let x = poly(*a, e); let y = poly(*b, e); assert(x == 0 || y == 0); assert(x * y == 0) by (nonlinear_arith) requires x == 0 || y == 0; }
            _ => {}
        }
    }
}
// Leaving out a neutral factor or a vanishing summand.
pub broadcast proof fn lemma_neutral(t: Term<u128>, u: Term<u128>)
    requires
        match t {
            Term::Add(a, b) => *a == u && vanishes(*b) || *b == u && vanishes(*a),
            Term::Mul(a, b) => *a == u && one(*b) || *b == u && one(*a),
            _ => false,
        },
    ensures #[trigger] same_poly(u, t)
{
    assert forall|e: Names| #[trigger] poly(u, e) == poly(t, e) by {
        match t {
            Term::Add(a, b) => { assert(poly(*a, e) + poly(*b, e) == poly(t, e)); }
            Term::Mul(a, b) => { let x = poly(*a, e); let y = poly(*b, e); assert(x * 1 == x && 1 * y == y); }
            _ => {}
        }
    }
}
pub broadcast proof fn lemma_refl(t: Term<u128>)
    ensures #[trigger] same_poly(t, t)
{}
pub open spec fn one(t: Term<u128>) -> bool { t == Term::<u128>::Value(1) || t == Term::<u128>::Scalar(1) }
pub proof fn lemma_zero(t: Term<u128>, open: bool)
    ensures vanishes(t) ==> faithful("0"@, t, open)
{
    broadcast use axiom_dec_zero;
    if vanishes(t) {
        assert(scalar_text(0) == dec(0) && dec(0) == "0"@);
        assert forall|e: Names| #[trigger] rd_value(Rd::Lit(0), e) == poly(t, e) by { assert(poly(t, e) == 0); }
        assert(reads_as(Rd::Lit(0), "0"@, t, open));
    }
}
pub proof fn lemma_print_marks()
    ensures one_cell("("@), one_cell(")"@), one_cell(" + "@), one_cell(" * "@)
{ reveal_strlit("("); reveal_strlit(")"); reveal_strlit(" + "); reveal_strlit(" * "); }
pub broadcast proof fn lemma_scalar_cell(v: u128)
    ensures one_cell(#[trigger] scalar_text(v))
{
    broadcast use lemma_cell_join;
    reveal_strlit("T"); reveal_strlit("G"); reveal_strlit("M"); reveal_strlit("K");
    axiom_number_cells(fbits(0), v as int, ".2"@);
    assert forall|x: f64| #[trigger] one_cell(fshow(x, ".2"@)) by { axiom_number_cells(x, 0, ".2"@); }
}
pub broadcast group print_steps { lemma_lit, lemma_var, lemma_weaken, lemma_prod, lemma_sum, lemma_vanish, lemma_neutral, lemma_refl }
pub broadcast axiom fn axiom_dec_zero(n: int)
    ensures n == 0 ==> #[trigger] dec(n) == "0"@;
@end
@fn term::Term<T>::is_const_zero
@ensures
        r ==> *self == Term::<u128>::Value(0) || *self == Term::<u128>::Scalar(0),
@fn term::Term<T>::is_const_one
@ensures
        r ==> one(*self),
@fn term::Term<T>::maybe_fmt_with_bracket
@fmt
@ensures
        printed(text_of(r), *self, has_bracket),
        r is Some && plain_names(*self) ==> one_cell(r->0@),
@at start
    broadcast use {print_steps, lemma_cell_join, lemma_scalar_cell};
    proof { lemma_print_marks(); }
@fn term::Term<T>::fmt_with_bracket
@ensures
        faithful(r@, *self, has_bracket),
        plain_names(*self) ==> one_cell(r@),
@at start
    broadcast use axiom_dec_zero;
    proof { reveal_strlit("0"); lemma_zero(*self, has_bracket); }
@fn term::Term<T>::Display::fmt
@fmt
@ensures
        r is Ok ==> exists|s: Seq<char>| #[trigger] faithful(s, *self, true) && (plain_names(*self) ==> one_cell(s)) && final(f)@ == old(f)@ + s,
@end
@ghost vx when Formatter | FmtError
// `fmt::Formatter`: the text written so far.
#[verifier::external_body]
pub struct Formatter { v: () }
impl Formatter { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct FmtError { v: () }
@end
@ghost vx when fmt_write | Formatter
// `write!` appends to the text; appending to a `String` does not fail.
pub trait VWrite {
    spec fn written(&self) -> Seq<char>;
    spec fn growing() -> bool;
    fn fmt_write(&mut self, s: String) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).written() == old(self).written() + s@, Self::growing() ==> r is Ok;
}
impl VWrite for Formatter {
    open spec fn written(&self) -> Seq<char> { self@ }
    open spec fn growing() -> bool { false }
    #[verifier::external_body]
    fn fmt_write(&mut self, s: String) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl VWrite for String {
    open spec fn written(&self) -> Seq<char> { self@ }
    open spec fn growing() -> bool { true }
    #[verifier::external_body]
    fn fmt_write(&mut self, s: String) -> (r: Result<(), FmtError>) { unimplemented!() }
}
@end
@type fmt::Formatter => crate::vx::Formatter
@type fmt::Result => Result<(), crate::vx::FmtError>
