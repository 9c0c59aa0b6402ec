@prefer Weight traits
@mono Term<T> T=u128

@ghost sp
// The value of an equation under an assignment of natural numbers to variable names.
pub open spec fn sval(t: Term<u128>, a: spec_fn(Seq<char>) -> nat) -> nat
    decreases t
{
    match t {
        Term::Value(x) => x as nat,
        Term::Scalar(x) => x as nat,
        Term::Var(v) => a(v.0@),
        Term::Add(l, r) => sval(*l, a) + sval(*r, a),
        Term::Mul(l, r) => sval(*l, a) * sval(*r, a),
    }
}
pub broadcast proof fn sval_add(l: Box<Term<u128>>, r: Box<Term<u128>>, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] sval(Term::Add(l, r), a) == sval(*l, a) + sval(*r, a)
{}
pub broadcast proof fn sval_mul(l: Box<Term<u128>>, r: Box<Term<u128>>, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] sval(Term::Mul(l, r), a) == sval(*l, a) * sval(*r, a)
{}
pub broadcast group gsval { sval_add, sval_mul }
// The value with every literal taken as zero: what a one-dimensional equation is worth in the other dimension.
pub open spec fn zval(t: Term<u128>, a: spec_fn(Seq<char>) -> nat) -> nat
    decreases t
{
    match t {
        Term::Value(x) => 0,
        Term::Scalar(x) => 0,
        Term::Var(v) => a(v.0@),
        Term::Add(l, r) => zval(*l, a) + zval(*r, a),
        Term::Mul(l, r) => zval(*l, a) * zval(*r, a),
    }
}
pub broadcast proof fn zval_add(l: Box<Term<u128>>, r: Box<Term<u128>>, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] zval(Term::Add(l, r), a) == zval(*l, a) + zval(*r, a)
{}
pub broadcast proof fn zval_mul(l: Box<Term<u128>>, r: Box<Term<u128>>, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] zval(Term::Mul(l, r), a) == zval(*l, a) * zval(*r, a)
{}
pub broadcast group gzval { zval_add, zval_mul }
@end
@ghost sp
pub open spec fn comp(w: Weight, u: Dimension) -> nat {
    match u { Dimension::Time => w.time as nat, Dimension::Proof => w.proof as nat }
}
// One component of the value of a two-dimensional equation.
pub open spec fn cval(t: Term<Weight>, u: Dimension, a: spec_fn(Seq<char>) -> nat) -> nat
    decreases t
{
    match t {
        Term::Value(x) => comp(x, u),
        Term::Scalar(x) => x as nat,
        Term::Var(v) => a(v.0@),
        Term::Add(l, r) => cval(*l, u, a) + cval(*r, u, a),
        Term::Mul(l, r) => cval(*l, u, a) * cval(*r, u, a),
    }
}
pub broadcast proof fn cval_add(l: Box<Term<Weight>>, r: Box<Term<Weight>>, u: Dimension, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] cval(Term::Add(l, r), u, a) == cval(*l, u, a) + cval(*r, u, a)
{}
pub broadcast proof fn cval_mul(l: Box<Term<Weight>>, r: Box<Term<Weight>>, u: Dimension, a: spec_fn(Seq<char>) -> nat)
    ensures #[trigger] cval(Term::Mul(l, r), u, a) == cval(*l, u, a) * cval(*r, u, a)
{}
pub broadcast group gcval { cval_add, cval_mul }
@end

@fn term::Term<Weight>::for_values@simplify
@ensures
        r is Ok && forall|a: spec_fn(Seq<char>) -> nat| #[trigger] sval(r->Ok_0, a) == cval(*self, unit, a),
@at start
    broadcast use {gsval, gcval};
@fn term::Term<Weight>::simplify
@ensures
        r is Ok && forall|a: spec_fn(Seq<char>) -> nat| #[trigger] sval(r->Ok_0, a) == cval(*self, unit, a),
@fn term::Term<Weight>::splice_add
@decreases self
@ensures
        forall|u: Dimension, a: spec_fn(Seq<char>) -> nat| #[trigger] cval(r, u, a) == cval(self, u, a) + cval(other, u, a),
@at start
    broadcast use {gcval, crate::vx::bits_of_zero};
@fn term::Term<u128>::into_chromatic
@decreases self
@ensures
        forall|a: spec_fn(Seq<char>) -> nat| #[trigger] cval(r, unit, a) == sval(self, a),
        forall|u: Dimension, a: spec_fn(Seq<char>) -> nat| u != unit ==> #[trigger] cval(r, u, a) == zval(self, a),
@at start
    broadcast use {gsval, gcval, gzval};
@end

@ghost sp
pub enum CEv { Val(nat, nat), Fail, Fuel }
pub type CCtx = Map<Seq<char>, Term<Weight>>;
pub open spec fn cfit_add(a: CEv, b: CEv) -> CEv {
    match (a, b) {
        (CEv::Val(x, y), CEv::Val(v, w)) => if x + v <= u128::MAX && y + w <= u128::MAX { CEv::Val(x + v, y + w) } else { CEv::Fail },
        (CEv::Fail, _) => CEv::Fail,
        (_, CEv::Fail) => CEv::Fail,
        _ => CEv::Fuel,
    }
}
pub open spec fn cfit_mul(a: CEv, s: u128) -> CEv {
    match a {
        CEv::Val(x, y) => if x * s <= u128::MAX && y * s <= u128::MAX { CEv::Val((x * s) as nat, (y * s) as nat) } else { CEv::Fail },
        _ => a,
    }
}
// A factor that is a plain number; None if it is none, Some(None) if it should be one and is not.
pub open spec fn factor(t: Term<Weight>, c: CCtx) -> Option<Option<u128>> {
    match t {
        Term::Scalar(x) => Some(Some(x)),
        Term::Var(v) => Some(if c.contains_key(v.0@) { match c[v.0@] { Term::Scalar(x) => Some(x), _ => None } } else { None }),
        _ => None,
    }
}
// Outcome of evaluating a two-dimensional equation: plain numbers scale, weights add.
pub open spec fn cev(t: Term<Weight>, c: CCtx, fuel: nat) -> CEv
    decreases fuel, t
{
    match t {
        Term::Value(w) => CEv::Val(w.time as nat, w.proof as nat),
        Term::Scalar(_) => CEv::Fail,
        Term::Add(a, b) => cfit_add(cev(*a, c, fuel), cev(*b, c, fuel)),
        Term::Mul(a, b) =>
            if *a is Scalar { cfit_mul(cev(*b, c, fuel), (*a)->Scalar_0) }
            else if *b is Scalar { cfit_mul(cev(*a, c, fuel), (*b)->Scalar_0) }
            else if *a is Var { match factor(*a, c) { Some(Some(s)) => cfit_mul(cev(*b, c, fuel), s), _ => CEv::Fail } }
            else if *b is Var { match factor(*b, c) { Some(Some(s)) => cfit_mul(cev(*a, c, fuel), s), _ => CEv::Fail } }
            else { CEv::Fail },
        Term::Var(v) => if !c.contains_key(v.0@) { CEv::Fail } else if fuel == 0 { CEv::Fuel } else { cev(c[v.0@], c, (fuel - 1) as nat) },
    }
}
pub proof fn lemma_cev_mono(t: Term<Weight>, c: CCtx, f: nat, g: nat)
    requires f <= g
    ensures cev(t, c, f) != CEv::Fuel ==> cev(t, c, g) == cev(t, c, f)
    decreases f, t
{
    match t {
        Term::Add(a, b) => { lemma_cev_mono(*a, c, f, g); lemma_cev_mono(*b, c, f, g); }
        Term::Mul(a, b) => { lemma_cev_mono(*a, c, f, g); lemma_cev_mono(*b, c, f, g); }
        Term::Var(v) => { if c.contains_key(v.0@) && f > 0 { lemma_cev_mono(c[v.0@], c, (f - 1) as nat, (g - 1) as nat); } }
        _ => {}
    }
}
pub open spec fn cden(t: Term<Weight>, c: CCtx) -> CEv {
    if exists|f: nat| cev(t, c, f) != CEv::Fuel { cev(t, c, choose|f: nat| cev(t, c, f) != CEv::Fuel) } else { CEv::Fuel }
}
pub proof fn lemma_cden_at(t: Term<Weight>, c: CCtx, f: nat)
    requires cev(t, c, f) != CEv::Fuel
    ensures cden(t, c) == cev(t, c, f)
{
    let g = choose|g: nat| cev(t, c, g) != CEv::Fuel;
    if f <= g { lemma_cev_mono(t, c, f, g); } else { lemma_cev_mono(t, c, g, f); }
}
pub proof fn lemma_cden_get(t: Term<Weight>, c: CCtx) -> (f: nat)
    ensures cev(t, c, f) == cden(t, c)
{
    if exists|f: nat| cev(t, c, f) != CEv::Fuel { choose|f: nat| cev(t, c, f) != CEv::Fuel } else { 0 }
}
pub open spec fn cden_eq(t: Term<Weight>, c: CCtx) -> CEv {
    match t {
        Term::Value(w) => CEv::Val(w.time as nat, w.proof as nat),
        Term::Scalar(_) => CEv::Fail,
        Term::Add(a, b) => cfit_add(cden(*a, c), cden(*b, c)),
        Term::Mul(a, b) =>
            if *a is Scalar { cfit_mul(cden(*b, c), (*a)->Scalar_0) }
            else if *b is Scalar { cfit_mul(cden(*a, c), (*b)->Scalar_0) }
            else if *a is Var { match factor(*a, c) { Some(Some(s)) => cfit_mul(cden(*b, c), s), _ => CEv::Fail } }
            else if *b is Var { match factor(*b, c) { Some(Some(s)) => cfit_mul(cden(*a, c), s), _ => CEv::Fail } }
            else { CEv::Fail },
        Term::Var(v) => if c.contains_key(v.0@) { cden(c[v.0@], c) } else { CEv::Fail },
    }
}
// The equations of `cden`.
pub proof fn lemma_cden(t: Term<Weight>, c: CCtx)
    ensures cden(t, c) == cden_eq(t, c)
{
    match t {
        Term::Add(a, b) | Term::Mul(a, b) => {
            let f = lemma_cden_get(*a, c);
            let g = lemma_cden_get(*b, c);
            let h = if f <= g { g } else { f };
            lemma_cev_mono(*a, c, f, h);
            lemma_cev_mono(*b, c, g, h);
            if cev(t, c, h) != CEv::Fuel {
                lemma_cden_at(t, c, h);
            }
            let k = lemma_cden_get(t, c);
            if cev(*a, c, k) != CEv::Fuel { lemma_cden_at(*a, c, k); }
            if cev(*b, c, k) != CEv::Fuel { lemma_cden_at(*b, c, k); }
        }
        Term::Var(v) => {
            if c.contains_key(v.0@) {
                let f = lemma_cden_get(c[v.0@], c);
                assert(cev(t, c, f + 1) == cev(c[v.0@], c, f));
                if cev(t, c, f + 1) != CEv::Fuel { lemma_cden_at(t, c, f + 1); }
                let k = lemma_cden_get(t, c);
                if cden(t, c) != CEv::Fuel { lemma_cden_at(c[v.0@], c, (k - 1) as nat); }
            } else { lemma_cden_at(t, c, 0); }
        }
        _ => { lemma_cden_at(t, c, 0); }
    }
}
@end
@fn traits::Weight::From<(u128,u128)>::from
@auto CEv
@args p
@ensures
        r.time == p.0, r.proof == p.1,
@fn traits::(u128,u128)::From<Weight>::from
@auto CEv
@args p
@ensures
        r.0 == p.time, r.1 == p.proof,
@end
@ghost vx when CEv
impl VInto<Weight> for (u128, u128) {
    open spec fn vi(self, r: Weight) -> bool { r.time == self.0 && r.proof == self.1 }
    fn vinto(self) -> (r: Weight) { crate::traits::x_Fromu128u128_from_Weight(self) }
}
impl VInto<(u128, u128)> for Weight {
    open spec fn vi(self, r: (u128, u128)) -> bool { r.0 == self.time && r.1 == self.proof }
    fn vinto(self) -> (r: (u128, u128)) { crate::traits::x_FromWeight_from_u128u128(self) }
}
@end
@fn traits::Weight::checked_mul_scalar
@ensures
        r is Ok ==> r->Ok_0.time == self.time * other && r->Ok_0.proof == self.proof * other,
        r is Err ==> self.time * other > u128::MAX || self.proof * other > u128::MAX,
@fn term::Term<Weight>::eval
@ensures
        r is Ok ==> cden(*self, ctx.vars@) == CEv::Val(r->Ok_0.time as nat, r->Ok_0.proof as nat),
        r is Err ==> cden(*self, ctx.vars@) == CEv::Fail,
@at start
    proof { lemma_cden(*self, ctx.vars@); }
@end
