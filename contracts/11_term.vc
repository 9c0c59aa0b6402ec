@mono Term<T> T=u128

@fn term::VarValue::From<String>::from
@auto VarValue
@args p
@ensures
        r.0 == p,
@fn term::VarValue::From<&str>::from
@auto VarValue
@args p
@ensures
        r.0@ == p@,
@fn term::String::From<VarValue>::from
@auto VarValue
@args p
@ensures
        p.0 == r,
@end
@ghost vx when VarValue
impl VInto<VarValue> for String {
    open spec fn vi(self, r: VarValue) -> bool { r.0 == self }
    fn vinto(self) -> (r: VarValue) { crate::term::x_FromString_from_VarValue(self) }
}
impl VInto<VarValue> for &str {
    open spec fn vi(self, r: VarValue) -> bool { r.0@ == self@ }
    fn vinto(self) -> (r: VarValue) { crate::term::x_Fromstr_from_VarValue(self) }
}
impl VInto<String> for VarValue {
    open spec fn vi(self, r: String) -> bool { self.0 == r }
    fn vinto(self) -> (r: String) { crate::term::x_FromVarValue_from_String(self) }
}
@end
@fn term::VarValue::Deref::deref
@traitimpl
@auto VarValue
@ensures
        *r == self.0,

@ghost sp
pub enum Ev { Val(nat), Fail, Fuel }
pub type Ctx = Map<Seq<char>, Term<u128>>;
// Outcome of evaluating `t`: an exact natural number below 2^128, a failure (a needed variable is
// missing or an intermediate result does not fit), or not decided within `fuel` variable lookups.
pub open spec fn ev(t: Term<u128>, c: Ctx, fuel: nat) -> Ev
    decreases fuel, t
{
    match t {
        Term::Value(x) => Ev::Val(x as nat),
        Term::Scalar(x) => Ev::Val(x as nat),
        Term::Add(a, b) => fit(ev(*a, c, fuel), ev(*b, c, fuel), true),
        Term::Mul(a, b) => fit(ev(*a, c, fuel), ev(*b, c, fuel), false),
        Term::Var(v) => if !c.contains_key(v.0@) { Ev::Fail } else if fuel == 0 { Ev::Fuel } else { ev(c[v.0@], c, (fuel - 1) as nat) },
    }
}
pub open spec fn fit(a: Ev, b: Ev, add: bool) -> Ev {
    match (a, b) {
        (Ev::Val(x), Ev::Val(y)) => {
            let z = if add { x + y } else { x * y };
            if z <= u128::MAX { Ev::Val(z) } else { Ev::Fail }
        }
        (Ev::Fail, _) => Ev::Fail,
        (_, Ev::Fail) => Ev::Fail,
        _ => Ev::Fuel,
    }
}
// The mathematical value of the equation, without any bound.
pub open spec fn mv(t: Term<u128>, c: Ctx, fuel: nat) -> Option<nat>
    decreases fuel, t
{
    match t {
        Term::Value(x) => Some(x as nat),
        Term::Scalar(x) => Some(x as nat),
        Term::Add(a, b) => match (mv(*a, c, fuel), mv(*b, c, fuel)) { (Some(x), Some(y)) => Some(x + y), _ => None },
        Term::Mul(a, b) => match (mv(*a, c, fuel), mv(*b, c, fuel)) { (Some(x), Some(y)) => Some(x * y), _ => None },
        Term::Var(v) => if c.contains_key(v.0@) && fuel > 0 { mv(c[v.0@], c, (fuel - 1) as nat) } else { None },
    }
}
pub proof fn lemma_ev_mono(t: Term<u128>, c: Ctx, f: nat, g: nat)
    requires f <= g, ev(t, c, f) != Ev::Fuel
    ensures ev(t, c, g) == ev(t, c, f)
    decreases f, t, 0nat
{
    match t {
        Term::Add(a, b) => { lemma_ev_sub(*a, c, f, g); lemma_ev_sub(*b, c, f, g); }
        Term::Mul(a, b) => { lemma_ev_sub(*a, c, f, g); lemma_ev_sub(*b, c, f, g); }
        Term::Var(v) => { if c.contains_key(v.0@) && f > 0 { lemma_ev_mono(c[v.0@], c, (f - 1) as nat, (g - 1) as nat); } }
        _ => {}
    }
}
pub proof fn lemma_ev_sub(t: Term<u128>, c: Ctx, f: nat, g: nat)
    requires f <= g
    ensures ev(t, c, f) != Ev::Fuel ==> ev(t, c, g) == ev(t, c, f)
    decreases f, t, 1nat
{
    if ev(t, c, f) != Ev::Fuel { lemma_ev_mono(t, c, f, g); }
}
// A value is always the exact mathematical value.
pub proof fn lemma_ev_exact(t: Term<u128>, c: Ctx, f: nat)
    ensures ev(t, c, f) is Val ==> mv(t, c, f) == Some(ev(t, c, f)->Val_0)
    decreases f, t
{
    match t {
        Term::Add(a, b) => { lemma_ev_exact(*a, c, f); lemma_ev_exact(*b, c, f); }
        Term::Mul(a, b) => { lemma_ev_exact(*a, c, f); lemma_ev_exact(*b, c, f); }
        Term::Var(v) => { if c.contains_key(v.0@) && f > 0 { lemma_ev_exact(c[v.0@], c, (f - 1) as nat); } }
        _ => {}
    }
}
// The outcome of evaluating `t` (Fuel only if the variable definitions are cyclic).
pub open spec fn den(t: Term<u128>, c: Ctx) -> Ev {
    if exists|f: nat| ev(t, c, f) != Ev::Fuel { ev(t, c, choose|f: nat| ev(t, c, f) != Ev::Fuel) } else { Ev::Fuel }
}
pub proof fn lemma_den_at(t: Term<u128>, c: Ctx, f: nat)
    requires ev(t, c, f) != Ev::Fuel
    ensures den(t, c) == ev(t, c, f)
{
    let g = choose|g: nat| ev(t, c, g) != Ev::Fuel;
    if f <= g { lemma_ev_mono(t, c, f, g); } else { lemma_ev_mono(t, c, g, f); }
}
pub proof fn lemma_den_get(t: Term<u128>, c: Ctx) -> (f: nat)
    ensures ev(t, c, f) == den(t, c)
{
    if exists|f: nat| ev(t, c, f) != Ev::Fuel { choose|f: nat| ev(t, c, f) != Ev::Fuel } else { 0 }
}
// The equations of `den`.
pub proof fn lemma_den(t: Term<u128>, c: Ctx)
    ensures
        den(t, c) == match t {
            Term::Value(x) => Ev::Val(x as nat),
            Term::Scalar(x) => Ev::Val(x as nat),
            Term::Add(a, b) => fit(den(*a, c), den(*b, c), true),
            Term::Mul(a, b) => fit(den(*a, c), den(*b, c), false),
            Term::Var(v) => if c.contains_key(v.0@) { den(c[v.0@], c) } else { Ev::Fail },
        }
{
    match t {
        Term::Add(a, b) | Term::Mul(a, b) => {
            let f = lemma_den_get(*a, c);
            let g = lemma_den_get(*b, c);
            let h = if f <= g { g } else { f };
            lemma_ev_sub(*a, c, f, h);
            lemma_ev_sub(*b, c, g, h);
            if ev(t, c, h) != Ev::Fuel {
                lemma_den_at(t, c, h);
            } else if den(t, c) != Ev::Fuel {
                let k = lemma_den_get(t, c);
                if ev(*a, c, k) != Ev::Fuel { lemma_den_at(*a, c, k); }
                if ev(*b, c, k) != Ev::Fuel { lemma_den_at(*b, c, k); }
            }
            let k = lemma_den_get(t, c);
            if ev(*a, c, k) != Ev::Fuel { lemma_den_at(*a, c, k); }
            if ev(*b, c, k) != Ev::Fuel { lemma_den_at(*b, c, k); }
        }
        Term::Var(v) => {
            if c.contains_key(v.0@) {
                let f = lemma_den_get(c[v.0@], c);
                assert(ev(t, c, f + 1) == ev(c[v.0@], c, f));
                if ev(t, c, f + 1) != Ev::Fuel { lemma_den_at(t, c, f + 1); }
                let k = lemma_den_get(t, c);
                if den(t, c) != Ev::Fuel { lemma_den_at(c[v.0@], c, (k - 1) as nat); }
            } else { lemma_den_at(t, c, 0); }
        }
        _ => { lemma_den_at(t, c, 0); }
    }
}
@end

@fn term::Term<u128>::eval
@ensures
        r is Ok ==> den(*self, ctx.vars@) == Ev::Val(r->Ok_0 as nat),
        r is Err ==> den(*self, ctx.vars@) == Ev::Fail,
@at start
    proof { lemma_den(*self, ctx.vars@); }
@end
