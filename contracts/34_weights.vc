@ghost sp
// What the source of a weight function denotes.
pub open spec fn lit_den(l: Lit) -> Option<nat> { match l { Lit::Int(i) => number(i.digits()), _ => None } }
pub open spec fn lit_fits(l: Lit) -> bool { lit_den(l) is Some && lit_den(l)->0 <= u128::MAX }
pub open spec fn db_path(e: Expr) -> bool {
    match e {
        Expr::Path(p) => { let t = path_text(p.path, "::"@); t == "T::DbWeight::get"@ || ends_in(t, "RocksDbWeight::get"@) || ends_in(t, "ParityDbWeight::get"@) }
        _ => false,
    }
}
// `T::DbWeight::get()`
pub open spec fn is_db(e: Expr) -> bool { match e { Expr::Call(c) => db_path(*c.func) && c.args@.len() == 0, _ => false } }
pub open spec fn fun_text(c: ExprCall) -> Option<Seq<char>> { match *c.func { Expr::Path(p) => Some(path_text(p.path, "::"@)), _ => None } }
pub open spec fn fun_is(c: ExprCall, name: Seq<char>) -> bool { match fun_text(c) { Some(t) => ends_in(t, name), None => false } }
pub open spec fn no_args(p: Punctuated<Expr>) -> bool { p@.len() == 0 || p.trailing }
pub open spec fn plus(a: Option<nat>, b: Option<nat>) -> Option<nat> { match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None } }
pub open spec fn times(a: Option<nat>, b: Option<nat>) -> Option<nat> { match (a, b) { (Some(x), Some(y)) => Some(x * y), _ => None } }
// A number-valued expression; with `z`, every literal counts as zero.
pub open spec fn sden(e: Expr, n: Names, z: bool) -> Option<nat>
    decreases e
{
    match e {
        Expr::Paren(x) => sden(*x.expr, n, z),
        Expr::Cast(x) => sden(*x.expr, n, z),
        Expr::Lit(l) => match lit_den(l.lit) { Some(v) => Some(if z { 0 } else { v }), None => None },
        Expr::Path(p) => Some(n(path_text(p.path, "::"@))),
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            if m == "ref_time"@ { if no_args(c.args) { sden(*c.receiver, n, z) } else { None } }
            else if m == "into"@ { sden(*c.receiver, n, z) }
            else if m == "reads"@ { if is_db(*c.receiver) && one { times(sden(c.args.items@[0], n, z), Some(n(read_n()))) } else { None } }
            else if m == "writes"@ { if is_db(*c.receiver) && one { times(sden(c.args.items@[0], n, z), Some(n(write_n()))) } else { None } }
            else if m == "saturating_add"@ { if one { plus(sden(*c.receiver, n, z), sden(c.args.items@[0], n, z)) } else { None } }
            else if m == "saturating_mul"@ { if one { times(sden(*c.receiver, n, z), sden(c.args.items@[0], n, z)) } else { None } }
            else { None }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { if c.args@.len() == 1 { sden(c.args.items@[0], n, z) } else { None } }
            else if fun_is(c, "::zero"@) { if no_args(c.args) { Some(0) } else { None } }
            else { None }
        }
        _ => None,
    }
}
// What has to be accepted: these forms, when their numbers fit.
pub open spec fn scalar_fits(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Paren(x) => scalar_fits(*x.expr),
        Expr::Cast(x) => scalar_fits(*x.expr),
        Expr::Lit(l) => lit_fits(l.lit),
        Expr::Path(_) => true,
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            if m == "ref_time"@ || m == "into"@ { c.args@.len() == 0 && scalar_fits(*c.receiver) }
            else if m == "reads"@ || m == "writes"@ { is_db(*c.receiver) && one && scalar_fits(c.args.items@[0]) }
            else if m == "saturating_add"@ || m == "saturating_mul"@ { one && scalar_fits(*c.receiver) && scalar_fits(c.args.items@[0]) }
            else { false }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { c.args@.len() == 1 && scalar_fits(c.args.items@[0]) }
            else if fun_is(c, "::zero"@) { c.args@.len() == 0 }
            else { false }
        }
        _ => false,
    }
}
pub open spec fn weight_fits(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Paren(x) => weight_fits(*x.expr),
        Expr::Cast(x) => weight_fits(*x.expr),
        Expr::Path(_) => true,
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            if m == "into"@ { c.args@.len() == 0 && weight_fits(*c.receiver) }
            else if m == "reads"@ || m == "writes"@ { is_db(*c.receiver) && one && scalar_fits(c.args.items@[0]) }
            else if m == "saturating_add"@ || m == "saturating_mul"@ { one && weight_fits(*c.receiver) && weight_fits(c.args.items@[0]) }
            else { false }
        }
        Expr::Call(c) => call_fits(c),
        _ => false,
    }
}
pub open spec fn call_fits(c: ExprCall) -> bool {
    if fun_is(c, "::from_ref_time"@) || fun_is(c, "::from_proof_size"@) { c.args@.len() == 1 && scalar_fits(c.args.items@[0]) }
    else if fun_is(c, "::from_parts"@) { c.args@.len() == 2 && scalar_fits(c.args.items@[0]) && scalar_fits(c.args.items@[1]) }
    else if fun_is(c, "::zero"@) { c.args@.len() == 0 }
    else { false }
}
// A path ends in at most one of the four names.
pub proof fn lemma_four_ends()
    ensures
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_ref_time"@) && ends_in(t, "::from_proof_size"@)),
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_ref_time"@) && ends_in(t, "::from_parts"@)),
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_ref_time"@) && ends_in(t, "::zero"@)),
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_proof_size"@) && ends_in(t, "::from_parts"@)),
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_proof_size"@) && ends_in(t, "::zero"@)),
        forall|t: Seq<char>| !(#[trigger] ends_in(t, "::from_parts"@) && ends_in(t, "::zero"@)),
{
    reveal_strlit("::from_ref_time"); reveal_strlit("::from_proof_size"); reveal_strlit("::from_parts"); reveal_strlit("::zero");
    // the last character but one tells
    assert forall|t: Seq<char>, s: Seq<char>| s.len() >= 2 && #[trigger] ends_in(t, s) implies t.len() >= 2 && t[t.len() - 2] == s[s.len() - 2] by {
        assert(t.skip(t.len() - s.len())[s.len() - 2] == t[t.len() - 2]);
    }
}
// A number-valued expression, as far as its form tells.
pub open spec fn is_scalar(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Paren(x) => is_scalar(*x.expr),
        Expr::Cast(x) => is_scalar(*x.expr),
        Expr::Lit(_) => true,
        Expr::Path(_) => true,
        Expr::MethodCall(c) => {
            let m = c.method@;
            if m == "into"@ { is_scalar(*c.receiver) }
            else if m == "saturating_add"@ || m == "saturating_mul"@ { c.args@.len() == 1 && is_scalar(*c.receiver) && is_scalar(c.args.items@[0]) }
            else { false }
        }
        _ => false,
    }
}
pub open spec fn only(u: Dimension, w: Dimension, x: Option<nat>) -> Option<nat> { if u == w { x } else { match x { Some(_) => Some(0), None => None } } }
// A weight-valued expression, in one dimension.
pub open spec fn wden(e: Expr, u: Dimension, n: Names) -> Option<nat>
    decreases e
{
    match e {
        Expr::Paren(x) => wden(*x.expr, u, n),
        Expr::Cast(x) => wden(*x.expr, u, n),
        // a plain number is a time
        Expr::Path(p) => only(u, Dimension::Time, Some(n(path_text(p.path, "::"@)))),
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            if m == "into"@ { wden(*c.receiver, u, n) }
            else if m == "reads"@ { if is_db(*c.receiver) && one { only(u, Dimension::Time, times(sden(c.args.items@[0], n, false), Some(n(read_n())))) } else { None } }
            else if m == "writes"@ { if is_db(*c.receiver) && one { only(u, Dimension::Time, times(sden(c.args.items@[0], n, false), Some(n(write_n())))) } else { None } }
            else if m == "saturating_add"@ { if one { plus(wden(*c.receiver, u, n), wden(c.args.items@[0], u, n)) } else { None } }
            else if m == "saturating_mul"@ { if one { times(wden(*c.receiver, u, n), sden(c.args.items@[0], n, false)) } else { None } }
            else { None }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { if c.args@.len() == 1 { only(u, Dimension::Time, sden(c.args.items@[0], n, false)) } else { None } }
            else if fun_is(c, "::from_proof_size"@) { if c.args@.len() == 1 { only(u, Dimension::Proof, sden(c.args.items@[0], n, false)) } else { None } }
            else if fun_is(c, "::from_parts"@) { if c.args@.len() == 2 { plus(only(u, Dimension::Time, sden(c.args.items@[0], n, false)), only(u, Dimension::Proof, sden(c.args.items@[1], n, false))) } else { None } }
            else if fun_is(c, "::zero"@) { if no_args(c.args) { Some(0) } else { None } }
            else { None }
        }
        _ => None,
    }
}
// Where the denotation is claimed: factors are numbers, and (the recorded finding C03-bare-variable) no
// number of the other dimension has a part without a literal factor.
pub open spec fn clean(e: Expr, u: Dimension, n: Names) -> bool
    decreases e
{
    match e {
        Expr::Paren(x) => clean(*x.expr, u, n),
        Expr::Cast(x) => clean(*x.expr, u, n),
        Expr::Path(p) => u is Time || n(path_text(p.path, "::"@)) == 0,
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            if m == "into"@ { clean(*c.receiver, u, n) }
            else if m == "saturating_add"@ { one && clean(*c.receiver, u, n) && clean(c.args.items@[0], u, n) }
            else if m == "saturating_mul"@ { one && clean(*c.receiver, u, n) && is_scalar(c.args.items@[0]) }
            else { true }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { c.args@.len() == 1 && (u is Time || sden(c.args.items@[0], n, true) == Some(0nat)) }
            else if fun_is(c, "::from_proof_size"@) { c.args@.len() == 1 && (u is Proof || sden(c.args.items@[0], n, true) == Some(0nat)) }
            else if fun_is(c, "::from_parts"@) { c.args@.len() == 2 && (if u is Time { sden(c.args.items@[1], n, true) == Some(0nat) } else { sden(c.args.items@[0], n, true) == Some(0nat) }) }
            else { true }
        }
        _ => true,
    }
}
// Database reads and writes cost time only.
pub open spec fn costs(u: Dimension, n: Names) -> bool { u is Proof ==> n(read_n()) == 0 && n(write_n()) == 0 }
pub open spec fn xval(t: Term<u128>, n: Names, z: bool) -> nat { if z { zval(t, n) } else { sval(t, n) } }
// The equation `t` has the value of the number `e`.
pub open spec fn means(t: Term<u128>, e: Expr) -> bool { forall|n: Names, z: bool| #[trigger] sden(e, n, z) == Some(xval(t, n, z)) }
pub open spec fn names_var(t: Term<u128>, v: Seq<char>) -> bool { t is Var && t->Var_0.0@ == v }
pub open spec fn is_num(t: Term<u128>, v: nat) -> bool { match t { Term::Scalar(x) => x == v, Term::Value(x) => x == v, _ => false } }
// One step of reading a number-valued expression.
pub open spec fn sstep(t: Term<u128>, e: Expr) -> bool {
    match e {
        Expr::Paren(x) => means(t, *x.expr),
        Expr::Cast(x) => means(t, *x.expr),
        Expr::Lit(l) => match lit_den(l.lit) { Some(v) => is_num(t, v), None => false },
        Expr::Path(p) => names_var(t, path_text(p.path, "::"@)),
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            let x = c.args@[0];
            if m == "ref_time"@ { no_args(c.args) && means(t, *c.receiver) }
            else if m == "into"@ { means(t, *c.receiver) }
            else if m == "reads"@ || m == "writes"@ {
                let v = if m == "reads"@ { read_n() } else { write_n() };
                is_db(*c.receiver) && one && t is Mul && (names_var(*t->Mul_1, v) && means(*t->Mul_0, x) || names_var(*t->Mul_0, v) && means(*t->Mul_1, x))
            }
            else if m == "saturating_add"@ { one && t is Add && (means(*t->Add_0, *c.receiver) && means(*t->Add_1, x) || means(*t->Add_1, *c.receiver) && means(*t->Add_0, x)) }
            else if m == "saturating_mul"@ { one && t is Mul && (means(*t->Mul_0, *c.receiver) && means(*t->Mul_1, x) || means(*t->Mul_1, *c.receiver) && means(*t->Mul_0, x)) }
            else { false }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { c.args@.len() == 1 && means(t, c.args@[0]) }
            else if fun_is(c, "::zero"@) { no_args(c.args) && is_num(t, 0) }
            else { false }
        }
        _ => false,
    }
}
pub proof fn lemma_sstep(t: Term<u128>, e: Expr)
    requires sstep(t, e) || means(t, e)
    ensures means(t, e)
{
    if !means(t, e) { assert forall|n: Names, z: bool| #[trigger] sden(e, n, z) == Some(xval(t, n, z)) by {
        match e {
            Expr::Paren(x) => { assert(sden(*x.expr, n, z) == Some(xval(t, n, z))); }
            Expr::Cast(x) => { assert(sden(*x.expr, n, z) == Some(xval(t, n, z))); }
            Expr::MethodCall(c) => {
                let m = c.method@;
                let x = c.args@[0];
                let p = sden(*c.receiver, n, z);
                let q = sden(c.args.items@[0], n, z);
                if t is Mul {
                    let (l, r) = (xval(*t->Mul_0, n, z), xval(*t->Mul_1, n, z));
                    assert(l * r == r * l) by (nonlinear_arith);
                    assert(xval(t, n, z) == l * r);
                }
                if t is Add { assert(xval(t, n, z) == xval(*t->Add_0, n, z) + xval(*t->Add_1, n, z)); }
            }
            Expr::Call(c) => { let q = sden(c.args.items@[0], n, z); }
            _ => {}
        }
    } }
}
// The method names are distinct texts.
pub proof fn lemma_methods()
    ensures
        "ref_time"@.len() == 8, "reads"@.len() == 5, "writes"@.len() == 6, "into"@.len() == 4, "saturating_add"@.len() == 14, "saturating_mul"@.len() == 14,
        "saturating_add"@ != "saturating_mul"@,
{
    reveal_strlit("ref_time"); reveal_strlit("reads"); reveal_strlit("writes"); reveal_strlit("into"); reveal_strlit("saturating_add"); reveal_strlit("saturating_mul");
    assert("saturating_add"@[11] != "saturating_mul"@[11]);
}
pub open spec fn weighs_at(t: Term<Weight>, e: Expr, u: Dimension, n: Names) -> bool {
    &&& costs(u, n) && clean(e, u, n) ==> wden(e, u, n) == Some(cval(t, u, n))
    &&& is_scalar(e) ==> sden(e, n, false) == Some(cval(t, u, n))
}
// The equation `t` has the value of the weight `e`; if `e` is a number, it has that value in both dimensions.
pub open spec fn weighs(t: Term<Weight>, e: Expr) -> bool { forall|u: Dimension, n: Names| #[trigger] weighs_at(t, e, u, n) }
// A number counted in one dimension; in the other one its literals are gone.
pub open spec fn in_dim(t: Term<Weight>, e: Expr, d: Dimension) -> bool { forall|u: Dimension, n: Names| #[trigger] cval(t, u, n) == sden(e, n, u != d)->0 && sden(e, n, u != d) is Some }
// A number of reads or writes.
pub open spec fn counts(t: Term<Weight>, e: Expr) -> bool { forall|n: Names| sden(e, n, false) == Some(#[trigger] cval(t, Dimension::Time, n)) }
pub open spec fn in_parts(t: Term<Weight>, a: Expr, b: Expr) -> bool {
    forall|u: Dimension, n: Names| #[trigger] cval(t, u, n) == sden(a, n, !(u is Time))->0 + sden(b, n, !(u is Proof))->0 && sden(a, n, !(u is Time)) is Some && sden(b, n, !(u is Proof)) is Some
}
pub open spec fn nothing(t: Term<Weight>) -> bool { forall|u: Dimension, n: Names| #[trigger] cval(t, u, n) == 0 }
pub open spec fn cnames_var(t: Term<Weight>, v: Seq<char>) -> bool { t is Var && t->Var_0.0@ == v }
// One step of reading a weight-valued expression.
pub open spec fn wstep(t: Term<Weight>, e: Expr) -> bool {
    match e {
        Expr::Paren(x) => weighs(t, *x.expr),
        Expr::Cast(x) => weighs(t, *x.expr),
        Expr::Path(p) => cnames_var(t, path_text(p.path, "::"@)),
        Expr::MethodCall(c) => {
            let m = c.method@;
            let one = c.args@.len() == 1;
            let x = c.args@[0];
            if m == "into"@ { weighs(t, *c.receiver) }
            else if m == "reads"@ || m == "writes"@ {
                let v = if m == "reads"@ { read_n() } else { write_n() };
                is_db(*c.receiver) && one && t is Mul && (cnames_var(*t->Mul_1, v) && counts(*t->Mul_0, x) || cnames_var(*t->Mul_0, v) && counts(*t->Mul_1, x))
            }
            else if m == "saturating_add"@ { one && t is Add && (weighs(*t->Add_0, *c.receiver) && weighs(*t->Add_1, x) || weighs(*t->Add_1, *c.receiver) && weighs(*t->Add_0, x)) }
            else if m == "saturating_mul"@ { one && t is Mul && (weighs(*t->Mul_0, *c.receiver) && weighs(*t->Mul_1, x) || weighs(*t->Mul_1, *c.receiver) && weighs(*t->Mul_0, x)) }
            else { false }
        }
        Expr::Call(c) => {
            if fun_is(c, "::from_ref_time"@) { c.args@.len() == 1 && in_dim(t, c.args@[0], Dimension::Time) }
            else if fun_is(c, "::from_proof_size"@) { c.args@.len() == 1 && in_dim(t, c.args@[0], Dimension::Proof) }
            else if fun_is(c, "::from_parts"@) { c.args@.len() == 2 && in_parts(t, c.args@[0], c.args@[1]) }
            else if fun_is(c, "::zero"@) { no_args(c.args) && nothing(t) }
            else { false }
        }
        _ => false,
    }
}
pub proof fn lemma_rw(t: Term<Weight>, x: Expr, v: Seq<char>, u: Dimension, n: Names)
    requires t is Mul, cnames_var(*t->Mul_1, v) && counts(*t->Mul_0, x) || cnames_var(*t->Mul_0, v) && counts(*t->Mul_1, x), u is Proof ==> n(v) == 0
    ensures only(u, Dimension::Time, times(sden(x, n, false), Some(n(v)))) == Some(cval(t, u, n))
{
    let (l, r) = (cval(*t->Mul_0, u, n), cval(*t->Mul_1, u, n));
    assert(cval(*t->Mul_0, Dimension::Time, n) >= 0 && cval(*t->Mul_1, Dimension::Time, n) >= 0);
    assert(l * r == r * l) by (nonlinear_arith);
    assert(l == 0 || r == 0 ==> l * r == 0) by (nonlinear_arith);
    assert(cval(t, u, n) == l * r);
}
#[verifier::spinoff_prover]
pub proof fn lemma_wstep_method(t: Term<Weight>, c: ExprMethodCall, e: Expr, u: Dimension, n: Names)
    requires e == Expr::MethodCall(c), wstep(t, e)
    ensures weighs_at(t, e, u, n)
{
    lemma_methods();
    let m = c.method@;
    let x = c.args.items@[0];
    let p = sden(*c.receiver, n, false);
    let q = sden(x, n, false);
    if m == "into"@ { assert(weighs_at(t, *c.receiver, u, n)); }
    if t is Mul {
        let (l, r) = (cval(*t->Mul_0, u, n), cval(*t->Mul_1, u, n));
        assert(l * r == r * l) by (nonlinear_arith);
        assert(l == 0 || r == 0 ==> l * r == 0) by (nonlinear_arith);
        assert(cval(t, u, n) == l * r);
        if m == "reads"@ || m == "writes"@ {
            if costs(u, n) { lemma_rw(t, c.args@[0], if m == "reads"@ { read_n() } else { write_n() }, u, n); }
        } else if m == "saturating_mul"@ {
            assert(weighs_at(*t->Mul_0, *c.receiver, u, n) && weighs_at(*t->Mul_1, x, u, n) || weighs_at(*t->Mul_1, *c.receiver, u, n) && weighs_at(*t->Mul_0, x, u, n));
        }
    }
    if m == "reads"@ { assert(weighs_at(t, e, u, n)); }
    if m == "writes"@ { assert(weighs_at(t, e, u, n)); }
    if m == "saturating_mul"@ { assert(weighs_at(t, e, u, n)); }
    if t is Add && m == "saturating_add"@ {
        assert(cval(t, u, n) == cval(*t->Add_0, u, n) + cval(*t->Add_1, u, n));
        assert(weighs_at(*t->Add_0, *c.receiver, u, n) && weighs_at(*t->Add_1, x, u, n) || weighs_at(*t->Add_1, *c.receiver, u, n) && weighs_at(*t->Add_0, x, u, n));
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_wstep_call(t: Term<Weight>, c: ExprCall, e: Expr, u: Dimension, n: Names)
    requires e == Expr::Call(c), wstep(t, e)
    ensures weighs_at(t, e, u, n)
{
    assert(cval(t, u, n) >= 0 && cval(t, Dimension::Time, n) >= 0 && cval(t, Dimension::Proof, n) >= 0);
    let p = sden(c.args.items@[0], n, false);
    let q = sden(c.args.items@[1], n, false);
    let p = sden(c.args.items@[0], n, true);
    let q = sden(c.args.items@[1], n, true);
    if fun_is(c, "::from_ref_time"@) { assert(weighs_at(t, e, u, n)); }
    else if fun_is(c, "::from_proof_size"@) { assert(weighs_at(t, e, u, n)); }
    else if fun_is(c, "::from_parts"@) { assert(weighs_at(t, e, u, n)); }
}
pub proof fn lemma_wstep(t: Term<Weight>, e: Expr)
    requires wstep(t, e) || weighs(t, e)
    ensures weighs(t, e)
{
    if !weighs(t, e) { assert forall|u: Dimension, n: Names| #[trigger] weighs_at(t, e, u, n) by {
        match e {
            Expr::Paren(x) => { assert(weighs_at(t, *x.expr, u, n)); }
            Expr::Cast(x) => { assert(weighs_at(t, *x.expr, u, n)); }
            Expr::MethodCall(c) => { lemma_wstep_method(t, c, e, u, n); }
            Expr::Path(p) => { assert(cval(t, u, n) == n(path_text(p.path, "::"@))); assert(clean(e, u, n) && u is Proof ==> cval(t, u, n) == 0); assert(weighs_at(t, e, u, n)); }
            Expr::Call(c) => { lemma_wstep_call(t, c, e, u, n); }
            _ => {}
        }
    } }
}
@end
@fn parse::pallet::lit_to_value
@ensures
        r is Ok ==> lit_den(*lit) == Some(r->Ok_0 as nat),
        lit_fits(*lit) ==> r is Ok,
@at start
    broadcast use LitInt::axiom_digits;
@fn parse::pallet::function_name
@ensures
        r is Ok ==> fun_text(*call) == Some(r->Ok_0@),
        fun_text(*call) is Some ==> r is Ok,
@fn parse::pallet::validate_db_func
@ensures
        r is Ok ==> db_path(*func),
        db_path(*func) ==> r is Ok,
@loop 0 inv
            invariant
                texts($acc@) =~= idents(func->Path_0.path).take($i as int),
@loop 0 after
        proof { assert(texts($acc@) =~= idents(func->Path_0.path)); }
@fn parse::pallet::validate_db_call
@ensures
        r is Ok ==> is_db(*call),
        is_db(*call) ==> r is Ok,
@fn parse::pallet::extract_arg
@ensures
        r is Ok ==> args@.len() == 1 && *r->Ok_0 == args@[0],
        args@.len() == 1 ==> r is Ok,
@fn parse::pallet::parse_scalar_args
@decreases *args
@ensures
        r is Ok ==> args@.len() == 1 && means(r->Ok_0, args@[0]),
        args@.len() == 1 && scalar_fits(args@[0]) ==> r is Ok,
@fn parse::pallet::parse_scalar_expression
@decreases *expr
@ensures
        r is Ok ==> means(r->Ok_0, *expr),
        scalar_fits(*expr) ==> r is Ok,
@at end
    proof { if __ret is Ok { lemma_sstep(__ret->Ok_0, *expr); } }
@fn parse::pallet::parse_scalar_call
@decreases *call
@ensures
        r is Ok ==> means(r->Ok_0, Expr::Call(*call)),
        scalar_fits(Expr::Call(*call)) ==> r is Ok,
@at start
    proof { lemma_four_ends(); }
@at end
    proof { if __ret is Ok { lemma_sstep(__ret->Ok_0, Expr::Call(*call)); } }
@fn parse::pallet::parse_scalar_method_call
@decreases *call
@ensures
        r is Ok ==> means(r->Ok_0, Expr::MethodCall(*call)),
        scalar_fits(Expr::MethodCall(*call)) ==> r is Ok,
@at start
    proof { lemma_methods(); }
@at end
    proof { if __ret is Ok { lemma_sstep(__ret->Ok_0, Expr::MethodCall(*call)); } }
@fn parse::pallet::parse_args
@decreases *args
@ensures
        r is Ok ==> args@.len() == 1 && weighs(r->Ok_0, args@[0]),
        args@.len() == 1 && weight_fits(args@[0]) ==> r is Ok,
@fn parse::pallet::parse_rw
@decreases *expr
@ensures
        r is Ok ==> counts(r->Ok_0, *expr),
        scalar_fits(*expr) ==> r is Ok,
@fn parse::pallet::parse_rw_args
@ensures
        r is Ok ==> expr@.len() == 1 && counts(r->Ok_0, expr@[0]),
        expr@.len() == 1 && scalar_fits(expr@[0]) ==> r is Ok,
@fn parse::pallet::parse_proof_size
@ensures
        r is Ok ==> in_dim(r->Ok_0, *expr, Dimension::Proof),
        scalar_fits(*expr) ==> r is Ok,
@fn parse::pallet::parse_proof_size_args
@ensures
        r is Ok ==> expr@.len() == 1 && in_dim(r->Ok_0, expr@[0], Dimension::Proof),
        expr@.len() == 1 && scalar_fits(expr@[0]) ==> r is Ok,
@fn parse::pallet::parse_ref_time
@ensures
        r is Ok ==> in_dim(r->Ok_0, *expr, Dimension::Time),
        scalar_fits(*expr) ==> r is Ok,
@fn parse::pallet::parse_ref_time_args
@ensures
        r is Ok ==> expr@.len() == 1 && in_dim(r->Ok_0, expr@[0], Dimension::Time),
        expr@.len() == 1 && scalar_fits(expr@[0]) ==> r is Ok,
@fn parse::pallet::parse_parts_args
@ensures
        r is Ok ==> args@.len() == 2 && in_parts(r->Ok_0, args@[0], args@[1]),
        args@.len() == 2 && scalar_fits(args@[0]) && scalar_fits(args@[1]) ==> r is Ok,
@fn parse::pallet::parse_call
@ensures
        r is Ok ==> weighs(r->Ok_0, Expr::Call(*call)),
        call_fits(*call) ==> r is Ok,
@at start
    proof { lemma_four_ends(); }
@at end
    proof { if __ret is Ok { lemma_wstep(__ret->Ok_0, Expr::Call(*call)); } }
@fn parse::pallet::parse_method_call
@decreases *call
@ensures
        r is Ok ==> weighs(r->Ok_0, Expr::MethodCall(*call)),
        weight_fits(Expr::MethodCall(*call)) ==> r is Ok,
@at start
    proof { lemma_methods(); }
@at end
    proof { if __ret is Ok { lemma_wstep(__ret->Ok_0, Expr::MethodCall(*call)); } }
@fn parse::pallet::parse_expression
@decreases *expr
@ensures
        r is Ok ==> weighs(r->Ok_0, *expr),
        weight_fits(*expr) ==> r is Ok,
@at end
    proof { if __ret is Ok { lemma_wstep(__ret->Ok_0, *expr); } }
@end
