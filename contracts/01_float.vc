# `f64`: every operation is an uninterpreted function of its operands (no rounding is modelled);
# comparisons carry the order axioms of IEEE 754.

@ghost vx
pub uninterp spec fn fbits(b: u64) -> f64;
pub uninterp spec fn fnan(a: f64) -> bool;
pub uninterp spec fn flt(a: f64, b: f64) -> bool;
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
pub open spec fn fle(a: f64, b: f64) -> bool { flt(a, b) || feq(a, b) }
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;
pub uninterp spec fn fabs(a: f64) -> f64;
pub uninterp spec fn f_of_u(a: int) -> f64;
pub uninterp spec fn i_of_f(a: f64) -> i128;
// Two numbers are ordered in exactly one way; a NaN is not ordered with anything.
pub broadcast axiom fn axiom_flt(a: f64, b: f64)
    ensures
        #![trigger flt(a, b)]
        fnan(a) || fnan(b) ==> !flt(a, b),
        flt(a, b) ==> !flt(b, a) && !feq(a, b) && !feq(b, a),
        !fnan(a) && !fnan(b) && !flt(a, b) ==> flt(b, a) || feq(a, b);
pub broadcast axiom fn axiom_feq(a: f64, b: f64)
    ensures
        #![trigger feq(a, b)]
        feq(a, b) == feq(b, a),
        fnan(a) || fnan(b) ==> !feq(a, b),
        !fnan(a) && a == b ==> feq(a, b);
pub broadcast group gfloat { axiom_flt, axiom_feq }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_bits(b: u64) -> (r: f64) ensures r == fbits(b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_lt(a: f64, b: f64) -> (r: bool) ensures r == flt(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_le(a: f64, b: f64) -> (r: bool) ensures r == fle(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_gt(a: f64, b: f64) -> (r: bool) ensures r == flt(b, a) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_ge(a: f64, b: f64) -> (r: bool) ensures r == fle(b, a) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_eq(a: f64, b: f64) -> (r: bool) ensures r == feq(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_ne(a: f64, b: f64) -> (r: bool) ensures r == !feq(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_add(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_sub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_mul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_div(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_neg(a: f64) -> (r: f64) ensures r == fneg(a) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_abs(a: f64) -> (r: f64) ensures r == fabs(a) { unimplemented!() }
@end
@call f64::abs => crate::vx::f64_abs
@ghost vx
#[verifier::external_body]
pub fn f64_is_nan(a: f64) -> (r: bool) ensures r == fnan(a) { unimplemented!() }
@end
@call f64::is_nan => crate::vx::f64_is_nan
@ghost vx
#[verifier::external_body]
pub fn u128_to_f64(a: u128) -> (r: f64) ensures r == f_of_u(a as int) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn f64_to_i128(a: f64) -> (r: i128) ensures r == i_of_f(a) { unimplemented!() }
@end
