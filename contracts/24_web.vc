@ghost vx
#[verifier::external_body]
pub fn i128_unsigned_abs(x: i128) -> (r: u128) ensures r == if x < 0 { -x } else { x as int } { unimplemented!() }
@end
@call num::unsigned_abs[i128] => crate::vx::i128_unsigned_abs
@ghost vx
#[verifier::external_body]
pub fn i128_min(a: i128, b: i128) -> (r: i128) ensures r == if a <= b { a } else { b } { unimplemented!() }
@end
@call Ord::min[i128] => crate::vx::i128_min
@ghost vx
#[verifier::external_body]
pub fn i128_max(a: i128, b: i128) -> (r: i128) ensures r == if a >= b { a } else { b } { unimplemented!() }
@end
@call Ord::max[i128] => crate::vx::i128_max
@ghost vx
impl VFmt for i128 { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { ishow(*self as int, sp) } }
@end
@ghost sp
// The sort keys of the web table (C18).
pub open spec fn rel_key(c: TermChange) -> int {
    match c.change {
        RelativeChange::Added => i128::MAX as int,
        RelativeChange::Removed => i128::MIN as int,
        RelativeChange::Unchanged => 0,
        RelativeChange::Changed => { let k = i_of_f(fmul(c.percent, fbits(0x408f400000000000))) as int; if k <= u32::MAX { k } else { u32::MAX as int } },
    }
}
// Both values are there and fit the key type (documented domain of the keys).
pub open spec fn has_values(c: TermChange) -> bool {
    c.change == RelativeChange::Changed ==> c.new_v is Some && c.old_v is Some && c.new_v->0 <= i128::MAX && c.old_v->0 <= i128::MAX
}
pub open spec fn abs_key(c: TermChange) -> int {
    match c.change {
        RelativeChange::Added => i128::MAX as int,
        RelativeChange::Removed => i128::MIN as int,
        RelativeChange::Unchanged => 0,
        RelativeChange::Changed => c.new_v->0 - c.old_v->0,
    }
}
// Rounding is monotone: a smaller float does not get a larger key.
pub axiom fn axiom_key_mono(a: f64, b: f64)
    requires flt(a, b)
    ensures i_of_f(fmul(a, fbits(0x408f400000000000))) <= i_of_f(fmul(b, fbits(0x408f400000000000)));
pub proof fn lemma_key_order(a: TermChange, b: TermChange)
    requires has_values(a), has_values(b)
    ensures
        a.change == RelativeChange::Added && b.change != RelativeChange::Added ==> rel_key(a) > rel_key(b) && abs_key(a) >= abs_key(b),
        a.change == RelativeChange::Removed && b.change != RelativeChange::Removed ==> rel_key(a) <= rel_key(b) && abs_key(a) < abs_key(b),
        a.change == RelativeChange::Changed && b.change == RelativeChange::Changed ==> {
            &&& flt(a.percent, b.percent) ==> rel_key(a) <= rel_key(b)
            &&& a.new_v->0 - a.old_v->0 < b.new_v->0 - b.old_v->0 ==> abs_key(a) < abs_key(b)
        },
{
    if flt(a.percent, b.percent) { axiom_key_mono(a.percent, b.percent); }
}
pub open spec fn kind_cell(k: RelativeChange) -> Seq<char> {
    match k {
        RelativeChange::Unchanged => "<p style='color:gray'>Unchanged</p>"@,
        RelativeChange::Added => "<p style='color:orange'>Added</p>"@,
        _ => "<p style='color:orange'>Removed</p>"@,
    }
}
pub open spec fn percent_cell(p: f64, k: RelativeChange) -> Seq<char> {
    if k != RelativeChange::Changed { kind_cell(k) }
    else if flt(p, fbits(0)) { "<p style='color:green'>-"@ + fshow(fabs(p), ".2?"@) + "%</p>"@ }
    else if flt(fbits(0), p) { "<p style='color:red'>+"@ + fshow(fabs(p), ".2?"@) + "%</p>"@ }
    else { fshow(p, ".0?"@) }
}
pub open spec fn abs_cell(c: TermChange, u: Dimension) -> Seq<char> {
    if c.change != RelativeChange::Changed { kind_cell(c.change) }
    else if c.new_v->0 < c.old_v->0 { "<p style='color:green'>-"@ + value_text(u, (c.old_v->0 - c.new_v->0) as u128) + "</p>"@ }
    else if c.new_v->0 > c.old_v->0 { "<p style='color:red'>+"@ + value_text(u, (c.new_v->0 - c.old_v->0) as u128) + "</p>"@ }
    else { ishow(0, ".0?"@) }
}
@end
@fn web_html::order_percent
@ensures
        r == rel_key(*change),
@fn web_html::order_abs
@requires
        has_values(*change),
@ensures
        r == abs_key(*change),
@fn web_html::html_color_percent
@fmt
@ensures
        r@ == percent_cell(p, change),
@fn web_html::html_color_abs
@fmt
@requires
        has_values(*change),
@ensures
        r@ == abs_cell(*change, unit),
@end
