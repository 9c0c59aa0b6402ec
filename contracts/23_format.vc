@ghost sp
// Small integers convert to the float of the same value.
pub broadcast axiom fn axiom_f_const(n: int)
    ensures
        #![trigger f_of_u(n)]
        n == 1000000000000 ==> f_of_u(n) == fbits(0x426d1a94a2000000),
        n == 1000000000 ==> f_of_u(n) == fbits(0x41cdcd6500000000),
        n == 1000000 ==> f_of_u(n) == fbits(0x412e848000000000),
        n == 1000 ==> f_of_u(n) == fbits(0x408f400000000000),
        n == 1024 ==> f_of_u(n) == fbits(0x4090000000000000),
        n == 1048576 ==> f_of_u(n) == fbits(0x4130000000000000),
        n == 1073741824 ==> f_of_u(n) == fbits(0x41d0000000000000),
;
pub open spec fn in_unit(v: u128, unit: u64, name: Seq<char>) -> Seq<char> { fshow(fdiv(f_of_u(v as int), fbits(unit)), ".2"@) + name }
// The largest unit that does not exceed the value, and the value divided by exactly that unit (C15).
pub open spec fn scalar_text(v: u128) -> Seq<char> {
    if v >= 1000000000000 { in_unit(v, 0x426d1a94a2000000, "T"@) } else if v >= 1000000000 { in_unit(v, 0x41cdcd6500000000, "G"@) } else if v >= 1000000 { in_unit(v, 0x412e848000000000, "M"@) } else if v >= 1000 { in_unit(v, 0x408f400000000000, "K"@) } else { dec(v as int) }
}
pub open spec fn time_text(v: u128) -> Seq<char> {
    if v >= 1000000000000 { in_unit(v, 0x426d1a94a2000000, "s"@) } else if v >= 1000000000 { in_unit(v, 0x41cdcd6500000000, "ms"@) } else if v >= 1000000 { in_unit(v, 0x412e848000000000, "us"@) } else if v >= 1000 { in_unit(v, 0x408f400000000000, "ns"@) } else { dec(v as int) + "ps"@ }
}
pub open spec fn proof_text(v: u128) -> Seq<char> {
    if v >= 1073741824 { in_unit(v, 0x41d0000000000000, "GiB"@) } else if v >= 1048576 { in_unit(v, 0x4130000000000000, "MiB"@) } else if v >= 1024 { in_unit(v, 0x4090000000000000, "KiB"@) } else { dec(v as int) + "B"@ }
}
pub open spec fn value_text(u: Dimension, v: u128) -> Seq<char> { match u { Dimension::Time => time_text(v), Dimension::Proof => proof_text(v) } }
@end
@fn crate::Dimension::fmt_scalar
@fmt
@ensures
        r@ == scalar_text(w),
@at start
    broadcast use axiom_f_const;
@fn crate::Dimension::fmt_time
@fmt
@ensures
        r@ == time_text(t),
@at start
    broadcast use axiom_f_const;
@fn crate::Dimension::fmt_proof
@fmt
@ensures
        r@ == proof_text(b),
@at start
    broadcast use axiom_f_const;
@fn crate::Dimension::fmt_value
@ensures
        r@ == value_text(*self, v),
@end
