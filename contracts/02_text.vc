@ghost vx when str_starts_with | str_ends_with | str_contains | str_strip_prefix | str_strip_suffix | str_replace | str_trim_start_matches | str_trim_end_matches | str_trim_matches | VPat
// What can be looked for in a text: a character or a text.
pub trait VPat: Sized { spec fn pat(self) -> Seq<char>; }
impl VPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl VPat for &str { open spec fn pat(self) -> Seq<char> { self@ } }
impl VPat for &String { open spec fn pat(self) -> Seq<char> { self@ } }
@end
@ghost vx when starts_in | str_starts_with | str_strip_prefix | str_trim_start_matches | str_trim_matches
pub open spec fn starts_in(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
@end
@ghost vx when text_occurs | str_contains
pub open spec fn text_occurs(t: Seq<char>, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - t.len() && #[trigger] s.subrange(i, i + t.len()) == t }
@end
@ghost vx when str_starts_with
#[verifier::external_body]
pub fn str_starts_with<P: VPat>(s: &str, p: P) -> (r: bool)
    ensures r == starts_in(s@, p.pat()), p.pat().len() == 1 ==> r == (s@.len() > 0 && s@[0] == p.pat()[0])
{ unimplemented!() }
@end
@ghost vx when str_ends_with
#[verifier::external_body]
pub fn str_ends_with<P: VPat>(s: &str, p: P) -> (r: bool)
    ensures r == crate::sp::ends_in(s@, p.pat()), p.pat().len() == 1 ==> r == (s@.len() > 0 && s@.last() == p.pat()[0])
{ unimplemented!() }
@end
@ghost vx when str_contains
#[verifier::external_body]
pub fn str_contains<P: VPat>(s: &str, p: P) -> (r: bool)
    ensures r == text_occurs(p.pat(), s@), p.pat().len() == 1 ==> r == s@.contains(p.pat()[0])
{ unimplemented!() }
@end
@ghost vx when str_strip_prefix
#[verifier::external_body]
pub fn str_strip_prefix<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == p.pat() + t@ && starts_in(s@, p.pat()), None => !starts_in(s@, p.pat()) && (p.pat().len() == 1 ==> s@.len() == 0 || s@[0] != p.pat()[0]) }
{ unimplemented!() }
@end
@ghost vx when str_strip_suffix
#[verifier::external_body]
pub fn str_strip_suffix<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == t@ + p.pat() && crate::sp::ends_in(s@, p.pat()), None => !crate::sp::ends_in(s@, p.pat()) }
{ unimplemented!() }
@end
@ghost vx when str_trim_start_matches | str_trim_end_matches | str_trim_matches | cut_front | cut_back
// Cut off as long as it matches.
pub open spec fn cut_front(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() > 0 && starts_in(s, p) { cut_front(s.skip(p.len() as int), p) } else { s }
}
pub open spec fn cut_back(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() > 0 && crate::sp::ends_in(s, p) { cut_back(s.take(s.len() - p.len()), p) } else { s }
}
#[verifier::external_body]
pub fn str_trim_start_matches<'a, P: VPat>(s: &'a str, p: P) -> (r: &'a str) ensures r@ == cut_front(s@, p.pat()) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_end_matches<'a, P: VPat>(s: &'a str, p: P) -> (r: &'a str) ensures r@ == cut_back(s@, p.pat()) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_matches<'a>(s: &'a str, p: char) -> (r: &'a str) ensures r@ == cut_back(cut_front(s@, p.pat()), p.pat()) { unimplemented!() }
@end
@ghost vx when str_trim | str_trim_start | str_trim_end | white_front | white_back
pub uninterp spec fn is_white(c: char) -> bool;
pub open spec fn white_front(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_white(s[0]) { white_front(s.skip(1)) } else { s }
}
pub open spec fn white_back(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_white(s.last()) { white_back(s.drop_last()) } else { s }
}
#[verifier::external_body]
pub fn str_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == white_back(white_front(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_start<'a>(s: &'a str) -> (r: &'a str) ensures r@ == white_front(s@) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_end<'a>(s: &'a str) -> (r: &'a str) ensures r@ == white_back(s@) { unimplemented!() }
@end
@ghost vx when str_to_lowercase | str_to_uppercase | str_to_ascii_lowercase | str_to_ascii_uppercase | str_eq_ignore_ascii_case | ascii_lower | ascii_upper
pub uninterp spec fn lower_case(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper_case(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lower(c: char) -> char;
pub uninterp spec fn ascii_upper(c: char) -> char;
#[verifier::external_body]
pub fn str_to_lowercase(s: &str) -> (r: String) ensures r@ == lower_case(s@) { unimplemented!() }
#[verifier::external_body]
pub fn str_to_uppercase(s: &str) -> (r: String) ensures r@ == upper_case(s@) { unimplemented!() }
#[verifier::external_body]
pub fn str_to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == s@.map_values(|c: char| ascii_lower(c)) { unimplemented!() }
#[verifier::external_body]
pub fn str_to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == s@.map_values(|c: char| ascii_upper(c)) { unimplemented!() }
#[verifier::external_body]
pub fn str_eq_ignore_ascii_case(s: &str, t: &str) -> (r: bool)
    ensures r == (s@.map_values(|c: char| ascii_lower(c)) =~= t@.map_values(|c: char| ascii_lower(c)))
{ unimplemented!() }
@end
@ghost vx when str_len | bytes_in
// The number of bytes.
pub open spec fn width(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn bytes_in(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { bytes_in(s.drop_last()) + width(s.last()) }
}
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == bytes_in(s@), s@.len() <= r, (r == 0) == (s@.len() == 0) { unimplemented!() }
@end
@ghost vx when str_is_empty
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0), r == (s@ =~= Seq::<char>::empty()) { unimplemented!() }
@end
@ghost vx
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char> { s.filter(|x: char| x != c) }
// Every occurrence of a character replaced by a text.
pub open spec fn replaced(s: Seq<char>, c: char, w: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else { replaced(s.drop_last(), c, w) + (if s.last() == c { w } else { seq![s.last()] }) }
}
@end
@ghost vx when str_replace
// Every occurrence of a longer text replaced.
pub uninterp spec fn text_replaced(s: Seq<char>, t: Seq<char>, w: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_replace<P: VPat>(s: &str, p: P, w: &str) -> (r: String)
    ensures r@ == (if p.pat().len() == 1 { replaced(s@, p.pat()[0], w@) } else { text_replaced(s@, p.pat(), w@) }),
        p.pat().len() == 1 && w@ == Seq::<char>::empty() ==> r@ == without(s@, p.pat()[0])
{ unimplemented!() }
@end
@ghost sp
pub open spec fn ends_in(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
@end
@call str::starts_with => crate::vx::str_starts_with
@call str::ends_with => crate::vx::str_ends_with
@call str::contains => crate::vx::str_contains
@call str::strip_prefix => crate::vx::str_strip_prefix
@call str::strip_suffix => crate::vx::str_strip_suffix
@call str::trim_start_matches => crate::vx::str_trim_start_matches
@call str::trim_end_matches => crate::vx::str_trim_end_matches
@call str::trim_matches => crate::vx::str_trim_matches
@call str::trim => crate::vx::str_trim
@call str::trim_start => crate::vx::str_trim_start
@call str::trim_end => crate::vx::str_trim_end
@call str::to_lowercase => crate::vx::str_to_lowercase
@call str::to_uppercase => crate::vx::str_to_uppercase
@call str::to_ascii_lowercase => crate::vx::str_to_ascii_lowercase
@call str::to_ascii_uppercase => crate::vx::str_to_ascii_uppercase
@call str::eq_ignore_ascii_case => crate::vx::str_eq_ignore_ascii_case
@call str::len => crate::vx::str_len
@call str::is_empty => crate::vx::str_is_empty
@call String::len => crate::vx::str_len
@call String::is_empty => crate::vx::str_is_empty
@call str::replace => crate::vx::str_replace
