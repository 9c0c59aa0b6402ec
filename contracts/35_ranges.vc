@ghost vx when Attribute
pub struct MetaNameValue { pub path: SynPath, pub value: Expr }
pub enum Meta { Path(SynPath), List(Tokens), NameValue(MetaNameValue) }
pub struct Attribute { pub meta: Meta }
// The text of an expression.
impl Expr { pub uninterp spec fn shown_text(&self) -> Seq<char>; }
impl Tokens { pub uninterp spec fn view(&self) -> Seq<char>; }
impl VDisplay for Tokens { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn expr_tokens(e: &Expr) -> (r: Tokens) ensures r@ == e.shown_text() { unimplemented!() }
// The named groups of the first match of a pattern.
pub uninterp spec fn regex_groups(p: Seq<char>, s: Seq<char>) -> Option<Map<Seq<char>, Seq<char>>>;
// Whether matching the pattern can be abandoned (only patterns with back-references or look-around can be).
pub uninterp spec fn regex_plain(p: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Captures { v: () }
impl Captures { pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
#[verifier::external_body]
pub struct ReMatch { v: () }
impl ReMatch { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn regex_captures(x: &Regex, s: &str) -> (r: Result<Option<Captures>, RegexError>)
    ensures
        regex_plain(x@) ==> r is Ok,
        r is Ok ==> match r->Ok_0 { Some(c) => regex_groups(x@, s@) == Some(c@), None => regex_groups(x@, s@) is None },
{ unimplemented!() }
#[verifier::external_body]
pub fn captures_name<'a>(c: &'a Captures, n: &str) -> (r: Option<&'a ReMatch>)
    ensures match r { Some(m) => c@.contains_key(n@) && c@[n@] == m@, None => !c@.contains_key(n@) }
{ unimplemented!() }
#[verifier::external_body]
pub fn match_text<'a>(m: &&'a ReMatch) -> (r: &'a str) ensures r@ == m@ { unimplemented!() }
@end
@call HashMap::new[HashMap] => crate::vx::bmap_new
@ghost vx when bmap_new
#[verifier::external_body]
pub fn bmap_new<V>() -> (r: BMap<V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
@end
@type syn::Meta => crate::vx::Meta
@type syn::MetaNameValue => crate::vx::MetaNameValue
@call ToTokens::to_token_stream => crate::vx::expr_tokens
@call ToTokens::into_token_stream => crate::vx::expr_tokens
@call Regex::captures => crate::vx::regex_captures
@call Captures::name => crate::vx::captures_name
@call Match::as_str => crate::vx::match_text
@ghost sp
// The pattern that reads a range out of a documentation line.
pub open spec fn range_pattern() -> Seq<char> { r#"[\w\s]*`(?P<component>\w+)`[\w\s]*`\[(?P<min>[\d_]+),\s*(?P<max>[\d_]+)\]`.*"#@ }
pub broadcast axiom fn axiom_range_pattern(p: Seq<char>)
    ensures #![trigger regex_valid(p)] #![trigger regex_plain(p)] p == range_pattern() ==> regex_valid(p) && regex_plain(p);
// What an attribute declares: the groups of the pattern in the text of a documentation line.
pub open spec fn declares(a: Attribute) -> Option<Map<Seq<char>, Seq<char>>> {
    match a.meta { Meta::NameValue(v) => if path_text(v.path, ""@) == "doc"@ { regex_groups(range_pattern(), v.value.shown_text()) } else { None }, _ => None }
}
pub open spec fn group_number(g: Map<Seq<char>, Seq<char>>, n: Seq<char>) -> Option<nat> { if g.contains_key(n) { number(unsigned(without(g[n], '_'))) } else { None } }
// The ranges the attributes declare, by the name without underscores; a later line replaces an earlier one.
pub open spec fn ranges(s: Seq<Attribute>) -> Ranges
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else {
        match declares(s.last()) {
            Some(g) => ranges(s.drop_last()).insert(without(g["component"@], '_'), ComponentRange { min: group_number(g, "min"@)->0 as u32, max: group_number(g, "max"@)->0 as u32 }),
            None => ranges(s.drop_last()),
        }
    }
}
// The attribute declares nothing, or a range of two numbers in order that fit 32 bits.
pub open spec fn sound(a: Attribute) -> bool {
    match declares(a) {
        Some(g) => match (group_number(g, "min"@), group_number(g, "max"@)) { (Some(x), Some(y)) => g.contains_key("component"@) && x <= y && y <= u32::MAX, _ => false },
        None => true,
    }
}
pub open spec fn all_sound(a: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < a.len() ==> sound(#[trigger] a[i]) }
@end
@fn parse::pallet::parse_component_attr
@ensures
        r is Ok ==> sound(*attr) && match declares(*attr) {
            Some(g) => r->Ok_0 is Some && (r->Ok_0->0).0@ == g["component"@] && (r->Ok_0->0).1.min == group_number(g, "min"@)->0 && (r->Ok_0->0).1.max == group_number(g, "max"@)->0,
            None => r->Ok_0 is None,
        },
        r is Err ==> !sound(*attr),
@at start
    broadcast use axiom_range_pattern;
    proof { lemma_no_text(); }
@fn parse::pallet::parse_component_attrs
@ensures
        r is Ok ==> all_sound(attrs@),
        r is Ok ==> match r->Ok_0 { Some(m) => m@ == ranges(attrs@), None => ranges(attrs@) =~= Map::<Seq<char>, ComponentRange>::empty() },
        r is Err ==> exists|i: int| 0 <= i < attrs.len() && !sound(#[trigger] attrs@[i]),
@at start
    proof { lemma_no_text(); }
@loop 0 inv
            invariant
                res@ =~= ranges($src@.take($i as int)),
                forall|j: int| 0 <= j < $i ==> sound(#[trigger] attrs@[j]),
@loop 0 start
            proof { assert($src@.take($i + 1).drop_last() =~= $src@.take($i as int)); }
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@end
@ghost sp
pub proof fn lemma_no_text() ensures ""@ =~= Seq::<char>::empty(), ""@ == Seq::<char>::empty() { reveal_strlit(""); }
@end
