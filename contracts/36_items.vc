@ghost vx when ImplItem
pub enum ReturnType { Default, Type((), Box<Type>) }
pub struct Signature { pub ident: Ident, pub output: ReturnType }
pub enum Stmt { Local(Tokens), Item(Tokens), Expr(Expr, Option<()>), Macro(Tokens) }
pub struct Block { pub stmts: Vec<Stmt> }
pub struct ImplItemFn { pub attrs: Vec<Attribute>, pub sig: Signature, pub block: Block }
pub enum ImplItem { Const(Tokens), Fn(ImplItemFn), Type(Tokens), Macro(Tokens), Verbatim(Tokens) }
@end
@ghost vx when Item
pub struct ItemImpl { pub attrs: Vec<Attribute>, pub self_ty: Box<Type>, pub items: Vec<ImplItem> }
pub struct Macro { pub path: SynPath, pub tokens: Tokens }
pub struct ItemMacro { pub ident: Option<Ident>, pub mac: Macro }
pub struct ItemMod { pub ident: Ident, pub content: Option<((), Vec<Item>)> }
pub struct ItemConst { pub ident: Ident, pub ty: Box<Type>, pub expr: Box<Expr> }
pub enum Item { Const(ItemConst), Enum(Tokens), ExternCrate(Tokens), Fn(Tokens), ForeignMod(Tokens), Impl(ItemImpl), Macro(ItemMacro), Mod(ItemMod), Static(Tokens), Struct(Tokens), Trait(Tokens), TraitAlias(Tokens), Type(Tokens), Union(Tokens), Use(Tokens), Verbatim(Tokens) }
pub struct SynFile { pub items: Vec<Item> }
@end
@ghost vx when syn_parse_file
#[verifier::external_body]
pub struct SynError { v: () }
impl VDisplay for SynError { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn syn_parse_file(s: &str) -> (r: Result<SynFile, SynError>)
    ensures match r { Ok(f) => file_items(s@) == Some(f.items@) && all_formed(f.items@), Err(_) => file_items(s@) is None }
{ unimplemented!() }
@end
@ghost vx when syn_parse2
#[verifier::external_body]
pub fn syn_parse2(t: Tokens) -> (r: Result<ItemConst, SynError>)
    ensures match r { Ok(c) => const_in(t@) == Some(c), Err(_) => const_in(t@) is None }
{ unimplemented!() }
@end
@call syn::parse_file => crate::vx::syn_parse_file
@call syn::parse2 => crate::vx::syn_parse2
@type syn::File => crate::vx::SynFile
@type proc_macro2::TokenStream => crate::vx::Tokens
@call PartialEq::eq[Ident] => crate::vx::ident_is
@ghost sp
// The items of a source text, and the constant in the arguments of a macro, as the library reads them.
pub uninterp spec fn file_items(s: Seq<char>) -> Option<Seq<Item>>;
pub uninterp spec fn const_in(s: Seq<char>) -> Option<ItemConst>;
// A path that was read has a segment.
pub open spec fn formed(i: Item) -> bool
    decreases i
{
    match i {
        Item::Macro(m) => m.mac.path.segments@.len() > 0,
        Item::Mod(m) => m.content is Some ==> forall|k: int| 0 <= k < (m.content->0).1@.len() ==> formed(#[trigger] (m.content->0).1@[k]),
        _ => true,
    }
}
pub open spec fn all_formed(s: Seq<Item>) -> bool { forall|k: int| 0 <= k < s.len() ==> formed(#[trigger] s[k]) }
pub open spec fn last_ident(p: SynPath) -> Seq<char> { p.segments@.last().ident@ }
pub open spec fn gives_weight(t: ReturnType) -> bool {
    match t { ReturnType::Type(_, t) => (match *t { Type::Path(p) => p.path.segments@.len() > 0 && ends_in(last_ident(p.path), "Weight"@), _ => false }), _ => false }
}
// The one expression of a weight function.
pub open spec fn body_of(m: ImplItemFn) -> Option<Expr> {
    if m.block.stmts@.len() != 1 { None } else { match m.block.stmts@[0] { Stmt::Expr(e, _) => Some(e), _ => None } }
}
pub open spec fn ranges_are(r: Option<ComponentRanges>, a: Seq<Attribute>) -> bool {
    match r { Some(m) => m@ == ranges(a), None => ranges(a) =~= Map::<Seq<char>, ComponentRange>::empty() }
}
// The equation has the value of the expression; a plain number is a time.
pub open spec fn values(t: Term<Weight>, e: Expr) -> bool { weighs(t, e) || in_dim(t, e, Dimension::Time) }
pub open spec fn read_as(m: ImplItemFn, name: Seq<char>, t: Term<Weight>, r: Option<ComponentRanges>) -> bool {
    &&& name == m.sig.ident@
    &&& gives_weight(m.sig.output)
    &&& body_of(m) is Some && values(t, body_of(m)->0)
    &&& all_sound(m.attrs@) && ranges_are(r, m.attrs@)
}
pub open spec fn ext_of(m: ImplItemFn, pallet: Seq<char>, x: ChromaticExtrinsic) -> bool { x.pallet@ == pallet && read_as(m, x.name@, x.term, x.comp_ranges) }
pub open spec fn fns(s: Seq<ImplItem>) -> Seq<ImplItemFn>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { ImplItem::Fn(m) => fns(s.drop_last()).push(m), _ => fns(s.drop_last()) } }
}
pub open spec fn exts_of(s: Seq<ImplItemFn>, pallet: Seq<char>, v: Seq<ChromaticExtrinsic>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> ext_of(s[i], pallet, #[trigger] v[i])
}
// An implementation for `()`, `WeightInfo` or `SubstrateWeight`.
pub open spec fn weight_target(t: Type) -> bool {
    match t {
        Type::Tuple(t) => t.elems@.len() == 0,
        Type::Path(p) => p.path.leading_colon is None && p.path.segments@.len() == 1 && (last_ident(p.path) == "WeightInfo"@ || last_ident(p.path) == "SubstrateWeight"@),
        _ => false,
    }
}
pub open spec fn impl_of(i: Item, pallet: Seq<char>, v: Seq<ChromaticExtrinsic>) -> bool {
    match i { Item::Impl(x) => weight_target(*x.self_ty) && v.len() > 0 && exts_of(fns(x.items@), pallet, v), _ => false }
}
pub open spec fn some_impl(s: Seq<Item>, pallet: Seq<char>, v: Seq<ChromaticExtrinsic>) -> bool { exists|i: int| 0 <= i < s.len() && impl_of(#[trigger] s[i], pallet, v) }
@end
@fn parse::pallet::handle_method
@ensures
        r is Ok ==> read_as(*m, (r->Ok_0).0@, (r->Ok_0).1, (r->Ok_0).2),
@at start
    proof { reveal_strlit("Weight"); }
@fn parse::pallet::handle_item
@ensures
        r is Ok ==> impl_of(*item, pallet@, r->Ok_0@),
@loop 0 inv
            invariant
                item is Impl,
                exts_of(fns($src@.take($i as int)), pallet@, weights@),
@loop 0 start
            proof { assert($src@.take($i + 1).drop_last() =~= $src@.take($i as int)); }
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@fn parse::pallet::parse_content
@ensures
        r is Ok ==> file_items(content@) is Some && some_impl(file_items(content@)->0, pallet@, r->Ok_0@),
@assumed
        parse_outcome(pallet@, content@, r),
@end
@ghost sp
pub proof fn lemma_one_end(t: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, b.len() > 0, a.last() != b.last()
    ensures !(ends_in(t, a) && ends_in(t, b))
{
    if ends_in(t, a) && ends_in(t, b) { assert(t.skip(t.len() - a.len()).last() == t.last()); assert(t.skip(t.len() - b.len()).last() == t.last()); }
}
// The two readings of an expression agree where both exist.
pub proof fn lemma_one_reading(e: Expr, n: Names)
    ensures sden(e, n, false) is Some ==> (wden(e, Dimension::Time, n) is Some ==> wden(e, Dimension::Time, n) == sden(e, n, false)) && (wden(e, Dimension::Proof, n) is Some ==> wden(e, Dimension::Proof, n) == Some(0nat))
    decreases e
{
    lemma_methods();
    match e {
        Expr::Paren(x) => lemma_one_reading(*x.expr, n),
        Expr::Cast(x) => lemma_one_reading(*x.expr, n),
        Expr::MethodCall(c) => {
            lemma_one_reading(*c.receiver, n);
            if c.args@.len() == 1 { lemma_one_reading(c.args.items@[0], n); }
            assert(forall|x: nat| #[trigger] (0 * x) == 0);
        }
        Expr::Call(c) => {
            reveal_strlit("::from_ref_time"); reveal_strlit("::from_proof_size"); reveal_strlit("::from_parts"); reveal_strlit("::zero");
            if fun_text(c) is Some { lemma_one_end(fun_text(c)->0, "::zero"@, "::from_proof_size"@); lemma_one_end(fun_text(c)->0, "::zero"@, "::from_parts"@); }
        }
        _ => {}
    }
}
@end
