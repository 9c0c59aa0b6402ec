@ghost vx when Expr
// Mirrors of the `syn` types: the variants of the library, with the fields this program looks at.
pub struct Punctuated<T> { pub items: Vec<T>, pub trailing: bool }
impl<T> Punctuated<T> {
    pub open spec fn view(&self) -> Seq<T> { self.items@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.items.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.items.len() == 0 }
    // empty, or ending in a comma
    pub fn empty_or_trailing(&self) -> (r: bool) ensures r == (self@.len() == 0 || self.trailing) { self.items.len() == 0 || self.trailing }
    pub fn first(&self) -> (r: Option<&T>) ensures (r is Some) == (self@.len() > 0), r is Some ==> *r->0 == self@[0] { if self.items.len() == 0 { None } else { Some(&self.items[0]) } }
    pub fn last(&self) -> (r: Option<&T>) ensures (r is Some) == (self@.len() > 0), r is Some ==> *r->0 == self@.last() { if self.items.len() == 0 { None } else { Some(&self.items[self.items.len() - 1]) } }
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { &self.items[i] }
    pub fn iter(&self) -> (r: Vec<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self@[i] { crate::vx::vec_refs(&self.items) }
}
#[verifier::external_body]
pub struct Ident { v: () }
impl Ident { pub uninterp spec fn view(&self) -> Seq<char>; }
impl VDisplay for Ident { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn ident_is(a: &Ident, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub struct Tokens { v: () }
pub struct PathSegment { pub ident: Ident }
pub struct SynPath { pub leading_colon: Option<()>, pub segments: Punctuated<PathSegment> }
pub enum Lit { Str(Tokens), ByteStr(Tokens), CStr(Tokens), Byte(Tokens), Char(Tokens), Int(LitInt), Float(Tokens), Bool(Tokens), Verbatim(Tokens) }
// The value of an integer literal in decimal digits.
#[verifier::external_body]
pub struct LitInt { v: () }
impl LitInt {
    pub uninterp spec fn digits(&self) -> Seq<char>;
    #[verifier::external_body]
    pub broadcast proof fn axiom_digits(self) ensures #![trigger self.digits()] number(self.digits()) is Some && unsigned(self.digits()) == self.digits() { }
    #[verifier::external_body]
    pub fn base10_digits(&self) -> (r: &str) ensures r@ == self.digits() { unimplemented!() }
    pub fn base10_parse<T: VParse>(&self) -> (r: Result<T, ParseIntError>)
        ensures match r { Ok(v) => number(unsigned(self.digits())) == Some(v.wide()), Err(_) => number(unsigned(self.digits())) is None || number(unsigned(self.digits()))->0 > T::top() }
    { str_parse::<T>(self.base10_digits()) }
}
pub struct ExprBinary { pub left: Box<Expr>, pub op: BinOp, pub right: Box<Expr> }
pub struct ExprCall { pub func: Box<Expr>, pub args: Punctuated<Expr> }
pub struct ExprCast { pub expr: Box<Expr>, pub ty: Box<Type> }
pub struct ExprGroup { pub expr: Box<Expr> }
pub struct ExprLit { pub lit: Lit }
pub struct ExprMethodCall { pub receiver: Box<Expr>, pub method: Ident, pub args: Punctuated<Expr> }
pub struct ExprParen { pub expr: Box<Expr> }
pub struct ExprPath { pub path: SynPath }
pub struct ExprReference { pub expr: Box<Expr> }
pub enum Member { Named(Ident), Unnamed(Tokens) }
pub struct FieldValue { pub member: Member, pub expr: Expr }
pub struct ExprStruct { pub path: SynPath, pub fields: Punctuated<FieldValue> }
pub struct ExprTuple { pub elems: Punctuated<Expr> }
pub struct ExprUnary { pub expr: Box<Expr> }
pub enum BinOp { Add(Tokens), Sub(Tokens), Mul(Tokens), Div(Tokens), Rem(Tokens), And(Tokens), Or(Tokens), BitXor(Tokens), BitAnd(Tokens), BitOr(Tokens), Shl(Tokens), Shr(Tokens), Eq(Tokens), Lt(Tokens), Le(Tokens), Ne(Tokens), Ge(Tokens), Gt(Tokens), AddAssign(Tokens), SubAssign(Tokens), MulAssign(Tokens), DivAssign(Tokens), RemAssign(Tokens), BitXorAssign(Tokens), BitAndAssign(Tokens), BitOrAssign(Tokens), ShlAssign(Tokens), ShrAssign(Tokens) }
pub enum Expr {
    Array(Tokens), Assign(Tokens), Async(Tokens), Await(Tokens), Binary(ExprBinary), Block(Tokens), Break(Tokens), Call(ExprCall), Cast(ExprCast), Closure(Tokens), Const(Tokens), Continue(Tokens), Field(Tokens), ForLoop(Tokens), Group(ExprGroup), If(Tokens), Index(Tokens), Infer(Tokens), Let(Tokens), Lit(ExprLit), Loop(Tokens), Macro(Tokens), Match(Tokens), MethodCall(ExprMethodCall), Paren(ExprParen), Path(ExprPath), Range(Tokens), Reference(ExprReference), Repeat(Tokens), Return(Tokens), Struct(ExprStruct), Try(Tokens), TryBlock(Tokens), Tuple(ExprTuple), Unary(ExprUnary), Unsafe(Tokens), Verbatim(Tokens), While(Tokens), Yield(Tokens),
}
pub struct TypePath { pub path: SynPath }
pub struct TypeTuple { pub elems: Punctuated<Type> }
pub enum Type { Array(Tokens), BareFn(Tokens), Group(Tokens), ImplTrait(Tokens), Infer(Tokens), Macro(Tokens), Never(Tokens), Paren(Tokens), Path(TypePath), Ptr(Tokens), Reference(Tokens), Slice(Tokens), TraitObject(Tokens), Tuple(TypeTuple), Verbatim(Tokens) }
@end
@ghost vx when str_parse
#[verifier::external_body]
pub struct ParseIntError { v: () }
pub trait VParse: Sized { spec fn wide(self) -> nat; spec fn top() -> nat; }
impl VParse for u128 { open spec fn wide(self) -> nat { self as nat } open spec fn top() -> nat { u128::MAX as nat } }
impl VParse for u64 { open spec fn wide(self) -> nat { self as nat } open spec fn top() -> nat { u64::MAX as nat } }
impl VParse for u32 { open spec fn wide(self) -> nat { self as nat } open spec fn top() -> nat { u32::MAX as nat } }
impl VParse for usize { open spec fn wide(self) -> nat { self as nat } open spec fn top() -> nat { usize::MAX as nat } }
// Decimal digits, with an optional plus sign in front.
#[verifier::external_body]
pub fn str_parse<T: VParse>(s: &str) -> (r: Result<T, ParseIntError>)
    ensures match r { Ok(v) => number(unsigned(s@)) == Some(v.wide()), Err(_) => number(unsigned(s@)) is None || number(unsigned(s@))->0 > T::top() }
{ unimplemented!() }
@end
@call str::parse => crate::vx::str_parse
@ghost vx when punct_at
pub fn punct_at<T>(p: &Punctuated<T>, i: usize) -> (r: &T) requires i < p@.len() ensures *r == p@[i as int] { &p.items[i] }
@end
@ghost vx
impl VDefault for &str {
    open spec fn vd(r: Self) -> bool { r@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() }
}
@end
@call Index::index[Punctuated] => crate::vx::punct_at
@type syn::Path => crate::vx::SynPath
@type syn::Type => crate::vx::Type
@type Punctuated<T,P> => crate::vx::Punctuated<T>
@type syn::Member => crate::vx::Member
@ghost sp
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s } }
// The number a text of decimal digits denotes.
pub open spec fn number(s: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if !is_digit(s.last()) { None }
    else if s.len() == 1 { Some((s.last() as int - '0' as int) as nat) }
    else { match number(s.drop_last()) { Some(n) => Some((10 * n + (s.last() as int - '0' as int)) as nat), None => None } }
}
pub open spec fn texts<T: VText>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].text()) }
// The texts with a separator between them.
pub open spec fn join(s: Seq<Seq<char>>, d: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join(s.drop_last(), d) + d + s.last() }
}
@end
@ghost sp when SynPath
pub open spec fn idents(p: SynPath) -> Seq<Seq<char>> { Seq::new(p.segments@.len(), |i: int| p.segments@[i].ident@) }
pub open spec fn path_text(p: SynPath, d: Seq<char>) -> Seq<char> { join(idents(p), d) }
@end
@ghost vx
pub trait VText { spec fn text(&self) -> Seq<char>; }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl VText for &str { open spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vec_join<T: VText>(v: &Vec<T>, d: &str) -> (r: String) ensures r@ == join(texts(v@), d@) { unimplemented!() }
@end
@call slice::join => crate::vx::vec_join
@fn parse::path_to_string
@ensures
        r@ == path_text(*p, match delimiter { Some(d) => d@, None => Seq::<char>::empty() }),
@loop 0 inv
            invariant
                texts($acc@) =~= idents(*p).take($i as int),
@loop 0 after
        proof { assert(texts($acc@) =~= idents(*p)); }
@end
