# Contracts assumed for the standard library (functions without a body) and helper lemmas.
# Every `external_body`/`uninterp` below is part of the trusted base and is listed in the evidence.

@ghost vx always
pub broadcast proof fn bits_of_zero(x: u128, y: u128)
    ensures
        x == 0 ==> #[trigger] (x | y) == y,
        y == 0 ==> x | y == x,
{
    assert(x == 0 ==> x | y == y) by (bit_vector);
    assert(y == 0 ==> x | y == x) by (bit_vector);
}
pub trait VInto<T>: Sized {
    spec fn vi(self, r: T) -> bool;
    fn vinto(self) -> (r: T) ensures self.vi(r);
}
impl<T> VInto<T> for T {
    open spec fn vi(self, r: T) -> bool { r == self }
    fn vinto(self) -> (r: T) { self }
}
impl<T> VInto<Box<T>> for T {
    open spec fn vi(self, r: Box<T>) -> bool { *r == self }
    fn vinto(self) -> (r: Box<T>) { Box::new(self) }
}
impl VInto<String> for &str {
    open spec fn vi(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { unimplemented!() }
}
impl VInto<String> for &String {
    open spec fn vi(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { unimplemented!() }
}
impl VInto<u128> for u32 {
    open spec fn vi(self, r: u128) -> bool { r == self }
    fn vinto(self) -> (r: u128) { self as u128 }
}
impl VInto<u64> for u32 {
    open spec fn vi(self, r: u64) -> bool { r == self }
    fn vinto(self) -> (r: u64) { self as u64 }
}
impl VInto<u128> for u64 {
    open spec fn vi(self, r: u128) -> bool { r == self }
    fn vinto(self) -> (r: u128) { self as u128 }
}
impl VInto<i128> for u32 {
    open spec fn vi(self, r: i128) -> bool { r == self }
    fn vinto(self) -> (r: i128) { self as i128 }
}
impl VInto<i128> for u64 {
    open spec fn vi(self, r: i128) -> bool { r == self }
    fn vinto(self) -> (r: i128) { self as i128 }
}
pub trait VDefault: Sized {
    spec fn vd(r: Self) -> bool;
    fn vdefault() -> (r: Self) ensures Self::vd(r);
}
impl VDefault for u128 {
    open spec fn vd(r: Self) -> bool { r == 0 }
    fn vdefault() -> (r: Self) { 0 }
}
impl VDefault for u32 {
    open spec fn vd(r: Self) -> bool { r == 0 }
    fn vdefault() -> (r: Self) { 0 }
}
impl VDefault for usize {
    open spec fn vd(r: Self) -> bool { r == 0 }
    fn vdefault() -> (r: Self) { 0 }
}
impl VDefault for bool {
    open spec fn vd(r: Self) -> bool { r == false }
    fn vdefault() -> (r: Self) { false }
}
impl VDefault for String {
    open spec fn vd(r: Self) -> bool { r@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() }
}
impl<T> VDefault for Option<T> {
    open spec fn vd(r: Self) -> bool { r is None }
    fn vdefault() -> (r: Self) { None }
}
impl<T> VDefault for Vec<T> {
    open spec fn vd(r: Self) -> bool { r@ == Seq::<T>::empty() }
    fn vdefault() -> (r: Self) { Vec::new() }
}
@end

@ghost vx
// A string with unspecified contents: error texts and log messages.
#[verifier::external_body]
pub fn any_string() -> String { unimplemented!() }
@end
@ghost vx
// `Clone` of derived and standard types returns an equal value.
#[verifier::external_body]
pub fn clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
@end
@ghost vx
// Derived/standard `==` on types whose equality is structural.
#[verifier::external_body]
pub fn eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
@end
@ghost vx
// A reachable call of this function is a reachable panic.
#[verifier::external_body]
pub fn never<T>() -> (r: T) requires false { unimplemented!() }
@end
@ghost vx
pub fn must(b: bool) requires b { }
@end
@ghost vx
// The item an iterator by value yields at position `i`.
#[verifier::external_body]
pub fn item<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
@end
@ghost vx
pub fn vec_refs<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *#[trigger] r@[i] == v@[i]
{
    let mut r: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> *#[trigger] r@[j] == v@[j],
        decreases v@.len() - i,
    { r.push(&v[i]); i += 1; }
    r
}
@end
@ghost vx
pub fn vec_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
@end
@ghost vx
pub fn vec_chain<T>(v: Vec<T>, w: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ + w@ { let mut v = v; let mut w = w; v.append(&mut w); v }
@end
@ghost vx
pub fn option_cloned<T>(x: Option<&T>) -> (r: Option<T>) ensures x is Some <==> r is Some, x is Some ==> r->0 == *x->0 {
    match x { Some(v) => Some(crate::vx::clone(v)), None => None }
}
@end
@ghost vx
pub fn vec_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { let mut r = Vec::new(); r.append(v); r }
@end
@ghost vx
pub fn mem_take<T: VDefault>(v: &mut T) -> (r: T) ensures r == *old(v), T::vd(*final(v)) { let mut d = T::vdefault(); std::mem::swap(v, &mut d); d }
@end
@call mem::take => crate::vx::mem_take
@call Option::cloned => crate::vx::option_cloned
@call Option::copied => crate::vx::option_cloned

@ghost vx when BMap
// `BTreeMap<String, V>`: a finite map from texts to values.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct BMap<V> { v: std::marker::PhantomData<V> }
impl<V> BMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(x) => self@.contains_key(k@) && *x == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::empty()) { unimplemented!() }
}
impl<V> VDefault for BMap<V> {
    open spec fn vd(r: Self) -> bool { r@ =~= Map::empty() }
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() }
}
@end
@type Map<String,T> => crate::vx::BMap<T>
@type BTreeMap<String,T> => crate::vx::BMap<T>

@ghost vx always
// Derived order of an enum without data: the order of declaration.
pub trait DeclOrd { spec fn drank(&self) -> int; }
@end
@ghost vx
pub fn vec_contains<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x,
        decreases v@.len() - i,
    { if crate::vx::eq(&v[i], x) { return true; } i += 1; }
    false
}
@end
@call Vec::contains => crate::vx::vec_contains
@call slice::contains => crate::vx::vec_contains

@ghost vx
pub open spec fn ord_int(a: int, b: int) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
@end
@ghost vx
#[verifier::external_body]
pub fn decl_cmp<T: DeclOrd>(a: &T, b: &T) -> (r: std::cmp::Ordering) ensures r == ord_int(a.drank(), b.drank()) { unimplemented!() }
@end
@call Ord::cmp[RelativeChange] => crate::vx::decl_cmp
@ghost vx
pub fn i128_cmp(a: &i128, b: &i128) -> (r: std::cmp::Ordering) ensures r == ord_int(*a as int, *b as int)
{ if *a < *b { std::cmp::Ordering::Less } else if *a == *b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
@end
@call Ord::cmp[i128] => crate::vx::i128_cmp
@stduse std::cmp::Ordering

@ghost vx
// Decimal digits of a number; the text `{:spec}` produces for a float.
pub uninterp spec fn dec(x: int) -> Seq<char>;
pub uninterp spec fn fshow(x: f64, sp: Seq<char>) -> Seq<char>;
pub uninterp spec fn ishow(x: int, sp: Seq<char>) -> Seq<char>;
pub trait VDisplay { spec fn shown(&self) -> Seq<char>; fn vdisplay(&self) -> (r: String) ensures r@ == self.shown(); }
impl VDisplay for u128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for i32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for i128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for char { open spec fn shown(&self) -> Seq<char> { Seq::<char>::empty().push(*self) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl VDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
impl<T: VDisplay + ?Sized> VDisplay for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn vdisplay(&self) -> (r: String) { (**self).vdisplay() } }
@end
@call ToString::to_string => crate::vx::VDisplay::vdisplay
@ghost vx
// Formatting with a precision: a number without a fraction ignores it.
pub trait VFmt { spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char>; }
impl VFmt for f64 { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { fshow(*self, sp) } }
impl VFmt for u128 { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { if sp == ".2"@ { dec(*self as int) } else { ishow(*self as int, sp) } } }
#[verifier::external_body]
pub fn fmt_spec<T: VFmt>(x: &T, sp: &str) -> (r: String) ensures r@ == x.fmt_as(sp@) { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn str_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn concat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
@end

@ghost vx
pub fn vec_zip<T, U>(v: Vec<T>, w: Vec<U>) -> (r: Vec<(T, U)>)
    ensures r@.len() == if v@.len() <= w@.len() { v@.len() } else { w@.len() }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (v@[i], w@[i])
{
    let mut r: Vec<(T, U)> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() && i < w.len()
        invariant i <= v@.len(), i <= w@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == (v@[j], w@[j]),
        decreases v@.len() - i,
    { r.push((crate::vx::item(&v, i), crate::vx::item(&w, i))); i += 1; }
    r
}
@end

@ghost vx when collect_results
// All values, or the first error.
pub fn collect_results<T, E>(v: Vec<Result<T, E>>) -> (r: Result<Vec<T>, E>)
    ensures match r {
        Ok(w) => w@.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == Ok::<T, E>(w@[k]),
        Err(e) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == Err::<T, E>(e),
    }
{
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == Ok::<T, E>(r@[k]),
        decreases v@.len() - i,
    {
        match crate::vx::item(&v, i) { Ok(x) => { r.push(x); } Err(e) => { assert(v@[i as int] == Err::<T, E>(e)); return Err(e); } }
        i += 1;
    }
    Ok(r)
}
@end
@ghost vx when result_unwrap_or
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> (v: T) ensures v == (match r { Ok(x) => x, Err(_) => d }) { match r { Ok(x) => x, Err(_) => d } }
@end
@call Result::unwrap_or => crate::vx::result_unwrap_or
