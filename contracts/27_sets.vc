@ghost vx
// `BTreeSet`/`HashSet`: a finite set, its elements told apart by a key (texts by their characters,
// variable assignments by the map from names to values).
pub trait VKey { type K; spec fn vkey(&self) -> Self::K; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OSet<T: VKey> { v: std::marker::PhantomData<T> }
impl<T: VKey> OSet<T> {
    pub uninterp spec fn view(&self) -> Set<T::K>;
    // The elements in the order in which an iteration yields them.
    pub uninterp spec fn order(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ =~= Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x.vkey()), r == !old(self)@.contains(x.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T::K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len(), r == self@.len() { unimplemented!() }
}
pub open spec fn elems_of<T: VKey>(o: Seq<T>, s: Set<T::K>) -> bool {
    &&& forall|k: T::K| #[trigger] s.contains(k) <==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i].vkey() == k
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).vkey() != (#[trigger] o[j]).vkey()
}
pub broadcast axiom fn axiom_order<T: VKey>(s: OSet<T>)
    ensures elems_of(#[trigger] s.order(), s@)
;
impl<T: VKey> VDefault for OSet<T> {
    open spec fn vd(r: Self) -> bool { r@ =~= Set::<T::K>::empty() }
    fn vdefault() -> (r: Self) { OSet::new() }
}
impl<T: VKey> VInto<OSet<T>> for [T; 1] {
    open spec fn vi(self, r: OSet<T>) -> bool { r@ =~= Set::<T::K>::empty().insert(self@[0].vkey()) }
    #[verifier::external_body]
    fn vinto(self) -> (r: OSet<T>) { unimplemented!() }
}
impl VKey for String { type K = Seq<char>; open spec fn vkey(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn oset_union<'a, T: VKey>(a: &'a OSet<T>, b: &'a OSet<T>) -> (r: Vec<&'a T>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> a@.union(b@).contains((#[trigger] r@[i]).vkey()),
        forall|k: T::K| #[trigger] a@.union(b@).contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).vkey() == k,
{ unimplemented!() }
#[verifier::external_body]
pub fn oset_iter<'a, T: VKey>(a: &'a OSet<T>) -> (r: Vec<&'a T>)
    ensures r@.len() == a.order().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == a.order()[i],
{ unimplemented!() }
#[verifier::external_body]
pub fn oset_items<T: VKey>(a: OSet<T>) -> (r: Vec<T>) ensures r@ == a.order() { unimplemented!() }
pub fn oset_from<T: VKey>(v: Vec<T>) -> (r: OSet<T>)
    ensures
        forall|i: int| 0 <= i < v@.len() ==> r@.contains((#[trigger] v@[i]).vkey()),
        forall|k: T::K| #[trigger] r@.contains(k) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).vkey() == k,
{
    let mut s: OSet<T> = OSet::new();
    oset_extend(&mut s, v);
    s
}
pub fn oset_extend<T: VKey>(s: &mut OSet<T>, v: Vec<T>)
    ensures
        forall|k: T::K| #![trigger final(s)@.contains(k)] old(s)@.contains(k) ==> final(s)@.contains(k),
        forall|i: int| 0 <= i < v@.len() ==> final(s)@.contains((#[trigger] v@[i]).vkey()),
        forall|k: T::K| #[trigger] final(s)@.contains(k) ==> old(s)@.contains(k) || exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).vkey() == k,
{
    let ghost s0 = s@;
    let mut i: usize = 0;
    while i < v.len()
        invariant
            i <= v@.len(),
            forall|k: T::K| #![trigger s@.contains(k)] s0.contains(k) ==> s@.contains(k),
            forall|j: int| 0 <= j < i ==> s@.contains((#[trigger] v@[j]).vkey()),
            forall|k: T::K| #[trigger] s@.contains(k) ==> s0.contains(k) || exists|j: int| 0 <= j < i && (#[trigger] v@[j]).vkey() == k,
        decreases v@.len() - i,
    {
        let ghost s1 = s@;
        let x = crate::vx::item(&v, i);
        s.insert(x);
        proof {
            assert forall|k: T::K| #[trigger] s@.contains(k) implies s0.contains(k) || exists|j: int| 0 <= j < i + 1 && (#[trigger] v@[j]).vkey() == k by {
                if k == x.vkey() { assert(v@[i as int].vkey() == k); } else { assert(s1.contains(k)); }
            }
        }
        i += 1;
    }
}
pub fn btreeset_from<T: VKey>(v: Vec<T>) -> (r: OSet<T>)
    ensures
        forall|i: int| 0 <= i < v@.len() ==> r@.contains((#[trigger] v@[i]).vkey()),
        forall|k: T::K| #[trigger] r@.contains(k) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).vkey() == k,
{ oset_from(v) }
pub fn hashset_from<T: VKey>(v: Vec<T>) -> (r: OSet<T>)
    ensures
        forall|i: int| 0 <= i < v@.len() ==> r@.contains((#[trigger] v@[i]).vkey()),
        forall|k: T::K| #[trigger] r@.contains(k) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).vkey() == k,
{ oset_from(v) }
// An ordered set is iterated in ascending order; texts compare character by character.
pub trait VOrd: VKey { spec fn vlt(a: Self::K, b: Self::K) -> bool; }
pub open spec fn lex_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases b.len()
{
    b.len() > 0 && (a.len() == 0 || a[0] < b[0] || a[0] == b[0] && lex_lt(a.skip(1), b.skip(1)))
}
impl VOrd for String { open spec fn vlt(a: Seq<char>, b: Seq<char>) -> bool { lex_lt(a, b) } }
impl VKey for (String, String) { type K = (Seq<char>, Seq<char>); open spec fn vkey(&self) -> (Seq<char>, Seq<char>) { (self.0@, self.1@) } }
impl VOrd for (String, String) { open spec fn vlt(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool { lex_lt(a.0, b.0) || a.0 == b.0 && lex_lt(a.1, b.1) } }
pub open spec fn ascending<T: VOrd>(o: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> T::vlt((#[trigger] o[i]).vkey(), (#[trigger] o[j]).vkey()) }
#[verifier::external_body]
pub fn bset_items<T: VOrd>(a: OSet<T>) -> (r: Vec<T>) ensures r@ == a.order(), ascending(r@) { unimplemented!() }
#[verifier::external_body]
pub fn bset_iter<'a, T: VOrd>(a: &'a OSet<T>) -> (r: Vec<&'a T>)
    ensures r@.len() == a.order().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == a.order()[i], ascending(a.order()),
{ unimplemented!() }
@end
@ghost vx
pub fn vec_cloned<T>(v: Vec<&T>) -> (r: Vec<T>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> r@[i] == *v@[i] {
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|j: int| #![trigger r@[j]] #![trigger v@[j]] 0 <= j < i ==> r@[j] == *v@[j],
        decreases v@.len() - i,
    { r.push(crate::vx::clone(v[i])); i += 1; }
    r
}
@end
@type BTreeSet<T> => crate::vx::OSet<T>
@type HashSet<T> => crate::vx::OSet<T>
@type HashMap<String,T> => crate::vx::BMap<T>
@call BTreeSet::union => crate::vx::oset_union
@call HashSet::union => crate::vx::oset_union
@call BTreeSet::iter => crate::vx::bset_iter
@call HashSet::iter => crate::vx::oset_iter
@call BTreeSet::new => crate::vx::OSet::new
@call HashSet::new => crate::vx::OSet::new
@call source[&BTreeSet] => crate::vx::bset_iter
@call source[BTreeSet] => crate::vx::bset_items
@call source[HashSet] => crate::vx::oset_items
@type Set<T> => crate::vx::OSet<T>
@ghost sp
// The variables of an equation that the assignment leaves open.
pub open spec fn fv(t: Term<u128>, c: Ctx) -> Set<Seq<char>>
    decreases t
{
    match t {
        Term::Var(v) => if c.contains_key(v.0@) { Set::empty() } else { Set::empty().insert(v.0@) },
        Term::Add(l, r) => fv(*l, c).union(fv(*r, c)),
        Term::Mul(l, r) => fv(*l, c).union(fv(*r, c)),
        _ => Set::empty(),
    }
}
@end
@fn term::Term<T>::free_vars
@ensures
        r@ =~= fv(*self, scope.vars@),
@end
@type HashMap<ComponentName,T> => crate::vx::BMap<T>
@call source[&HashSet] => crate::vx::oset_iter
