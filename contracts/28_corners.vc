@ghost vx when OSet Scope
impl VKey for crate::scope::Scope<Term<u128>> { type K = Map<Seq<char>, Term<u128>>; open spec fn vkey(&self) -> Map<Seq<char>, Term<u128>> { self.vars@ } }
// The derived order of assignments.
pub uninterp spec fn scope_lt(a: Map<Seq<char>, Term<u128>>, b: Map<Seq<char>, Term<u128>>) -> bool;
impl VOrd for crate::scope::Scope<Term<u128>> { open spec fn vlt(a: Map<Seq<char>, Term<u128>>, b: Map<Seq<char>, Term<u128>>) -> bool { scope_lt(a, b) } }
@end
@ghost vx
#[verifier::external_body]
pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { b } else { a } { unimplemented!() }
@end
@ghost vx
#[verifier::external_body]
pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == if b < a { b } else { a } { unimplemented!() }
@end
@call Ord::max[u32] => crate::vx::max_u32
@call Ord::min[u32] => crate::vx::min_u32
@ghost sp
pub type Ranges = Map<Seq<char>, ComponentRange>;
// The range that a version declares for a component; ranges are keyed without underscores.
pub open spec fn range_for(m: Ranges, c: Seq<char>) -> Option<ComponentRange> {
    if m.contains_key(c) { Some(m[c]) } else if m.contains_key(without(c, '_')) { Some(m[without(c, '_')]) } else { None }
}
pub open spec fn declared(e: Option<&SimpleExtrinsic>, c: Seq<char>) -> Option<ComponentRange> {
    match e { Some(e) => match e.comp_ranges { Some(m) => range_for(m@, c), None => None }, None => None }
}
pub open spec fn declared_in(m: Option<crate::vx::BMap<ComponentRange>>, c: Seq<char>) -> Option<ComponentRange> {
    match m { Some(m) => range_for(m@, c), None => None }
}
pub open spec fn bound(r: ComponentRange, max: bool) -> u32 { if max { r.max } else { r.min } }
// The extreme value of a component over both versions; None is an error.
pub open spec fn extreme(x: Option<ComponentRange>, y: Option<ComponentRange>, exact: bool, max: bool) -> Option<u32> {
    match (x, y) {
        (None, None) => if exact { None } else if max { Some(100u32) } else { Some(0u32) },
        (Some(r), None) => Some(bound(r, max)),
        (None, Some(r)) => Some(bound(r, max)),
        (Some(r), Some(s)) => if r == s { Some(bound(r, max)) } else if exact { None } else if max { Some(if r.max < s.max { s.max } else { r.max }) } else { Some(if s.min < r.min { s.min } else { r.min }) },
    }
}
// What each method prescribes: exactness, and whether the first and the second value is the maximum.
pub open spec fn exacting(m: CompareMethod) -> bool { m is ExactWorst || m is ExactAsymptotic }
pub open spec fn first_max(m: CompareMethod) -> bool { m is ExactAsymptotic || m is Asymptotic }
pub open spec fn second_max(m: CompareMethod) -> bool { !(m is Base) }
pub open spec fn value_at(a: Option<&SimpleExtrinsic>, b: Option<&SimpleExtrinsic>, m: CompareMethod, second: bool, c: Seq<char>) -> Option<u32> {
    extreme(declared(a, c), declared(b, c), exacting(m), if second { second_max(m) } else { first_max(m) })
}
pub open spec fn open_in(e: Option<&SimpleExtrinsic>, base: Ctx) -> Set<Seq<char>> { match e { Some(e) => fv(e.term, base), None => Set::empty() } }
// The components of a comparison.
pub open spec fn comps(a: Option<&SimpleExtrinsic>, b: Option<&SimpleExtrinsic>, base: Ctx) -> Set<Seq<char>> { open_in(a, base).union(open_in(b, base)) }
pub open spec fn one_of(t: Term<u128>, x: Option<u32>, y: Option<u32>) -> bool {
    x is Some && t == Term::<u128>::Scalar(x->0 as u128) || y is Some && t == Term::<u128>::Scalar(y->0 as u128)
}
// A corner: every component set to one of its two values, everything else as in the base assignment.
pub open spec fn corner(a: Option<&SimpleExtrinsic>, b: Option<&SimpleExtrinsic>, m: CompareMethod, base: Ctx, v: Ctx) -> bool {
    let f = comps(a, b, base);
    &&& v.dom() =~= base.dom().union(f)
    &&& forall|c: Seq<char>| #[trigger] f.contains(c) ==> one_of(v[c], value_at(a, b, m, false, c), value_at(a, b, m, true, c))
    &&& forall|c: Seq<char>| #[trigger] base.contains_key(c) && !f.contains(c) ==> v[c] == base[c]
}
pub open spec fn among(s: Seq<SimpleScope>, v: Ctx) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vars@ == v }
pub open spec fn undefined_value(a: Option<&SimpleExtrinsic>, b: Option<&SimpleExtrinsic>, m: CompareMethod, base: Ctx) -> bool {
    exists|c: Seq<char>| #[trigger] comps(a, b, base).contains(c) && (value_at(a, b, m, false, c) is None || value_at(a, b, m, true, c) is None)
}

// The assignment with number `i`: bit `j` of `i` selects the second value of component `j`.
pub open spec fn built(base: Ctx, o: Seq<String>, lo: Seq<u32>, hi: Seq<u32>, i: i32, n: int) -> Ctx
    decreases n
{
    if n <= 0 { base } else { built(base, o, lo, hi, i, n - 1).insert(o[n - 1]@, Term::Scalar(if bit_off(i, n - 1) { lo[n - 1] as u128 } else { hi[n - 1] as u128 })) }
}
pub open spec fn bit_off(i: i32, j: int) -> bool { i & (1i32 << (j as usize)) == 0 }
// Other ways to ask for bit `j`.
pub broadcast proof fn bit_by_shift(i: i32, j: usize)
    requires j < 31
    ensures
        #![trigger i >> j]
        ((i >> j) & 1) == 1 <==> i & (1i32 << j) != 0,
        ((i >> j) & 1) == 0 <==> i & (1i32 << j) == 0,
        i >= 0 ==> (((i >> j) % 2 == 1) <==> i & (1i32 << j) != 0) && (((i >> j) % 2 == 0) <==> i & (1i32 << j) == 0),
{
    assert(j < 31 ==> (((i >> j) & 1) == 1 <==> i & (1i32 << j) != 0)) by (bit_vector);
    assert(j < 31 ==> (((i >> j) & 1) == 0 <==> i & (1i32 << j) == 0)) by (bit_vector);
    assert(j < 31 && i >= 0 ==> (((i >> j) % 2 == 1) <==> i & (1i32 << j) != 0)) by (bit_vector);
    assert(j < 31 && i >= 0 ==> (((i >> j) % 2 == 0) <==> i & (1i32 << j) == 0)) by (bit_vector);
}
pub broadcast proof fn bit_in_u32(i: u32, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures #![trigger i & (1u32 << j)] i & (1u32 << j) == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (i & (1u32 << j) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
}
pub broadcast proof fn power_in_u32(j: usize)
    requires j <= 16
    ensures #![trigger 1u32 << j] (1u32 << j) == (1i32 << j), 0 < (1u32 << j) <= 0x1_0000,
{
    assert(j <= 16 ==> (1u32 << j) == (1i32 << j) as u32 && 0 < (1i32 << j) <= 0x1_0000i32 && 0 < (1u32 << j) <= 0x1_0000) by (bit_vector);
}
pub broadcast proof fn bit_in_u64(i: u64, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures #![trigger i & (1u64 << j)] i & (1u64 << j) == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (i & (1u64 << j) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
}
pub broadcast proof fn power_in_u64(j: usize)
    requires j <= 16
    ensures #![trigger 1u64 << j] (1u64 << j) == (1i32 << j), 0 < (1u64 << j) <= 0x1_0000,
{
    assert(j <= 16 ==> (1u64 << j) == (1i32 << j) as u64 && 0 < (1i32 << j) <= 0x1_0000i32 && 0 < (1u64 << j) <= 0x1_0000) by (bit_vector);
}
pub broadcast proof fn bit_in_usize(i: usize, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures #![trigger i & (1usize << j)] i & (1usize << j) == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (i & (1usize << j) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
}
pub broadcast proof fn power_in_usize(j: usize)
    requires j <= 16
    ensures #![trigger 1usize << j] (1usize << j) == (1i32 << j), 0 < (1usize << j) <= 0x1_0000,
{
    assert(j <= 16 ==> (1usize << j) == (1i32 << j) as usize && 0 < (1i32 << j) <= 0x1_0000i32 && 0 < (1usize << j) <= 0x1_0000) by (bit_vector);
}
pub broadcast proof fn bit_by_shift_in_u32(i: u32, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures
        #![trigger i >> j]
        ((i >> j) & 1) == 1 <==> !bit_off(i as i32, j as int),
        ((i >> j) & 1) == 0 <==> bit_off(i as i32, j as int),
        (i >> j) % 2 == 1 <==> !bit_off(i as i32, j as int),
        (i >> j) % 2 == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 1 <==> k & (1i32 << j) != 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 ==> (i >> j) % 2 == ((i >> j) & 1)) by (bit_vector);
}
pub broadcast proof fn bit_by_shift_in_u64(i: u64, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures
        #![trigger i >> j]
        ((i >> j) & 1) == 1 <==> !bit_off(i as i32, j as int),
        ((i >> j) & 1) == 0 <==> bit_off(i as i32, j as int),
        (i >> j) % 2 == 1 <==> !bit_off(i as i32, j as int),
        (i >> j) % 2 == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 1 <==> k & (1i32 << j) != 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 ==> (i >> j) % 2 == ((i >> j) & 1)) by (bit_vector);
}
pub broadcast proof fn bit_by_shift_in_usize(i: usize, j: usize)
    requires j < 16, i <= 0x1_0000
    ensures
        #![trigger i >> j]
        ((i >> j) & 1) == 1 <==> !bit_off(i as i32, j as int),
        ((i >> j) & 1) == 0 <==> bit_off(i as i32, j as int),
        (i >> j) % 2 == 1 <==> !bit_off(i as i32, j as int),
        (i >> j) % 2 == 0 <==> bit_off(i as i32, j as int),
{
    let k = i as i32;
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 0 <==> k & (1i32 << j) == 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 && k == i as i32 ==> (((i >> j) & 1) == 1 <==> k & (1i32 << j) != 0)) by (bit_vector);
    assert(i <= 0x1_0000 && j < 16 ==> (i >> j) % 2 == ((i >> j) & 1)) by (bit_vector);
}
pub proof fn lemma_bits(n: usize, f: spec_fn(int) -> bool) -> (k: i32)
    requires n <= 16
    ensures 0 <= k < (1i32 << n), forall|j: int| 0 <= j < n ==> (#[trigger] bit_off(k, j) <==> !f(j))
    decreases n
{
    if n == 0 {
        assert(1i32 << 0usize == 1) by (bit_vector);
        0
    } else {
        let m = (n - 1) as usize;
        let p = lemma_bits(m, f);
        assert(0 <= p < (1i32 << m) && m < 16 && n == m + 1 ==> 0 <= p < (1i32 << n) && 0 <= (p | (1i32 << m)) && (p | (1i32 << m)) < (1i32 << n)) by (bit_vector);
        assert(0 <= p < (1i32 << m) && m < 16 ==> (p & (1i32 << m)) == 0 && ((p | (1i32 << m)) & (1i32 << m)) != 0) by (bit_vector);
        assert forall|j: int| 0 <= j < m implies #[trigger] bit_off(p | (1i32 << m), j) == bit_off(p, j) by {
            let j = j as usize;
            assert(j < m && m < 16 ==> ((p | (1i32 << m)) & (1i32 << j)) == (p & (1i32 << j))) by (bit_vector);
        }
        if f(m as int) { p | (1i32 << m) } else { p }
    }
}
pub open spec fn distinct(o: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i])@ != (#[trigger] o[j])@ }
pub open spec fn in_first(o: Seq<String>, n: int, c: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] o[j])@ == c }
pub proof fn lemma_built(base: Ctx, o: Seq<String>, lo: Seq<u32>, hi: Seq<u32>, i: i32, n: int)
    requires 0 <= n <= o.len(), distinct(o)
    ensures
        forall|c: Seq<char>| #[trigger] built(base, o, lo, hi, i, n).contains_key(c) <==> base.contains_key(c) || in_first(o, n, c),
        forall|j: int| 0 <= j < n ==> built(base, o, lo, hi, i, n)[(#[trigger] o[j])@] == Term::<u128>::Scalar(if bit_off(i, j) { lo[j] as u128 } else { hi[j] as u128 }),
        forall|c: Seq<char>| !in_first(o, n, c) ==> #[trigger] built(base, o, lo, hi, i, n)[c] == base[c],
    decreases n
{
    if n > 0 {
        lemma_built(base, o, lo, hi, i, n - 1);
        assert forall|c: Seq<char>| #[trigger] in_first(o, n, c) <==> in_first(o, n - 1, c) || c == o[n - 1]@ by {
            if in_first(o, n - 1, c) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] o[j])@ == c; assert(o[j]@ == c); }
            if c == o[n - 1]@ { assert(in_first(o, n, c)); }
            if in_first(o, n, c) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j])@ == c; if j < n - 1 { assert(in_first(o, n - 1, c)); } }
        }
    }
}
// `v` is one of the numbered assignments exactly if it is a corner.
pub proof fn lemma_corner(a: Option<&SimpleExtrinsic>, b: Option<&SimpleExtrinsic>, m: CompareMethod, base: Ctx, o: Seq<String>, lo: Seq<u32>, hi: Seq<u32>, n: usize, v: Ctx)
    requires
        n == o.len() == lo.len() == hi.len(), n <= 16, distinct(o),
        forall|c: Seq<char>| comps(a, b, base).contains(c) <==> #[trigger] in_first(o, n as int, c),
        forall|j: int| 0 <= j < n ==> value_at(a, b, m, false, (#[trigger] o[j])@) == Some(lo[j]) && value_at(a, b, m, true, o[j]@) == Some(hi[j]),
    ensures
        corner(a, b, m, base, v) <==> exists|k: i32| 0 <= k < (1i32 << n) && v == #[trigger] built(base, o, lo, hi, k, n as int),
{
    if corner(a, b, m, base, v) {
        let f = |j: int| v[o[j]@] != Term::<u128>::Scalar(lo[j] as u128);
        let k = lemma_bits(n, f);
        lemma_built(base, o, lo, hi, k, n as int);
        let w = built(base, o, lo, hi, k, n as int);
        assert forall|c: Seq<char>| #[trigger] w.contains_key(c) <==> v.contains_key(c) by { assert(comps(a, b, base).contains(c) <==> in_first(o, n as int, c)); assert(v.dom().contains(c) <==> base.dom().union(comps(a, b, base)).contains(c)); }
        assert forall|c: Seq<char>| #[trigger] w.contains_key(c) implies w[c] == v[c] by {
            assert(comps(a, b, base).contains(c) <==> in_first(o, n as int, c));
            if in_first(o, n as int, c) {
                let j = choose|j: int| 0 <= j < n && (#[trigger] o[j])@ == c;
                assert(o[j]@ == c);
                assert(one_of(v[c], value_at(a, b, m, false, c), value_at(a, b, m, true, c)));
                assert(bit_off(k, j) <==> !f(j));
            }
        }
        assert(v.dom() =~= w.dom());
        assert(forall|c: Seq<char>| #[trigger] v.contains_key(c) ==> v[c] == w[c]);
        assert(v =~= w);
    }
    if exists|k: i32| 0 <= k < (1i32 << n) && v == #[trigger] built(base, o, lo, hi, k, n as int) {
        let k = choose|k: i32| 0 <= k < (1i32 << n) && v == #[trigger] built(base, o, lo, hi, k, n as int);
        lemma_built(base, o, lo, hi, k, n as int);
        assert forall|c: Seq<char>| #[trigger] comps(a, b, base).contains(c) implies one_of(v[c], value_at(a, b, m, false, c), value_at(a, b, m, true, c)) by {
            assert(in_first(o, n as int, c));
            let j = choose|j: int| 0 <= j < n && (#[trigger] o[j])@ == c;
            assert(o[j]@ == c);
        }
        assert forall|c: Seq<char>| #[trigger] base.contains_key(c) && !comps(a, b, base).contains(c) implies v[c] == base[c] by { assert(!in_first(o, n as int, c)); }
        assert forall|c: Seq<char>| v.dom().contains(c) <==> #[trigger] base.dom().union(comps(a, b, base)).contains(c) by {
            assert(comps(a, b, base).contains(c) <==> in_first(o, n as int, c));
            assert(built(base, o, lo, hi, k, n as int).contains_key(c) <==> base.contains_key(c) || in_first(o, n as int, c));
        }
        assert(v.dom() =~= base.dom().union(comps(a, b, base)));
    }
}
@end
@fn crate::instance_component
@ensures
        match extreme(declared_in(*ra, component@), declared_in(*rb, component@), strategy.exact, strategy.min_or_max is Max) { Some(x) => r == Ok::<u32, String>(x), None => r is Err },
@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn crate::extend_scoped_components
@requires
        a is Some || b is Some,
@ensures
        r is Ok ==> forall|v: Ctx| #[trigger] among(r->Ok_0@, v) <==> v.dom() != Set::<Seq<char>>::empty() && corner(a, b, method, scope.vars@, v),
        r is Ok && scope.vars@.dom() != Set::<Seq<char>>::empty() ==> r->Ok_0@.len() > 0,
        r is Err <==> comps(a, b, scope.vars@).len() > 16 || undefined_value(a, b, method, scope.vars@),
@at start
    broadcast use axiom_order;
    broadcast use bit_by_shift, bit_by_shift_in_u32, bit_by_shift_in_u64, bit_by_shift_in_usize, bit_in_u32, bit_in_u64, bit_in_usize, power_in_u32, power_in_u64, power_in_usize;
    let ghost base = scope.vars@;
@at let frees
    assert(frees@ =~= comps(a, b, base));
    let ghost o = frees.order();
    let ghost n = o.len();
    assert forall|c: Seq<char>| comps(a, b, base).contains(c) <==> #[trigger] in_first(o, n as int, c) by {
        if frees@.contains(c) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).vkey() == c; assert(o[j]@ == c); }
        if in_first(o, n as int, c) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j])@ == c; assert(o[j].vkey() == c); }
    }
    assert(distinct(o)) by { assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i])@ != (#[trigger] o[j])@ by { assert(o[i].vkey() != o[j].vkey()); } }
@loop 0 inv
            invariant
                lowest@.len() == $i && highest@.len() == $i,
                forall|j: int| 0 <= j < $i ==> value_at(a, b, method, false, (#[trigger] o[j])@) == Some(lowest@[j]) && value_at(a, b, method, true, o[j]@) == Some(highest@[j]),
@loop 0 start
            assert(in_first(o, n as int, o[$i as int]@));
@loop 0 after
            assert forall|c: Seq<char>| #[trigger] comps(a, b, base).contains(c) implies value_at(a, b, method, false, c) is Some && value_at(a, b, method, true, c) is Some by { assert(in_first(o, n as int, c)); }
@loop 1 before
    assert(scopes@ =~= Set::<Ctx>::empty());
    assert forall|v: Ctx| !#[trigger] scopes@.contains(v) by { }
    let ghost nn = n as usize;
    assert(nn <= 16 ==> (1i32 << nn) > 0) by (bit_vector);
    let ghost lo = lowest@;
    let ghost hi = highest@;
@loop 1 inv
            invariant
                forall|v: Ctx| #[trigger] scopes@.contains(v) <==> v.dom() != Set::<Seq<char>>::empty() && exists|k: i32| 0 <= k < $i && v == #[trigger] built(base, o, lo, hi, k, n as int),
@loop 1 after
            let ghost first = built(base, o, lo, hi, 0, n as int);
            proof {
                lemma_built(base, o, lo, hi, 0, n as int);
                if base.dom() != Set::<Seq<char>>::empty() {
                    let c = choose|c: Seq<char>| base.dom().contains(c);
                    assert(base.dom().contains(c)) by { if forall|c: Seq<char>| !base.dom().contains(c) { assert(base.dom() =~= Set::<Seq<char>>::empty()); } }
                    assert(base.contains_key(c) && first.contains_key(c));
                    assert(first.dom() != Set::<Seq<char>>::empty()) by { assert(first.dom().contains(c)); }
                    assert(scopes@.contains(first));
                    assert(scopes.order().len() > 0) by { let j = choose|j: int| 0 <= j < scopes.order().len() && (#[trigger] scopes.order()[j]).vkey() == first; }
                }
            }
            assert forall|v: Ctx| (#[trigger] among(scopes.order(), v) <==> v.dom() != Set::<Seq<char>>::empty() && corner(a, b, method, base, v)) by {
                lemma_corner(a, b, method, base, o, lo, hi, n as usize, v);
                assert(among(scopes.order(), v) <==> scopes@.contains(v)) by {
                    if scopes@.contains(v) { let j = choose|j: int| 0 <= j < scopes.order().len() && (#[trigger] scopes.order()[j]).vkey() == v; assert(scopes.order()[j].vars@ == v); }
                    if among(scopes.order(), v) { let j = choose|j: int| 0 <= j < scopes.order().len() && (#[trigger] scopes.order()[j]).vars@ == v; assert(scopes.order()[j].vkey() == v); }
                }
            }
@loop 2 inv
            invariant
                scope.vars@ == built(base, o, lo, hi, $i1 as i32, $i2 as int),
@end
