//! C01, C02, C17: evaluation, dimensions, printing.
use crate::{common::*, need};
use subweight_core::{
	scope::{ChromaticScope, Scope, SimpleScope},
	term::{ChromaticTerm, SimpleTerm, Term},
	traits::Weight,
	Dimension,
};

pub const NUMS: &[u128] = &[
	0, 1, 2, 3, 7, 10, 100, 999, 1000, 1001, 1500, 65_536, 1_000_000, 25_000_000, 2_500_000_000, 1 << 32, 3_000_000_000_000, u64::MAX as u128, 1 << 64,
	(1 << 64) + 1, u128::MAX / 2, u128::MAX / 2 + 1, u128::MAX - 1, u128::MAX,
];
pub fn b<T>(x: T) -> Box<T> {
	Box::new(x)
}
pub fn num(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		return x;
	}
	match r.below(8) {
		0..=3 => *r.pick(&NUMS[..14]),
		4 => *r.pick(NUMS),
		5 => r.below(50) as u128,
		_ => {
			let k = r.below(100);
			r.bits() >> k
		},
	}
}
pub fn simple(r: &mut Rng, d: usize, vars: &[&str], num: &dyn Fn(&mut Rng) -> u128) -> SimpleTerm {
	if d == 0 || r.chance(1, 6) {
		return match r.below(3) {
			0 => Term::Scalar(num(r)),
			1 => Term::Value(num(r)),
			_ => Term::Var((*r.pick(vars)).into()),
		};
	}
	let (x, y) = (simple(r, d - 1, vars, num), simple(r, d - 1, vars, num));
	if r.chance(1, 2) {
		Term::Add(b(x), b(y))
	} else {
		Term::Mul(b(x), b(y))
	}
}
/// The mathematical value if everything is bound and fits.
pub fn oracle(t: &SimpleTerm, get: &dyn Fn(&str) -> Option<u128>) -> Option<u128> {
	match t {
		Term::Value(x) | Term::Scalar(x) => Some(*x),
		Term::Var(v) => get(&v.0),
		Term::Add(x, y) => oracle(x, get)?.checked_add(oracle(y, get)?),
		Term::Mul(x, y) => oracle(x, get)?.checked_mul(oracle(y, get)?),
	}
}

pub fn c01(c: &mut Ctx) {
	for k in 0..c.n(60_000) {
		let vars = c.rng.names(&["a", "b", "a_b", "ab", "READ", "A", "nope", "m::a", "m::n::READ"]);
		let vars = &vars[..];
		let d = 1 + c.rng.below(5);
		let t = simple(&mut c.rng, d, vars, &num);
		let mut vals: Vec<(&str, SimpleTerm)> = vec![];
		let nbind = if c.rng.chance(1, 2) { vars.len() } else { c.rng.below(vars.len() + 1) };
		let mut order = vars.to_vec();
		c.rng.shuffle(&mut order);
		let vars = order;
		for v in vars.iter().take(nbind) {
			// a variable may stand for another equation
			let x = if c.rng.chance(1, 5) {
				let t = simple(&mut c.rng, 1, &["zz"], &num);
				if c.rng.chance(1, 2) {
					t
				} else {
					Term::Add(b(Term::Scalar(2)), b(Term::Value(num(&mut c.rng))))
				}
			} else {
				Term::Scalar(num(&mut c.rng))
			};
			vals.push((*v, x));
			if c.rng.chance(1, 6) {
				// assigned again: the last value counts
				let again: &str = *c.rng.pick(&vars[..nbind]);
				vals.push((again, Term::Scalar(num(&mut c.rng))));
			}
		}
		let mut s = SimpleScope::empty();
		for (v, x) in &vals {
			if k % 3 == 2 {
				s = s.merge(SimpleScope::empty().with_var(v, x.clone()));
			} else if k % 3 == 0 {
				s.put_var(v, x.clone());
			} else {
				s = s.with_var(v, x.clone());
			}
		}
		let get = |n: &str| vals.iter().rev().find(|v| v.0 == n).and_then(|v| oracle(&v.1, &|_| None));
		let want = oracle(&t, &get);
		c.dim(if want.is_some() { "value" } else { "error" });
		if !c.case(
			|| format!("SimpleTerm::eval {t:?} in {vals:?}"),
			|| match (t.eval(&s), want) {
				(Ok(x), Some(y)) if x == y => Ok(()),
				(Err(_), None) => Ok(()),
				(g, w) => Err(format!("got {g:?}, the equation's value is {w:?} (None: unbound or does not fit)")),
			},
		) {
			return;
		}
	}
	// two-dimensional
	for _ in 0..c.n(40_000) {
		let d = c.rng.below(5);
		let t = chroma(&mut c.rng, d, &num);
		let (sv, wv) = (num(&mut c.rng), Weight { time: num(&mut c.rng), proof: num(&mut c.rng) });
		let bound = c.rng.below(4);
		let mut s = ChromaticScope::empty();
		if bound & 1 == 0 {
			s.put_var("s", Term::Scalar(sv));
		}
		if bound & 2 == 0 {
			s.put_var("w", Term::Value(wv.clone()));
		}
		let f = |time: bool| {
			let wv = wv.clone();
			move |n: &str| match n {
				"s" if bound & 1 == 0 => Some(sv),
				"w" if bound & 2 == 0 => Some(if time { wv.time } else { wv.proof }),
				_ => None,
			}
		};
		let want = match (coracle(&t, true, &f(true)), coracle(&t, false, &f(false))) {
			(Some(a), Some(b)) => Some((a, b)),
			_ => None,
		};
		c.dim(if want.is_some() { "pair" } else { "pair error" });
		if !c.case(
			|| format!("ChromaticTerm::eval {t:?} with s={sv} w={wv:?} bound={bound}"),
			|| match (t.eval(&s), want) {
				(Ok(x), Some(y)) if (x.time, x.proof) == y => Ok(()),
				(Err(_), None) => Ok(()),
				(g, w) => Err(format!("got {g:?}, the equation's value is {w:?}")),
			},
		) {
			return;
		}
	}
	// ill-typed two-dimensional equations: an error or the right value, no panic
	for _ in 0..c.n(10_000) {
		let d = c.rng.below(4);
		let t = wild(&mut c.rng, d);
		let mut s = ChromaticScope::empty();
		s.put_var("s", Term::Scalar(3));
		s.put_var("w", Term::Value(Weight { time: 5, proof: 7 }));
		let g = |time: bool| move |n: &str| match n { "s" => Some(3), "w" => Some(if time { 5 } else { 7 }), _ => None };
		if !c.case(
			|| format!("ChromaticTerm::eval {t:?} with s=3 w=(5,7)"),
			|| match t.eval(&s) {
				Ok(x) => {
					let w = (coracle(&t, true, &g(true)), coracle(&t, false, &g(false)));
					need!(w == (Some(x.time), Some(x.proof)), "got {x:?}, expected {w:?}");
					Ok(())
				},
				Err(_) => Ok(()),
			},
		) {
			return;
		}
	}
}
/// A well-formed two-dimensional equation (weights added, scaled by numbers).
pub fn chroma(r: &mut Rng, d: usize, num: &dyn Fn(&mut Rng) -> u128) -> ChromaticTerm {
	if d == 0 {
		return if r.chance(1, 4) { Term::Var("w".into()) } else { Term::Value(Weight { time: num(r), proof: num(r) }) };
	}
	if r.chance(1, 2) {
		return Term::Add(b(chroma(r, d - 1, num)), b(chroma(r, d - 1, num)));
	}
	let s = if r.chance(1, 2) { Term::Scalar(num(r)) } else { Term::Var("s".into()) };
	let w = chroma(r, d - 1, num);
	// `w * s` with both variables is ambiguous to the evaluator
	if matches!(w, Term::Var(_)) || r.chance(1, 2) {
		Term::Mul(b(s), b(w))
	} else {
		Term::Mul(b(w), b(s))
	}
}
fn wild(r: &mut Rng, d: usize) -> ChromaticTerm {
	if d == 0 || r.chance(1, 5) {
		return match r.below(4) {
			0 => Term::Scalar(r.below(9) as u128),
			1 => Term::Value(Weight { time: r.below(9) as u128, proof: r.below(9) as u128 }),
			_ => Term::Var((*r.pick(&["s", "w", "u"])).into()),
		};
	}
	let (x, y) = (b(wild(r, d - 1)), b(wild(r, d - 1)));
	if r.chance(1, 2) {
		Term::Add(x, y)
	} else {
		Term::Mul(x, y)
	}
}
/// One component of a two-dimensional equation; plain numbers scale both components.
pub fn coracle(t: &ChromaticTerm, time: bool, get: &dyn Fn(&str) -> Option<u128>) -> Option<u128> {
	match t {
		Term::Value(w) => Some(if time { w.time } else { w.proof }),
		Term::Scalar(x) => Some(*x),
		Term::Var(v) => get(&v.0),
		Term::Add(x, y) => coracle(x, time, get)?.checked_add(coracle(y, time, get)?),
		Term::Mul(x, y) => coracle(x, time, get)?.checked_mul(coracle(y, time, get)?),
	}
}
pub fn small(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		return x & 0xffff_ffff;
	}
	match r.below(4) {
		0 => 0,
		1 => 1,
		_ => r.below(2000) as u128,
	}
}

fn eval1(t: &SimpleTerm, vals: &[(&str, u128)]) -> Option<u128> {
	oracle(t, &|n| vals.iter().find(|v| v.0 == n).map(|v| v.1))
}
fn has_bare_var(t: &SimpleTerm) -> bool {
	match t {
		Term::Var(_) => true,
		Term::Add(x, y) => has_bare_var(x) || has_bare_var(y),
		Term::Mul(x, y) => has_bare_var(x) && has_bare_var(y),
		_ => false,
	}
}

pub fn c02(c: &mut Ctx) {
	for _ in 0..c.n(40_000) {
		let d = c.rng.below(6);
		let t = if c.rng.chance(1, 3) { wild(&mut c.rng, d.min(4)) } else { chroma(&mut c.rng, d, &small) };
		let (s, wt, wp) = (small(&mut c.rng), small(&mut c.rng), small(&mut c.rng));
		if !c.case(
			|| format!("simplify {t:?} with s={s} w=({wt},{wp})"),
			|| {
				for (dim, w) in [(Dimension::Time, wt), (Dimension::Proof, wp)] {
					let time = dim == Dimension::Time;
					let vals = [("s", s), ("w", w), ("u", 5)];
					let want = coracle(&t, time, &|n| vals.iter().find(|v| v.0 == n).map(|v| v.1));
					let got = t.simplify(dim).map_err(|e| format!("error {e}"))?;
					let got = eval1(&got, &vals);
					need!(got == want, "{dim:?}: value {got:?}, the component is {want:?}");
				}
				Ok(())
			},
		) {
			return;
		}
	}
	c.dims.insert("simplify".into(), c.cases);
	// splice_add: the sum of the two, in each dimension
	for k in 0..c.n(40_000) {
		let (d1, d2) = (c.rng.below(4), c.rng.below(4));
		let vars = ["s", "w"];
		let (x, y): (ChromaticTerm, ChromaticTerm) = if k % 2 == 0 {
			let (p, q) = (simple(&mut c.rng, d1, &vars, &small), simple(&mut c.rng, d2, &vars, &small));
			let (p, q) = if k % 4 == 0 { (p, q) } else { (sums(p), sums(q)) };
			let dims = [Dimension::Time, Dimension::Proof];
			let (i, j) = if k % 6 < 4 { (0, 1) } else { (c.rng.below(2), c.rng.below(2)) };
			(p.into_chromatic(dims[i]), q.into_chromatic(dims[j]))
		} else {
			let x = wild(&mut c.rng, d1);
			let y = match c.rng.below(3) {
				0 => wild(&mut c.rng, d2),
				// parts that look alike
				_ => alike(&x, &mut c.rng),
			};
			let mut other = wild(&mut c.rng, d2);
			if c.rng.chance(1, 3) {
				other = Term::Add(b(other), b(y.clone()));
			}
			match c.rng.below(4) {
				0 => (Term::Mul(b(x), b(other.clone())), Term::Mul(b(y), b(other))),
				1 => (Term::Mul(b(other), b(x)), Term::Mul(b(wild(&mut c.rng, d2)), b(y))),
				2 => (Term::Add(b(x), b(other)), y),
				_ => (x, y),
			}
		};
		let mut vals = vec![("s", small(&mut c.rng)), ("w", small(&mut c.rng)), ("u", 3)];
		for n in ["_s", "s_", "S", "u_"] {
			vals.push((n, small(&mut c.rng)));
		}
		if !c.case(
			|| format!("({x:?}).splice_add({y:?}) with {vals:?}"),
			|| {
				let z = x.clone().splice_add(y.clone());
				for time in [true, false] {
					let g = |n: &str| vals.iter().find(|v| v.0 == n).map(|v| v.1);
					let want = (coracle(&x, time, &g), coracle(&y, time, &g));
					let got = coracle(&z, time, &g);
					if let (Some(p), Some(q)) = want {
						need!(got == p.checked_add(q), "time={time}: {got:?}, the parts are {p} and {q}: {z:?}");
					}
				}
				Ok(())
			},
		) {
			return;
		}
	}
	// into_chromatic keeps the value in its own dimension; literals contribute nothing to the other
	for _ in 0..c.n(30_000) {
		let d = c.rng.below(5);
		let t = simple(&mut c.rng, d, &["s", "w"], &small);
		let vals = [("s", small(&mut c.rng)), ("w", small(&mut c.rng))];
		let bare = has_bare_var(&t);
		if !c.case(
			|| format!("into_chromatic {t:?} with {vals:?}"),
			|| {
				let g = |n: &str| vals.iter().find(|v| v.0 == n).map(|v| v.1);
				let want = oracle(&t, &g);
				for (dim, own) in [(Dimension::Time, true), (Dimension::Proof, false)] {
					let z = t.clone().into_chromatic(dim);
					need!(coracle(&z, own, &g) == want, "{dim:?}: own dimension {:?}, want {want:?}", coracle(&z, own, &g));
					if !bare {
						let o = coracle(&z, !own, &g);
						need!(o == Some(0) || want.is_none(), "{dim:?}: leaks {o:?} into the other dimension");
					}
				}
				Ok(())
			},
		) {
			return;
		}
	}
}
/// A copy in which one or another leaf is different: another number, kind or spelling.
fn alike(t: &ChromaticTerm, r: &mut Rng) -> ChromaticTerm {
	match t {
		Term::Add(x, y) => Term::Add(b(alike(x, r)), b(alike(y, r))),
		Term::Mul(x, y) => Term::Mul(b(alike(x, r)), b(alike(y, r))),
		t if r.chance(2, 3) => t.clone(),
		Term::Var(v) if v.0 == "s" => Term::Var((*r.pick(&["_s", "s_", "S", "u"])).into()),
		Term::Var(_) => Term::Var((*r.pick(&["s", "u_", "u"])).into()),
		Term::Scalar(x) => match r.below(3) {
			0 => Term::Value(Weight { time: *x, proof: *x }),
			_ => Term::Scalar(small(r)),
		},
		Term::Value(w) => match r.below(4) {
			0 => Term::Value(Weight { time: w.proof, proof: w.time }),
			1 => Term::Value(Weight { time: w.time, proof: small(r) }),
			2 => Term::Value(Weight { time: small(r), proof: w.proof }),
			_ => Term::Scalar(w.time),
		},
	}
}
fn sums(t: SimpleTerm) -> SimpleTerm {
	match t {
		Term::Mul(x, y) => Term::Add(b(sums(*x)), b(sums(*y))),
		Term::Add(x, y) => Term::Add(b(sums(*x)), b(sums(*y))),
		t => t,
	}
}

// ---- printing ------------------------------------------------------------------
/// A printed equation read back: sums of products of numbers, variables, pairs and parenthesised sums.
struct P<'a> {
	s: &'a [u8],
	i: usize,
}
#[derive(Debug)]
enum E {
	N(u128),
	Pair(u128, u128),
	V(String),
	A(Vec<E>),
	M(Vec<E>),
}
impl<'a> P<'a> {
	fn ws(&mut self) {
		while self.i < self.s.len() && self.s[self.i] == b' ' {
			self.i += 1;
		}
	}
	fn eat(&mut self, c: u8) -> bool {
		self.ws();
		if self.i < self.s.len() && self.s[self.i] == c {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn sum(&mut self) -> Result<E, String> {
		let mut v = vec![self.prod()?];
		while self.eat(b'+') {
			v.push(self.prod()?);
		}
		Ok(E::A(v))
	}
	fn prod(&mut self) -> Result<E, String> {
		let mut v = vec![self.atom()?];
		while self.eat(b'*') {
			v.push(self.atom()?);
		}
		Ok(E::M(v))
	}
	fn atom(&mut self) -> Result<E, String> {
		if self.eat(b'(') {
			let save = self.i;
			if let Ok(E::N(a)) = self.atom() {
				if self.eat(b',') {
					if let Ok(E::N(p)) = self.atom() {
						if self.eat(b')') {
							return Ok(E::Pair(a, p));
						}
					}
				}
			}
			self.i = save;
			let e = self.sum()?;
			if !self.eat(b')') {
				return Err("missing )".into());
			}
			return Ok(e);
		}
		self.ws();
		let st = self.i;
		while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_.:".contains(&self.s[self.i])) {
			self.i += 1;
		}
		let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
		if w.is_empty() {
			return Err(format!("unexpected input at {st}"));
		}
		if w.as_bytes()[0].is_ascii_digit() {
			let (d, k) = match w.as_bytes()[w.len() - 1] {
				b'K' => (&w[..w.len() - 1], 3),
				b'M' => (&w[..w.len() - 1], 6),
				b'G' => (&w[..w.len() - 1], 9),
				b'T' => (&w[..w.len() - 1], 12),
				_ => (w, 0),
			};
			let (ip, fp) = d.split_once('.').unwrap_or((d, ""));
			let mut n: u128 = ip.parse().map_err(|_| format!("number {w}"))?;
			let mut f = fp.to_string();
			if f.len() > k {
				return Err(format!("number {w}"));
			}
			while f.len() < k {
				f.push('0');
			}
			n = n * 10u128.pow(k as u32) + if f.is_empty() { 0 } else { f.parse::<u128>().map_err(|_| format!("number {w}"))? };
			return Ok(E::N(n));
		}
		Ok(E::V(w.into()))
	}
}
/// Both forms are compared as polynomials over a prime field, where nothing overflows.
pub const PRIME: u128 = (1 << 61) - 1;
fn pe(e: &E, time: bool, get: &dyn Fn(&str) -> Option<u128>) -> Option<u128> {
	match e {
		E::N(x) => Some(*x % PRIME),
		E::Pair(a, p) => Some(if time { *a } else { *p } % PRIME),
		E::V(v) => get(v),
		E::A(v) => v.iter().try_fold(0u128, |a, x| Some((a + pe(x, time, get)?) % PRIME)),
		E::M(v) => v.iter().try_fold(1u128, |a, x| Some(a * pe(x, time, get)? % PRIME)),
	}
}
pub fn poly<T>(t: &Term<T>, val: &dyn Fn(&T) -> u128, get: &dyn Fn(&str) -> Option<u128>) -> Option<u128> {
	Some(match t {
		Term::Value(w) => val(w) % PRIME,
		Term::Scalar(x) => *x % PRIME,
		Term::Var(v) => get(&v.0)?,
		Term::Add(x, y) => (poly(x, val, get)? + poly(y, val, get)?) % PRIME,
		Term::Mul(x, y) => poly(x, val, get)? * poly(y, val, get)? % PRIME,
	})
}
fn exact(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		// what is printed with two digits is exactly this
		let unit = [1u128, 1_000, 1_000_000, 1_000_000_000, 1_000_000_000_000].into_iter().rev().find(|u| *u <= x).unwrap_or(1);
		return if unit == 1 { x } else { x / (unit / 100).max(10) * (unit / 100).max(10) }.min(999_000_000_000_000);
	}
	match r.below(7) {
		0 | 1 => 0,
		2 | 3 => 1,
		4 => 2 + r.below(998) as u128,
		5 => *r.pick(&[999u128, 1000, 1_500, 1_000_000, 2_250_000, 1_000_000_000, 12_340_000_000, 5_000_000_000_000]),
		_ => r.below(6) as u128,
	}
}
pub fn c17(c: &mut Ctx) {
	// names which differ only in a leading underscore, their case or their length are different
	let vars = ["a", "b", "READ", "long_name", "_a", "A", "a_", "aa", "__long_name", "LONG_NAME", "read", "a1"];
	let primes = [2u128, 3, 5, 7, 23, 29, 31, 37, 41, 43, 47, 53];
	let assigns: Vec<Vec<(&str, u128)>> = vec![
		vars.iter().copied().zip(primes).collect(),
		vars.iter().copied().zip([11, 0, 1, 13, 59, 61, 67, 71, 73, 79, 83, 89]).collect(),
		vars.iter().copied().zip([0, 17, 19, 0, 97, 101, 103, 107, 109, 113, 127, 131]).collect(),
	];
	let go = |c: &mut Ctx, t: SimpleTerm| {
		c.case(
			|| format!("printing {t:?}"),
			|| {
				let s = format!("{t}");
				let mut p = P { s: s.as_bytes(), i: 0 };
				let e = p.sum().map_err(|e| format!("`{s}` is not an equation: {e}"))?;
				p.ws();
				need!(p.i == s.len(), "`{s}` is not an equation");
				for a in &assigns {
					let g = |n: &str| a.iter().find(|v| v.0 == n).map(|v| v.1);
					let want = poly(&t, &|x| *x, &g);
					let got = pe(&e, true, &g);
					need!(got == want, "printed as `{s}`, which is {got:?} for {a:?}; the equation is {want:?}");
				}
				Ok(())
			},
		)
	};
	// exhaustive over small shapes
	let leaves: Vec<SimpleTerm> = vec![Term::Scalar(0), Term::Scalar(1), Term::Value(0), Term::Value(1), Term::Scalar(5), Term::Value(2500), Term::Var("a".into()), Term::Var("b".into())];
	let mut lvl2 = leaves.clone();
	for x in &leaves {
		for y in &leaves {
			lvl2.push(Term::Add(b(x.clone()), b(y.clone())));
			lvl2.push(Term::Mul(b(x.clone()), b(y.clone())));
		}
	}
	for x in &lvl2 {
		for y in &lvl2 {
			if !go(c, Term::Add(b(x.clone()), b(y.clone()))) || !go(c, Term::Mul(b(x.clone()), b(y.clone()))) {
				return;
			}
		}
	}
	c.dims.insert("exhaustive depth 2".into(), c.cases);
	for _ in 0..c.n(40_000) {
		let d = 2 + c.rng.below(5);
		let t = simple(&mut c.rng, d, &vars, &exact);
		if !go(c, t) {
			return;
		}
	}
	// two-dimensional equations
	for _ in 0..c.n(15_000) {
		let d = c.rng.below(5);
		let t = chroma(&mut c.rng, d, &exact);
		if !c.case(
			|| format!("printing {t:?}"),
			|| {
				let s = format!("{t}");
				let mut p = P { s: s.as_bytes(), i: 0 };
				let e = p.sum().map_err(|e| format!("`{s}` is not an equation: {e}"))?;
				p.ws();
				need!(p.i == s.len(), "`{s}` is not an equation");
				for time in [true, false] {
					let g = |n: &str| Some(match n { "s" => 3, _ => if time { 5 } else { 11 } });
					let want = poly(&t, &|w| if time { w.time } else { w.proof }, &g);
					let got = pe(&e, time, &g);
					need!(got == want, "printed as `{s}`, which is {got:?}; the equation is {want:?}");
				}
				Ok(())
			},
		) {
			return;
		}
	}
	// the variables listed beside an equation
	let _ = Scope::<SimpleTerm>::empty();
}
