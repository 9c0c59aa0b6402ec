//! C03, C04, C12, C14, C22: parsing weight files.
use crate::{common::*, need, p_term::*};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use subweight_core::{
	parse::{overhead, pallet, pallet::ChromaticExtrinsic, storage, try_parse_file, ParsedFile},
	term::{ChromaticTerm, SimpleTerm, Term},
	Dimension,
};

fn add(x: SimpleTerm, y: SimpleTerm) -> SimpleTerm {
	Term::Add(b(x), b(y))
}
fn mul(x: SimpleTerm, y: SimpleTerm) -> SimpleTerm {
	Term::Mul(b(x), b(y))
}
fn lit(n: u128) -> SimpleTerm {
	Term::Scalar(n)
}
fn v(n: &str) -> SimpleTerm {
	Term::Var(n.into())
}

// ---- C03 ----
/// Source text of a plain number and what it denotes.
struct S {
	s: String,
	t: SimpleTerm,
	/// Every summand has a literal factor.
	weighted: bool,
	/// A plain literal, possibly bracketed or cast.
	bare_lit: bool,
}
/// Source text of a weight and its value in time and proof.
struct W {
	s: String,
	time: SimpleTerm,
	proof: SimpleTerm,
	/// Contains a constructor argument with a summand that has no literal factor.
	finding: bool,
}
const COMPS: [&str; 4] = ["n", "m", "a_b", "READS"];
/// A component or, with `path`, a constant of some module; the last segments collide.
fn comp(r: &mut Rng, path: bool) -> String {
	let n = if r.chance(1, 6) { r.name(&COMPS) } else { r.pick(&COMPS).to_string() };
	let n = if KEYWORDS.contains(&n.as_str()) { "n".into() } else { n };
	if path && r.chance(1, 5) {
		let p = *r.pick(&["super::", "crate::", "self::", "Self::", "T::", "constants::", "super::super::", "a::b::", "super::constants::"]);
		return format!("{p}{n}");
	}
	n
}
const KEYWORDS: [&str; 24] = ["as", "for", "in", "if", "let", "mod", "use", "fn", "impl", "match", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "type", "where", "crate", "const", "read", "write"];
/// Different variables have different values.
fn value_of(n: &str) -> u128 {
	n.replace('_', "").bytes().fold(7u128, |h, b| (h * 131 + b as u128) % 99_991)
}
fn numlit(r: &mut Rng) -> (String, u128) {
	let odd = r.odd();
	let n = match r.below(5) {
		_ if odd.is_some() => odd.unwrap() & (u64::MAX as u128),
		0 => 0,
		1 => 1,
		2 => r.below(5000) as u128,
		3 => 1_000_000 + r.below(5_000_000) as u128,
		4 if r.chance(1, 10) => r.bits() >> r.below(70),
		_ => r.below(20) as u128,
	};
	let s = match r.below(6) {
		0 if n <= u64::MAX as u128 => format!("{n}_u64"),
		1 => format!("{n}u128"),
		2 => format!("0x{n:x}"),
		3 if n >= 1000 => format!("{}_{:03}", n / 1000, n % 1000),
		_ => format!("{n}"),
	};
	(s, n)
}
fn scalar(r: &mut Rng, d: usize, db: bool) -> S {
	if d == 0 {
		if r.chance(2, 3) {
			let (s, n) = numlit(r);
			return S { s, t: lit(n), weighted: true, bare_lit: true };
		}
		let c = comp(r, true);
		return S { t: v(&c), s: c, weighted: false, bare_lit: false };
	}
	match r.below(if db { 7 } else { 6 }) {
		0 => {
			let x = scalar(r, d - 1, db);
			S { s: format!("({})", x.s), ..x }
		},
		1 => {
			let x = scalar(r, d - 1, db);
			let ty = *r.pick(&["u64", "u128", "Weight"]);
			S { s: format!("({} as {ty})", x.s), ..x }
		},
		2 => {
			let x = scalar(r, d - 1, db);
			S { s: format!("({}).into()", x.s), bare_lit: false, ..x }
		},
		3 => {
			let (x, y) = (scalar(r, d - 1, db), scalar(r, d - 1, db));
			S { s: format!("({}).saturating_add({})", x.s, y.s), t: add(x.t, y.t), weighted: x.weighted && y.weighted, bare_lit: false }
		},
		6 => {
			let x = scalar(r, d - 1, false);
			let (m, c) = *r.pick(&[("reads", "READ"), ("writes", "WRITE")]);
			// charged in time whatever the count is
			S { s: format!("{}.{m}({})", dbget(r), x.s), t: mul(x.t, v(c)), weighted: x.weighted, bare_lit: false }
		},
		_ => {
			let (x, y) = (scalar(r, d - 1, db), scalar(r, d - 1, db));
			S { s: format!("({}).saturating_mul({})", x.s, y.s), t: mul(x.t, y.t), weighted: x.weighted || y.weighted, bare_lit: false }
		},
	}
}
fn dbget(r: &mut Rng) -> &'static str {
	*r.pick(&["T::DbWeight::get()", "RocksDbWeight::get()", "ParityDbWeight::get()", "crate::weights::RocksDbWeight::get()"])
}
fn weight(r: &mut Rng, d: usize) -> W {
	let ctor = |r: &mut Rng| *r.pick(&["Weight", "frame_support::weights::Weight"]);
	if d == 0 || r.chance(1, 8) {
		let k = r.below(4);
		return match r.below(6) {
			0 => {
				let x = scalar(r, k, false);
				W { s: format!("{}::from_ref_time({})", ctor(r), x.s), finding: !x.weighted, time: x.t, proof: lit(0) }
			},
			1 => {
				let x = scalar(r, k, false);
				W { s: format!("{}::from_proof_size({})", ctor(r), x.s), finding: !x.weighted, time: lit(0), proof: x.t }
			},
			2 => W { s: format!("{}::zero()", ctor(r)), time: lit(0), proof: lit(0), finding: false },
			3 => {
				let x = scalar(r, k.min(2), false);
				let (m, c) = *r.pick(&[("reads", "READ"), ("writes", "WRITE")]);
				W { s: format!("{}.{m}({})", dbget(r), x.s), time: mul(x.t, v(c)), proof: lit(0), finding: false }
			},
			_ => {
				let (x, y) = (scalar(r, k, false), scalar(r, k, false));
				W { s: format!("{}::from_parts({}, {})", ctor(r), x.s, y.s), finding: !x.weighted || !y.weighted, time: x.t, proof: y.t }
			},
		};
	}
	match r.below(6) {
		0 => {
			let x = weight(r, d - 1);
			W { s: format!("({})", x.s), ..x }
		},
		1 => {
			let x = weight(r, d - 1);
			W { s: format!("({}).into()", x.s), ..x }
		},
		2 => {
			let x = weight(r, d - 1);
			let c = comp(r, false);
			let s = match r.below(4) {
				0 => format!("{}.saturating_mul({c} as u64)", x.s),
				1 => format!("{}.saturating_mul({c}.into())", x.s),
				2 => format!("{}.saturating_mul(({c} as u64).into())", x.s),
				_ => format!("{}.saturating_mul({c})", x.s),
			};
			W { s, time: mul(x.time, v(&c)), proof: mul(x.proof, v(&c)), finding: x.finding }
		},
		_ => {
			let (x, y) = (weight(r, d - 1), weight(r, d - 1));
			W { s: format!("{}.saturating_add({})", x.s, y.s), time: add(x.time, y.time), proof: add(x.proof, y.proof), finding: x.finding || y.finding }
		},
	}
}
fn imp(fns: &[(String, String)]) -> String {
	let mut s = String::from("use core::marker::PhantomData;\npub struct SubstrateWeight<T>(PhantomData<T>);\nimpl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {\n");
	for (n, body) in fns {
		s += &format!("\tfn {n}(n: u32, m: u32, ) -> Weight {{\n\t\t{body}\n\t}}\n");
	}
	s + "}\n"
}
fn same(got: &ChromaticTerm, time: &SimpleTerm, proof: &SimpleTerm) -> Res {
	for (dim, want, rd, wr) in [(Dimension::Time, time, 1009u128, 100_003u128), (Dimension::Proof, proof, 0, 0)] {
		let t = got.simplify(dim)?;
		for k in [2u128, 5, 11] {
			let g = |n: &str| {
				Some(match n {
					"READ" => rd,
					"WRITE" => wr,
					"n" => k,
					"m" => 3 * k + 1,
					"a_b" | "ab" => 7 * k + 2,
					"READS" => 13 * k + 4,
					n => value_of(n) + k,
				})
			};
			let gv = poly(&t, &|x| *x, &g);
			let wv = poly(want, &|x| *x, &g);
			need!(gv == wv, "{dim:?} equation is `{t}`, which is {gv:?} instead of {wv:?} at n={k} m={} a_b={} READS={} READ={rd} WRITE={wr}", 3 * k + 1, 7 * k + 2, 13 * k + 4);
		}
	}
	Ok(())
}
/// A plain number and its value, with operators and methods that weight files do not use.
fn foreign(r: &mut Rng, d: usize) -> (String, u128) {
	if d == 0 {
		let n = match r.below(4) {
			0 => r.below(9),
			1 => r.below(200),
			2 => 1000 + r.below(90_000),
			_ => 1,
		} as u128;
		return (n.to_string(), n);
	}
	let (x, y) = (foreign(r, d - 1), foreign(r, d - 1));
	let (a, b) = (x.1, y.1);
	let (xs, ys) = (format!("({})", x.0), format!("({})", y.0));
	let small = a < 1 << 40 && b < 1 << 40;
	match if r.chance(1, 4) { 2 * r.below(2) } else { r.below(27) } {
		0 => (format!("{xs} + {ys}"), a + b),
		24 => (format!("({xs} as u64)"), a),
		25 => (format!("-{xs}"), if a == 0 { 0 } else { (1 << 60) + 7 }),
		26 => (format!("!{xs}"), (1 << 60) + 9),
		1 if a >= b => (format!("{xs} - {ys}"), a - b),
		2 if small => (format!("{xs} * {ys}"), a * b),
		3 if b > 0 => (format!("{xs} / {ys}"), a / b),
		4 if b > 0 => (format!("{xs} % {ys}"), a % b),
		5 => (format!("{xs} | {ys}"), a | b),
		6 => (format!("{xs} & {ys}"), a & b),
		7 => (format!("{xs} ^ {ys}"), a ^ b),
		8 if small => (format!("{xs} << 3"), a << 3),
		9 => (format!("{xs} >> 2"), a >> 2),
		10 => (format!("{xs}.saturating_sub({})", y.0), a.saturating_sub(b)),
		11 => (format!("{xs}.max({})", y.0), a.max(b)),
		12 => (format!("{xs}.min({})", y.0), a.min(b)),
		13 if a < 1 << 20 => (format!("{xs}.saturating_pow(2)"), a * a),
		14 if b > 0 => (format!("{xs}.saturating_div({})", y.0), a / b),
		15 => (format!("{xs}.add({})", y.0), a + b),
		16 if small => (format!("{xs}.mul({})", y.0), a * b),
		17 | 18 => {
			let w = foreign_weight(r, d - 1);
			if r.chance(1, 2) {
				(format!("{}.ref_time()", w.0), w.1)
			} else {
				(format!("{}.proof_size()", w.0), w.2)
			}
		},
		19 => (format!("{{ {} }}", x.0), a),
		20 => (format!("{xs}.clone()"), a),
		21 if small => (format!("{xs}.saturating_mul({})", y.0), a * b),
		_ => (format!("{xs}.saturating_add({})", y.0), a + b),
	}
}
fn foreign_weight(r: &mut Rng, d: usize) -> (String, u128, u128) {
	let (x, k) = (foreign(r, d.min(2)), foreign(r, d.min(1)));
	if d == 0 || r.chance(1, 5) {
		return match r.below(7) {
			0 => (format!("Weight::from_ref_time({})", x.0), x.1, 0),
			1 => (format!("Weight::from_proof_size({})", x.0), 0, x.1),
			2 => ("Weight::zero()".into(), 0, 0),
			3 => (format!("Weight::from_all({})", x.0), x.1, x.1),
			4 => (format!("T::DbWeight::get().reads_writes({}, {})", x.0, k.0), 1009 * x.1 + 100_003 * k.1, 0),
			_ => (format!("Weight::from_parts({}, {})", x.0, k.0), x.1, k.1),
		};
	}
	let (v, w) = (foreign_weight(r, d - 1), foreign_weight(r, d - 1));
	let small = [v.1, v.2, k.1].iter().all(|x| *x < 1 << 40);
	let (ks, n) = (k.0, k.1);
	match r.below(18) {
		0 => (format!("{}.saturating_sub({})", v.0, w.0), v.1.saturating_sub(w.1), v.2.saturating_sub(w.2)),
		1 => (format!("{}.max({})", v.0, w.0), v.1.max(w.1), v.2.max(w.2)),
		2 => (format!("{}.min({})", v.0, w.0), v.1.min(w.1), v.2.min(w.2)),
		3 => (format!("({} + {})", v.0, w.0), v.1 + w.1, v.2 + w.2),
		4 if v.1 >= w.1 && v.2 >= w.2 => (format!("({} - {})", v.0, w.0), v.1 - w.1, v.2 - w.2),
		5 if small => (format!("({} * ({ks}))", v.0), v.1 * n, v.2 * n),
		6 if n > 0 => (format!("({} / ({ks}))", v.0), v.1 / n, v.2 / n),
		7 if n > 0 => (format!("{}.saturating_div({ks})", v.0), v.1 / n, v.2 / n),
		8 if small => (format!("{}.mul({ks})", v.0), v.1 * n, v.2 * n),
		9 => (format!("{}.add({})", v.0, w.0), v.1 + w.1, v.2 + w.2),
		10 => (format!("{}.set_proof_size({ks})", v.0), v.1, n),
		11 => (format!("{}.set_ref_time({ks})", v.0), n, v.2),
		12 => (format!("{}.without_proof_size()", v.0), v.1, 0),
		13 => (format!("{}.without_ref_time()", v.0), 0, v.2),
		14 if small => (format!("{}.saturating_mul({ks})", v.0), v.1 * n, v.2 * n),
		_ => (format!("{}.saturating_add({})", v.0, w.0), v.1 + w.1, v.2 + w.2),
	}
}
pub fn c03(c: &mut Ctx) {
	for _ in 0..c.n(15_000) {
		let k = 1 + c.rng.below(3);
		let mut fns = vec![];
		let mut want = vec![];
		for i in 0..k {
			let d = c.rng.below(5);
			let w = if c.rng.chance(1, 4) {
				// the old syntax: plain numbers are time
				let x = scalar(&mut c.rng, 1 + d.min(3), true);
				W { s: x.s, time: x.t, proof: lit(0), finding: !x.weighted }
			} else {
				weight(&mut c.rng, d)
			};
			if w.finding {
				c.dim("skipped, listed finding");
				continue;
			}
			fns.push((format!("f{i}"), w.s.clone()));
			want.push(w);
		}
		let src = imp(&fns);
		if fns.is_empty() {
			continue;
		}
		let parsed = std::panic::catch_unwind(|| pallet::parse_content("p.rs".into(), src.clone()));
		let accepted = matches!(parsed, Ok(Ok(_)));
		c.dim(if accepted { "accepted" } else { "rejected" });
		if !c.case(
			|| format!("weight functions\n{}", fns.iter().map(|(n, s)| format!("{n}: {s}")).collect::<Vec<_>>().join("\n")),
			|| {
				let got = match parsed {
					Ok(Ok(g)) => g,
					Ok(Err(_)) => return Ok(()),
					Err(_) => return Err("panic".into()),
				};
				need!(got.len() == fns.len(), "{} functions instead of {}", got.len(), fns.len());
				for ((g, f), w) in got.iter().zip(&fns).zip(&want) {
					need!(g.name == f.0 && g.pallet == "p.rs", "function {}::{} instead of p.rs::{}", g.pallet, g.name, f.0);
					same(&g.term, &w.time, &w.proof).map_err(|e| format!("{}: {e}", f.0))?;
				}
				Ok(())
			},
		) {
			return;
		}
	}
	if c.dims.get("accepted").copied().unwrap_or(0) < 1000 {
		c.fails.push(("weight functions of the supported forms".into(), "nearly all are rejected".into()));
	}
	// other forms that have a value: rejected, or that value
	for _ in 0..c.n(6_000) {
		let d = c.rng.below(4);
		let (s, t, p) = if c.rng.chance(1, 4) {
			let (s, x) = foreign(&mut c.rng, d);
			(s, x, 0)
		} else {
			foreign_weight(&mut c.rng, d)
		};
		let src = imp(&[("f".into(), s.clone())]);
		let parsed = std::panic::catch_unwind(|| pallet::parse_content("p.rs".into(), src));
		c.dim(if matches!(parsed, Ok(Ok(_))) { "other form accepted" } else { "other form rejected" });
		if !c.case(
			|| format!("weight function {s}"),
			|| {
				let got = match parsed {
					Ok(Ok(g)) => g,
					Ok(Err(_)) => return Ok(()),
					Err(_) => return Err("panic".into()),
				};
				need!(got.len() == 1, "{} functions", got.len());
				same(&got[0].term, &lit(t), &lit(p))
			},
		) {
			return;
		}
	}
	// forms without an equation must not be accepted with parts dropped
	let n = |x: u128| lit(x);
	let neg: Vec<(&str, Option<(SimpleTerm, SimpleTerm)>)> = vec![
		("Weight::from_parts(1, 2, 3)", None),
		("Weight::from_parts(1)", None),
		("Weight::from_ref_time(1, 2)", None),
		("Weight::from_ref_time()", None),
		("Weight::zero(5)", None),
		("Weight::from_ref_time(5).saturating_add(Weight::zero(), Weight::zero())", None),
		("Weight::from_ref_time(5).saturating_add()", None),
		("Weight::from_ref_time(5).saturating_sub(Weight::from_ref_time(2))", Some((n(3), n(0)))),
		("Weight::from_ref_time(50 - 20)", Some((n(30), n(0)))),
		("Weight::from_ref_time(50 + 20)", Some((n(70), n(0)))),
		("Weight::from_ref_time(50 * 20)", Some((n(1000), n(0)))),
		("Weight::from_ref_time(50 / 20)", Some((n(2), n(0)))),
		("Weight::from_ref_time(-5)", None),
		("Weight::from_ref_time(5).saturating_mul(7)", Some((n(35), n(0)))),
		("Weight::from_ref_time(5).mul(7)", Some((n(35), n(0)))),
		("Weight::from_ref_time(5) + Weight::from_ref_time(7)", Some((n(12), n(0)))),
		("Weight::from_all(5)", Some((n(5), n(5)))),
		("Weight::from_ref_time(5).set_proof_size(7)", Some((n(5), n(7)))),
		("Weight::from_ref_time(5).max(Weight::from_ref_time(7))", Some((n(7), n(0)))),
		("T::DbWeight::get().reads_writes(3, 4)", Some((add(mul(n(3), v("READ")), mul(n(4), v("WRITE"))), n(0)))),
		("T::DbWeight::get().reads(3, 4)", None),
		("T::DbWeight::get().reads()", None),
		("T::DbWeight::get(5).reads(1)", None),
		("T::Other::get().reads(1)", None),
		("Foo::reads(5)", None),
		("T::DbWeight::get().read", None),
		("{ let x = 5; Weight::from_ref_time(x) }", Some((n(5), n(0)))),
		("Weight::from_ref_time(5); Weight::from_ref_time(7)", Some((n(7), n(0)))),
		("let x = 5; Weight::from_ref_time(7)", Some((n(7), n(0)))),
		("Weight::from_ref_time(5.5)", None),
		("Weight::from_ref_time(b'a')", None),
		("Weight::from_ref_time(true)", None),
		("Weight::from_ref_time(340282366920938463463374607431768211456)", None),
		("(5 as Weight).saturating_sub(3 as Weight)", Some((n(2), n(0)))),
		("(5 as Weight).saturating_add(3 as Weight, 2)", None),
		("(5 as Weight).saturating_add(3 as Weight)", Some((n(8), n(0)))),
		("(5 as Weight).saturating_mul(3 as Weight)", Some((n(15), n(0)))),
		("Weight::from_parts(10, 20).saturating_add(Weight::from_parts(0, 3).saturating_mul(n.into())).saturating_add(T::DbWeight::get().reads((2_u64).saturating_mul(n.into())))", Some((add(n(10), mul(mul(n(2), v("n")), v("READ"))), add(n(20), mul(n(3), v("n")))))),
		("return Weight::from_ref_time(5)", Some((n(5), n(0)))),
		("if true { Weight::from_ref_time(5) } else { Weight::from_ref_time(7) }", None),
	];
	for (s, want) in neg {
		let src = imp(&[("f".into(), s.into())]);
		c.dim("fixed form");
		c.case(
			|| format!("weight function {s}"),
			|| {
				let got = match pallet::parse_content("p.rs".into(), src) {
					Ok(g) => g,
					Err(_) => return Ok(()),
				};
				need!(got.len() == 1, "{} functions", got.len());
				match &want {
					None => Err(format!("accepted as {:?}", got[0].term)),
					Some((t, p)) => same(&got[0].term, t, p),
				}
			},
		);
	}
	for (s, t, p) in [
		("Weight::from_ref_time(n.into())", v("n"), n(0)),
		("Weight::from_parts(n.into(), 5)", v("n"), n(5)),
		("Weight::from_parts(5, n.into())", n(5), v("n")),
		("Weight::from_proof_size(n.into())", n(0), v("n")),
		("Weight::from_ref_time((5 as u64).saturating_add(n))", add(n(5), v("n")), n(0)),
		("Weight::from_ref_time(n.saturating_mul(m))", mul(v("n"), v("m")), n(0)),
		("(5 as Weight).saturating_add(n as Weight)", add(n(5), v("n")), n(0)),
	] {
		c.finding_case(
			"C03-bare-variable",
			|| format!("weight function {s}"),
			|| {
				let got = match pallet::parse_content("p.rs".into(), imp(&[("f".into(), s.into())])) {
					Ok(g) => g,
					Err(_) => return Ok(()),
				};
				same(&got[0].term, &t, &p)
			},
			// the listed failure: the variable counts in the other dimension as well
			|| {
				let got = pallet::parse_content("p.rs".into(), imp(&[("f".into(), s.into())])).map_err(|e| e.to_string())?;
				let drop = |x: &SimpleTerm| x.clone();
				let lit0 = |x: &SimpleTerm| only_bare(x);
				let (wt, wp) = match s {
					s if s.contains("from_proof_size") => (lit0(&p), drop(&p)),
					s if s.starts_with("Weight::from_parts(n") => (drop(&t), add(p.clone(), v("n"))),
					s if s.starts_with("Weight::from_parts(5") => (add(t.clone(), v("n")), drop(&p)),
					_ => (drop(&t), lit0(&t)),
				};
				same(&got[0].term, &wt, &wp)
			},
		);
	}
}
/// The part of an equation that has no literals.
fn only_bare(t: &SimpleTerm) -> SimpleTerm {
	match t {
		Term::Add(x, y) => add(only_bare(x), only_bare(y)),
		Term::Mul(x, y) => mul(only_bare(x), only_bare(y)),
		Term::Var(_) => t.clone(),
		_ => lit(0),
	}
}

// ---- C04 ----
pub fn c04(c: &mut Ctx) {
	let noise = [
		"/// Storage: `System::Account` (r:1 w:1)",
		"/// Proof: `System::Account` (`max_values`: None, `max_size`: Some(128), added: 2603, mode: `MaxEncodedLen`)",
		"/// The range of component n is [0, 5].",
		"/// The range of component `n` is unknown.",
		"/// Measured: `0`",
		"/// [3, 4]",
		"/// `[3, 4]`",
		"#[inline]",
		"#[allow(unused)]",
		"#[foo = \"The range of component `n` is `[7, 9]`.\"]",
		"#[cfg(feature = \"The range of component `n` is `[7, 9]`.\")]",
		"// The range of component `n` is `[7, 9]`.",
		"/// The range of component `n` is `[-7, 9]`.",
		"/// The range of component `n` is `[a, 9]`.",
		"/// The range of component `n` is `(7, 9)`.",
	];
	let names = ["n", "m", "x", "a_b", "long_name_1", "r2"];
	let group = |n: u64| {
		let s = n.to_string();
		let mut o = String::new();
		for (i, ch) in s.chars().enumerate() {
			if i > 0 && (s.len() - i) % 3 == 0 {
				o.push('_');
			}
			o.push(ch);
		}
		o
	};
	let bound = |r: &mut Rng| -> u64 {
		if let Some(x) = r.odd_len(u32::MAX as usize) {
			return x as u64;
		}
		match r.below(6) {
			0 => 0,
			1 => 1,
			2 => u32::MAX as u64,
			3 => r.below(100_000) as u64,
			4 => u32::MAX as u64 - r.below(3) as u64,
			_ => r.below(50) as u64,
		}
	};
	for _ in 0..c.n(12_000) {
		let mut lines = vec![];
		// the lines of one component may be repeated, possibly with other bounds
		let mut want: BTreeMap<String, Vec<(u64, u64)>> = BTreeMap::new();
		let mut bad = false;
		for _ in 0..c.rng.below(6) {
			if c.rng.chance(1, 3) {
				lines.push(c.rng.pick(&noise).to_string());
				continue;
			}
			let mut n = c.rng.name(&names).to_string();
			if c.rng.chance(1, 12) {
				let k = c.rng.below(40);
				n = format!("{n}_{}", "component_name_of_some_length_without_end"[..k].trim_end_matches('_'));
			}
			let again = want.contains_key(&n.replace('_', ""));
			if again && c.rng.chance(2, 3) {
				continue;
			}
			let (mut lo, mut hi) = (bound(&mut c.rng), bound(&mut c.rng));
			if lo > hi && !c.rng.chance(1, 8) {
				std::mem::swap(&mut lo, &mut hi);
			}
			if c.rng.chance(1, 25) {
				hi = u32::MAX as u64 + 1 + c.rng.below(1000) as u64;
			}
			if c.rng.chance(1, 60) {
				lo = u32::MAX as u64 + 1;
				hi = u32::MAX as u64 + 3;
			}
			bad |= lo > hi || hi > u32::MAX as u64;
			want.entry(n.replace('_', "")).or_default().push((lo, hi));
			let us = c.rng.chance(1, 2);
			let cut = c.rng.below(9);
			let f = |x: u64| match (us, cut) {
				(true, k) if k > 0 && x >= 10 => {
					// separators may stand anywhere
					let s = x.to_string();
					let k = 1 + k % (s.len() - 1);
					format!("{}_{}", &s[..k], &s[k..])
				},
				(true, _) => group(x),
				_ => x.to_string(),
			};
			let sep = *c.rng.pick(&[", ", ",", ",  "]);
			let text = match c.rng.below(4) {
				0 => format!("The range of component `{n}` is `[{}{sep}{}]`.", f(lo), f(hi)),
				1 => format!("The range of component `{n}` is `[{}{sep}{}]`", f(lo), f(hi)),
				2 => format!("  Component `{n}` ranges over `[{}{sep}{}]` in practice.", f(lo), f(hi)),
				_ => format!("range `{n}` `[{}{sep}{}]`.", f(lo), f(hi)),
			};
			lines.push(if c.rng.chance(1, 5) { format!("#[doc = \"{text}\"]") } else { format!("/// {text}") });
		}
		c.dim(if bad { "invalid" } else if want.is_empty() { "none" } else { "valid" });
		let src = format!(
			"impl<T> WeightInfo for SubstrateWeight<T> {{\n{}\nfn f(n: u32) -> Weight {{ Weight::from_parts(5, 6) }}\nfn g() -> Weight {{ Weight::zero() }} }}",
			lines.join("\n")
		);
		if !c.case(
			|| format!("doc lines\n{}", lines.join("\n")),
			|| {
				let got = pallet::parse_content("p.rs".into(), src);
				if bad {
					need!(got.is_err(), "accepted as {:?}", got.unwrap()[0].comp_ranges);
					return Ok(());
				}
				let got = got.map_err(|e| format!("rejected: {e}"))?;
				need!(got.len() == 2, "{} functions", got.len());
				let g: BTreeMap<String, (u64, u64)> =
					got[0].comp_ranges.clone().unwrap_or_default().into_iter().map(|(k, r)| (k.replace('_', ""), (r.min as u64, r.max as u64))).collect();
				need!(g.keys().eq(want.keys()) && g.iter().all(|(k, r)| want[k].contains(r)), "ranges {g:?} instead of {want:?}");
				need!(got[1].comp_ranges.as_ref().map_or(true, |m| m.is_empty()), "the other function has ranges {:?}", got[1].comp_ranges);
				Ok(())
			},
		) {
			return;
		}
	}
}

// ---- C12 ----
fn write(p: &Path, s: &[u8]) {
	std::fs::create_dir_all(p.parent().unwrap()).unwrap();
	std::fs::write(p, s).unwrap();
}
pub fn c12(c: &mut Ctx) {
	let dir = c.scratch.join("c12");
	let _ = std::fs::remove_dir_all(&dir);
	// files: path, functions (None: does not parse)
	let mut files: Vec<(PathBuf, Option<Vec<String>>)> = vec![];
	for i in 0..10usize {
		let sub = ["", "sub/", "x/y/"][i % 3];
		let p = dir.join(format!("{sub}w{i}.rs"));
		let good = i % 2 == 0;
		if good {
			let fns: Vec<(String, String)> = (0..1 + i % 3).map(|k| (format!("f{i}_{k}"), format!("Weight::from_parts({}, {k})", i * 10))).collect();
			write(&p, imp(&fns).as_bytes());
			files.push((p, Some(fns.into_iter().map(|f| f.0).collect())));
		} else {
			match i {
				1 => write(&p, b"this is not rust"),
				3 => write(&p, b"pub fn no_weights() {}"),
				5 => {
					// not text: all else would be fine
					let mut s = b"// \xff\xfe caf\xe9\n".to_vec();
					s.extend(imp(&[("good".into(), "Weight::from_parts(1, 2)".into())]).as_bytes());
					write(&p, &s)
				},
				7 => write(&p, imp(&[("good".into(), "Weight::from_parts(1, 2)".into()), ("bad".into(), "foo(5)".into())]).as_bytes()),
				_ => {}, // missing
			}
			files.push((p, None));
		}
	}
	// other files without weights
	let w = imp(&[("good".into(), "Weight::from_parts(1, 2)".into())]);
	let others: [Vec<u8>; 7] = [
		vec![],
		b" \n\t\n".to_vec(),
		b"// nothing but words\n".to_vec(),
		b"//! words\n".to_vec(),
		format!("{w}}}").into_bytes(),
		w.trim_end().trim_end_matches('}').as_bytes().to_vec(),
		w.replace("Weight::from_parts", "Weight::of").into_bytes(),
	];
	for b in others {
		let p = dir.join(format!("w{}.rs", files.len()));
		write(&p, &b);
		files.push((p, None));
	}
	let odd = files.len();
	{
		let p = dir.join(format!("w{odd}.rs"));
		std::fs::create_dir_all(&p).unwrap();
		files.push((p, None));
	}
	// long files, with the weights at the end or in the middle, and unusual line ends
	let mut sizes = vec![9_000usize, 70_000, 1_200_000];
	sizes.extend(dict().new_nums.iter().filter(|n| (1_000..6_000_000).contains(*n)).map(|n| *n as usize + 100));
	for (k, n) in sizes.into_iter().enumerate() {
		let at = files.len();
		let p = dir.join(format!("w{at}.rs"));
		let line = "// some more words about this file, so that it gets long\n";
		let fill = line.repeat(n / line.len() + 1);
		let body = imp(&[(format!("f{at}_0"), "Weight::from_parts(1, 2)".into())]);
		write(&p, (if k % 2 == 0 { format!("{fill}{body}") } else { format!("{}{body}{fill}", fill.replace('\n', "\r\n")) }).as_bytes());
		files.push((p, Some(vec![format!("f{at}_0")])));
	}
	let mk = |set: &[usize], in_repo: bool| -> Vec<(String, String)> {
		let mut o = vec![];
		for &i in set {
			if let Some(fns) = &files[i].1 {
				let name = if in_repo { files[i].0.strip_prefix(&dir).unwrap() } else { Path::new(files[i].0.file_name().unwrap()) };
				for f in fns {
					o.push((name.display().to_string(), f.clone()));
				}
			}
		}
		o
	};
	let ids = |v: &[ChromaticExtrinsic]| -> Vec<(String, String)> { v.iter().map(|e| (e.pallet.clone(), e.name.clone())).collect() };
	for _ in 0..c.n(1_500) {
		let k = c.rng.odd_len(300).unwrap_or(if c.rng.chance(1, 50) { c.rng.below(160) } else { c.rng.below(7) });
		let good_only = c.rng.chance(1, 3);
		let mut set: Vec<usize> = (0..k).map(|_| if good_only { 2 * c.rng.below(5) } else { c.rng.below(10) }).collect();
		if c.rng.chance(1, 100) {
			set.push(odd + 1 + c.rng.below(files.len() - odd - 1));
		}
		if !good_only && c.rng.chance(1, 3) {
			set.push(10 + c.rng.below(odd + 1 - 10));
		}
		let paths: Vec<PathBuf> = set.iter().map(|i| files[*i].0.clone()).collect();
		let bad: Vec<String> = set.iter().filter(|i| files[**i].1.is_none()).map(|i| files[*i].0.file_name().unwrap().to_string_lossy().into_owned()).collect();
		c.dim(if bad.is_empty() { "all parse" } else { "some fail" });
		if !c.case(
			|| format!("files {}", set.iter().map(|i| format!("w{i}{}", if files[*i].1.is_some() { "" } else { "(bad)" })).collect::<Vec<_>>().join(" ")),
			|| {
				for in_repo in [false, true] {
					let want = mk(&set, in_repo);
					let (strict, lenient) = if in_repo {
						(pallet::parse_files_in_repo(&dir, &paths), pallet::try_parse_files_in_repo(&dir, &paths))
					} else {
						(pallet::parse_files(&paths), pallet::try_parse_files(&paths))
					};
					need!(ids(&lenient) == want, "ignoring errors gives {:?} instead of {want:?}", ids(&lenient));
					match strict {
						Ok(g) => {
							need!(bad.is_empty(), "no error although {bad:?} do not parse");
							need!(ids(&g) == want, "gives {:?} instead of {want:?}", ids(&g));
						},
						Err(e) => {
							need!(!bad.is_empty(), "fails with `{e}`");
							need!(bad.iter().any(|b| e.contains(b.as_str())), "error `{e}` does not name one of {bad:?}");
						},
					}
				}
				Ok(())
			},
		) {
			break;
		}
	}
	for (p, fns) in &files {
		c.case(|| format!("parsing {}", p.display()), || {
			let got = match try_parse_file(&dir, p) {
				Some(ParsedFile::Pallet(v)) => Some(v.into_iter().map(|e| e.name).collect::<Vec<_>>()),
				Some(_) => return Err("is taken for another kind of file".into()),
				None => None,
			};
			need!(&got == fns, "functions {got:?} instead of {fns:?}");
			Ok(())
		});
	}
	let _ = std::fs::remove_dir_all(&dir);
}

// ---- C14 ----
/// A number, name or text the source mentions.
fn odd_leaf(r: &mut Rng) -> Option<String> {
	if let Some(x) = r.odd() {
		return Some(format!("{x}"));
	}
	let s = r.odd_str()?;
	Some(if syn::parse_str::<syn::Expr>(s).is_ok() && r.chance(2, 3) { s.to_string() } else { format!("{s:?}") })
}
fn any_expr(r: &mut Rng, d: usize) -> String {
	let leaf = ["5", "5_u64", "0xff", "340282366920938463463374607431768211456", "1.5", "\"s\"", "b\"s\"", "b'x'", "'c'", "true", "c\"x\"", "n", "T::X::get", "Self::f", "<T as Foo>::BAR", "::a::b", "()", "[]", "-5", "!x", "&x", "*x", "x.y", "x.0", "x[0]", "..", "1..2", "return", "break", "async {}", "unsafe {}", "{}", "{ 5 }", "|x| x", "x?", "x = 5", "a + b", "a as u64", "m!()", "vec![1]", "S { a: 1 }", "S { a: 1, ..d }", "loop {}", "while x {}", "if x { 1 } else { 2 }", "match x { _ => 1 }", "(1, 2)", "[1; 2]", "_", "1u8", "1f32", "5i128"];
	if d == 0 || r.chance(1, 6) {
		return odd_leaf(r).unwrap_or_else(|| r.pick(&leaf).to_string());
	}
	let mut a = |r: &mut Rng| any_expr(r, d - 1);
	match r.below(16) {
		0 => format!("({})", a(r)),
		1 => format!("({}) as {}", a(r), r.pick(&["u64", "Weight", "u8", "&str", "fn()"])),
		2 => format!("({}).{}({})", a(r), r.pick(&["saturating_add", "saturating_mul", "reads", "writes", "into", "ref_time", "foo", "saturating_add::<u8>"]), a(r)),
		3 => format!("({}).{}()", a(r), r.pick(&["saturating_add", "saturating_mul", "reads", "writes", "into", "ref_time", "foo"])),
		4 => format!("({}).{}({}, {})", a(r), r.pick(&["saturating_add", "reads", "into", "ref_time"]), a(r), a(r)),
		5 | 6 => format!("Weight::{}({})", r.pick(&["from_ref_time", "from_proof_size", "from_parts", "zero", "foo"]), a(r)),
		7 | 8 => format!("Weight::from_parts({}, {})", a(r), a(r)),
		9 => format!("{}.reads({})", r.pick(&["T::DbWeight::get()", "T::DbWeight::get", "RocksDbWeight::get()", "get()", "ParityDbWeight::get(1)"]), a(r)),
		10 => format!("{}.writes({})", r.pick(&["T::DbWeight::get()", "x", "(T::DbWeight::get)()"]), a(r)),
		11 => format!("({}) {} ({})", a(r), r.pick(&["+", "*", "-", "/", "%", "<<", "&&", "==", "+=", "^"]), a(r)),
		12 => format!("({})({})", a(r), a(r)),
		13 => format!("Weight::zero({})", if r.chance(1, 2) { a(r) } else { ",".into() }),
		14 => format!("{{ {} }}", a(r)),
		_ => format!("f::<{}>({})", r.pick(&["u8", "T", "5"]), a(r)),
	}
}
/// A number as weight files write them, with an occasional oddity.
fn near_scalar(r: &mut Rng, d: usize) -> String {
	if let Some(s) = odd_leaf(r) {
		return s;
	}
	match r.below(if d == 0 { 5 } else { 9 }) {
		0 | 1 => r.pick(&["0", "7", "1_000", "25_000_u64", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "0xff", "1.5", "\"x\"", "-5"]).to_string(),
		2 => "n".into(),
		3 => "(n as u64)".into(),
		4 => "constants::WEIGHT_REF_TIME_PER_NANOS".into(),
		5 => format!("{}.into()", near_scalar(r, d - 1)),
		6 => format!("({} as {})", near_scalar(r, d - 1), r.pick(&["u64", "Weight", "u8"])),
		7 => format!("{}.saturating_{}({})", near_scalar(r, d - 1), r.pick(&["add", "mul"]), near_args(r, d - 1, 1, &near_scalar)),
		_ => format!("({} {} {})", near_scalar(r, d - 1), r.pick(&["+", "*", "-"]), near_scalar(r, d - 1)),
	}
}
fn near_args(r: &mut Rng, d: usize, n: usize, f: &dyn Fn(&mut Rng, usize) -> String) -> String {
	let n = match r.below(8) {
		0 => n + 1,
		1 => n.saturating_sub(1),
		2 => 0,
		_ => n,
	};
	let v: Vec<String> = (0..n).map(|_| f(r, d)).collect();
	v.join(", ") + if n > 0 && r.chance(1, 8) { "," } else { "" }
}
/// A weight expression as weight files write them, now and then with a wrong number of arguments.
fn near_expr(r: &mut Rng, d: usize) -> String {
	let t = *r.pick(&["Weight", "Weight", "frame_support::weights::Weight", "Self", ""]);
	match r.below(if d == 0 { 6 } else { 10 }) {
		0 | 1 => format!("{t}::from_parts({})", near_args(r, 1, 2, &near_scalar)),
		2 => format!("{t}::from_ref_time({})", near_args(r, 1, 1, &near_scalar)),
		3 => format!("{t}::from_proof_size({})", near_args(r, 1, 1, &near_scalar)),
		4 => format!("{t}::zero({})", near_args(r, 0, 0, &near_scalar)),
		5 => format!("{}.{}({})", r.pick(&["T::DbWeight::get()", "RocksDbWeight::get()", "T::DbWeight::get(5)", "ParityDbWeight::get()"]), r.pick(&["reads", "writes", "reads_writes"]), near_args(r, 1, 1, &near_scalar)),
		6 => format!("({})", near_expr(r, d - 1)),
		7 => format!("{}.saturating_add({})", near_expr(r, d - 1), near_args(r, d - 1, 1, &near_expr)),
		8 => format!("{}.saturating_mul({})", near_expr(r, d - 1), near_args(r, 1, 1, &near_scalar)),
		_ => format!("{}.{}({})", near_expr(r, d - 1), r.pick(&["into", "ref_time", "add"]), near_args(r, 0, 0, &near_scalar)),
	}
}
fn any_item(r: &mut Rng, weights: bool) -> String {
	let e = |r: &mut Rng| {
		let d = r.below(5);
		any_expr(r, d)
	};
	let stmt = |r: &mut Rng| match r.below(8) {
		0 => format!("let x = {};", any_expr(r, 2)),
		1 => "fn g() {}".to_string(),
		2 => "m!{}".to_string(),
		3 => "m!();".to_string(),
		4 => ";".to_string(),
		5 => format!("{};", any_expr(r, 3)),
		_ => String::new(),
	};
	match r.below(if weights { 9 } else { 6 }) {
		0 => format!("const X: u8 = {};", e(r)),
		1 => format!("fn f() -> Weight {{ {} }}", e(r)),
		2 => format!("mod {} {{ const A: u8 = 1; }}", r.pick(&["constants", "other"])),
		3 => "mod constants;".into(),
		4 => format!("{} {{ }}", r.pick(&["other!", "a::b!", "macro_rules! m"])),
		5 => "pub struct S<T>(T);".into(),
		6 => {
			let k = r.below(4);
			let ty = *r.pick(&["SubstrateWeight<T>", "WeightInfo<T>", "()", "(u8,)", "Foo", "a::SubstrateWeight", "::SubstrateWeight", "&T", "[u8]", "<T as X>::Y", "dyn X", "fn()"]);
			let mut s = format!("impl<T> {}{ty} {{\n", r.pick(&["WeightInfo for ", "", "!Send for ", "a::b::WeightInfo for "]));
			for i in 0..k {
				s += *r.pick(&["", "/// The range of component `n` is `[0, 5]`.\n", "/// The range of component `n` is `[9, 5]`.\n", "/// The range of component `n` is `[0, 99999999999]`.\n", "/// The range of component `` is `[,]`.\n", "/// `n` `[_, _]`\n", "#[doc(hidden)]\n", "#[doc = include_str!(\"x\")]\n", "#[doc]\n", "#[a::b = 5]\n"]);
				let ret = *r.pick(&["-> Weight", "-> Weight", "-> Weight", "", "-> u8", "-> (Weight,)", "-> a::Weight", "-> MyWeight", "-> !", "-> &Weight", "-> impl Weight"]);
				s += &match r.below(8) {
					0 => format!("const C{i}: Weight = {};\n", e(r)),
					1 => format!("type T{i} = Weight;\n"),
					2 => "m!{}\n".to_string(),
					_ => format!("fn f{i}(n: u32) {ret} {{ {} {} }}\n", stmt(r), if r.chance(7, 8) { e(r) } else { String::new() }),
				};
			}
			s + "}"
		},
		7 => {
			let name = *r.pick(&["RocksDbWeight", "ParityDbWeight", "BlockExecutionWeight", "ExtrinsicBaseWeight", "Other", "_"]);
			let ty = *r.pick(&["RuntimeDbWeight", "Weight", "a::Weight", "(u8,)", "&Weight", "[Weight; 2]"]);
			let val = match r.below(4) {
				0 => e(r),
				1 => format!("RuntimeDbWeight {{ read: {}, write: {} }}", e(r), e(r)),
				2 => format!("RuntimeDbWeight {{ {}: {}, {}: {}, ..d }}", r.pick(&["read", "write", "0", "x"]), e(r), r.pick(&["read", "write", "1"]), e(r)),
				_ => format!("{} {} {}", any_expr(r, 2), r.pick(&["*", "+", "-", "=", "<<="]), any_expr(r, 2)),
			};
			let mac = format!("{} {{ {}const {name}: {ty} = {val}; }}", r.pick(&["parameter_types!", "frame_support::parameter_types!", "other!"]), r.pick(&["pub ", "", "#[a] pub(crate) "]));
			if r.chance(1, 2) {
				format!("pub mod constants {{ use x::y; {mac} }}")
			} else {
				mac
			}
		},
		_ => "parameter_types! { }".into(),
	}
}
/// The same source with some names and comments written in an unusual way.
fn perturb(r: &mut Rng, src: String) -> String {
	if r.chance(2, 3) {
		return src;
	}
	let mut s: Vec<char> = src.chars().collect();
	for _ in 0..1 + r.below(3) {
		let word = |c: char| c.is_alphanumeric() || c == '_';
		let starts: Vec<usize> = (0..s.len()).filter(|&i| word(s[i]) && !s[i].is_numeric() && (i == 0 || !word(s[i - 1]))).collect();
		if starts.is_empty() {
			break;
		}
		let i = *r.pick(&starts);
		let k = (i..s.len()).find(|&k| !word(s[k])).unwrap_or(s.len());
		let letter = *r.pick(&['é', 'Ω', '日', 'ß', '\u{10400}', 'x', '_', 'İ']);
		match r.below(6) {
			0 => drop(s.splice(i..k, [letter])),
			1 => s.insert(i, letter),
			2 => s.insert(k, letter),
			3 => {
				let at = i + r.below(k - i);
				s[at] = letter;
			},
			4 => {
				let n = 1 + r.below(80);
				drop(s.splice(i..i, (0..n).map(|_| letter).collect::<Vec<_>>()))
			},
			_ => {
				let most = if r.chance(1, 3) { 400 } else { 30 };
				let n = r.below(most);
				let text: String = (0..n).map(|_| *r.pick(&['a', ' ', '`', '[', ']', ',', '0', '9', '_', 'é', '…', '\\', '"', '日', '\'', '#', '.'])).collect();
				let at = s[..i].iter().rposition(|c| *c == '\n').map_or(0, |p| p + 1);
				drop(s.splice(at..at, format!("/// {text}\n").chars().collect::<Vec<_>>()))
			},
		}
	}
	s.into_iter().collect()
}
pub fn c14(c: &mut Ctx) {
	let all = |src: &str| -> Result<(bool, bool, bool), String> {
		Ok((
			pallet::parse_content("p.rs".into(), src.to_string()).is_ok(),
			storage::parse_content(src.to_string()).is_ok(),
			overhead::parse_content(src.to_string()).is_ok(),
		))
	};
	for j in 0..c.n(25_000) {
		let weights = j % 6 != 0;
		let k = 1 + c.rng.below(3);
		let src = (0..k).map(|_| any_item(&mut c.rng, weights)).collect::<Vec<_>>().join("\n");
		let src = perturb(&mut c.rng, src);
		let ok = syn::parse_file(&src).is_ok();
		c.dim(if ok { "valid Rust" } else { "not Rust" });
		if !c.case(|| format!("source\n{src}"), || {
			let r = all(&src)?;
			need!(weights || r == (false, false, false), "parsed {r:?} without a weight implementation");
			Ok(())
		}) {
			return;
		}
	}
	// weight functions that are almost right
	for _ in 0..c.n(20_000) {
		let k = 1 + c.rng.below(2);
		let mut src = format!("impl WeightInfo for {} {{\n", c.rng.pick(&["()", "WeightInfo", "SubstrateWeight<T>"]));
		for i in 0..k {
			let r = &mut c.rng;
			let d = r.below(4);
			src += &format!("fn f{i}(n: u32) -> Weight {{ {} }}\n", near_expr(r, d));
		}
		src += "}\n";
		let src = match c.rng.below(6) {
			0 => {
				let d = c.rng.below(3);
				let r = &mut c.rng;
				format!("parameter_types! {{ pub const {}: Weight = {}; }}", r.pick(&["BlockExecutionWeight", "ExtrinsicBaseWeight"]), near_expr(r, d))
			},
			1 => {
				let r = &mut c.rng;
				let (a, b) = (near_scalar(r, 2), near_scalar(r, 2));
				let f = ["read", "write", "reads", "0", "r#read"];
				format!("parameter_types! {{ pub const {}: RuntimeDbWeight = RuntimeDbWeight {{ {}: {a}, {}: {b} {} }}; }}", r.pick(&["RocksDbWeight", "ParityDbWeight"]), r.pick(&f), r.pick(&f), r.pick(&["", ", x: 1", ", ..d"]))
			},
			_ => src,
		};
		let src = perturb(&mut c.rng, src);
		let ok = syn::parse_file(&src).is_ok();
		c.dim(if ok { "almost right" } else { "not Rust" });
		if !c.case(|| format!("source\n{src}"), || all(&src).map(|_| ())) {
			return;
		}
	}
	// real files, mutated
	let mut files = vec![];
	let mut stack = vec![PathBuf::from("/repo/test_data")];
	while let Some(d) = stack.pop() {
		for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				stack.push(p);
			} else if let Ok(s) = std::fs::read_to_string(&p) {
				files.push(s);
			}
		}
	}
	files.sort();
	files.push(imp(&[("f".into(), "Weight::from_parts(1, 2).saturating_add(T::DbWeight::get().reads(3))".into())]));
	for _ in 0..c.n(400) {
		let mut s: Vec<char> = c.rng.pick(&files).chars().take(20_000).collect();
		for _ in 0..1 + c.rng.below(3) {
			if s.is_empty() {
				break;
			}
			let i = c.rng.below(s.len());
			match c.rng.below(4) {
				0 => drop(s.remove(i)),
				1 => s.insert(i, *c.rng.pick(&['(', ')', '0', '_', '"', '`', '\\', 'é', '-', '.', ',', ';', '\u{0}'])),
				2 => {
					let k = (i + 1 + c.rng.below(30)).min(s.len());
					drop(s.drain(i..k))
				},
				_ => {
					let k = (i + 1 + c.rng.below(40)).min(s.len());
					let part: Vec<char> = s[i..k].to_vec();
					let at = c.rng.below(s.len());
					s.splice(at..at, part);
				},
			}
		}
		let src: String = s.into_iter().collect();
		c.dim("mutated file");
		if !c.case(|| format!("source\n{src}"), || all(&src).map(|_| ())) {
			return;
		}
	}
}

// ---- C22 ----
fn const_expr(r: &mut Rng, d: usize) -> (String, SimpleTerm) {
	let vars = ["WEIGHT_PER_NANOS", "constants::WEIGHT_REF_TIME_PER_NANOS", "X"];
	if d == 0 || r.chance(1, 4) {
		return if r.chance(2, 3) {
			let (s, n) = numlit(r);
			(s, lit(n))
		} else {
			let n = *r.pick(&vars);
			(n.into(), v(n))
		};
	}
	let (a, x) = const_expr(r, d - 1);
	let y = if r.chance(1, 2) {
		let (s, n) = numlit(r);
		(s, lit(n))
	} else {
		let n = *r.pick(&vars);
		(n.to_string(), v(n))
	};
	if r.chance(1, 2) && !a.contains(" + ") {
		(format!("{a} * {}", y.0), mul(x, y.1))
	} else {
		(format!("{a} + {}", y.0), add(x, y.1))
	}
}
fn eq(got: &SimpleTerm, want: &SimpleTerm) -> Res {
	for k in [3u128, 1000] {
		let g = |n: &str| match n {
			"WEIGHT_PER_NANOS" => Some(k),
			"constants::WEIGHT_REF_TIME_PER_NANOS" => Some(k + 5),
			"X" => Some(2 * k + 1),
			_ => None,
		};
		let (a, w) = (poly(got, &|x| *x, &g), poly(want, &|x| *x, &g));
		need!(a == w, "`{got}` is {a:?} instead of {w:?}");
	}
	Ok(())
}
pub fn c22(c: &mut Ctx) {
	let wrap = |r: &mut Rng, m: String| match r.below(6) {
		0 | 3 => m,
		// other items around the constants, at both levels
		4 => {
			let other = ["mod a {}", "mod constants {}", "mod constants;", "pub mod constants { use x::y; }", "const A: u8 = 1;", "parameter_types! {}", "frame_support::parameter_types! { pub const A: u8 = 1; }", "other! { x }", "use a::b;", "struct S;", "mod constants { mod constants {} }", "parameter_types! { + }"];
			let mut some = |n: usize| (0..r.below(n)).map(|_| *r.pick(&other)).collect::<Vec<_>>().join("\n");
			let (a, b, c, d) = (some(3), some(4), some(4), some(3));
			format!("{a}\npub mod constants {{\n{b}\n{m}\n{c}\n}}\n{d}")
		},
		1 => format!("pub mod constants {{\n use frame_support::weights::constants;\n{m}\n}}\nmod test {{}}"),
		_ => format!("use frame_support::parameter_types;\nfn x() {{}}\n{m}"),
	};
	let mac = ["parameter_types!", "frame_support::parameter_types!"];
	for _ in 0..c.n(6_000) {
		let r = &mut c.rng;
		let mut bad = None;
		let rocks = r.chance(1, 2);
		let name = match r.below(10) {
			0 => {
				bad = Some("name");
				*r.pick(&["RocksDb", "ParityDB", "parity_db", "rocks_db", "rocksdb", "ParityDBWeight", "RocksDBWeight", "RocksDbWeight_", "ROCKSDBWEIGHT", "PARITY_DB_WEIGHT", "OtherDbWeight", "RocksDbWeights", "BlockExecutionWeight", "rocksDbWeight", "MyRocksDbWeight", "MyParityDbWeight", "ParityDbWeights", "ParityDbWeight2", "parityDbWeight", "Parity", "Rocks"])
			},
			_ if rocks => "RocksDbWeight",
			_ => "ParityDbWeight",
		};
		let ty = if r.chance(1, 10) {
			bad = Some("type");
			*r.pick(&["Weight", "DbWeight", "u64", "(RuntimeDbWeight,)"])
		} else {
			"RuntimeDbWeight"
		};
		let st = if r.chance(1, 15) {
			bad = Some("struct");
			"Other"
		} else {
			"RuntimeDbWeight"
		};
		let (dr, dw) = (r.below(3), r.below(3));
		let (rs, rt) = const_expr(r, dr);
		let (ws, wt) = const_expr(r, dw);
		let mut fields = vec![format!("read: {rs}"), format!("write: {ws}")];
		if r.chance(1, 2) {
			fields.reverse();
		}
		if r.chance(1, 8) {
			bad = Some("fields");
			match r.below(4) {
				0 => drop(fields.pop()),
				1 => drop(fields.remove(0)),
				2 => fields[0] = "reads: 5".into(),
				_ => fields[1] = "other: 5".into(),
			}
		}
		if bad != Some("fields") && r.chance(1, 12) {
			// an operator that is neither the sum nor the product
			bad = Some("operator");
			let op = *r.pick(&["-", "/", "%", "|", "&", "^", "<<", ">>", "&&", "||", "==", "<", ">=", "!="]);
			let k = r.below(2);
			let (a, b) = fields[k].split_once(": ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
			fields[k] = if r.chance(1, 2) { format!("{a}: ({b}) {op} 2") } else { format!("{a}: 7 {op} 2") };
		}
		let m = format!("{} {{\n /// doc\n pub const {name}: {ty} = {st} {{ {}{} }};\n}}", r.pick(&mac), fields.join(", "), r.pick(&["", ","]));
		let src = wrap(r, m);
		c.dim(if bad.is_some() { "database, invalid" } else { "database" });
		if !c.case(
			|| format!("source\n{src}"),
			|| {
				let got = storage::parse_content(src.clone());
				if let Some(why) = bad {
					need!(got.is_err(), "accepted despite its {why}: {got:?}");
					return Ok(());
				}
				let got = got.map_err(|e| format!("rejected: {e}"))?;
				need!(got.db == if rocks { storage::Db::Rocks } else { storage::Db::Parity }, "is for {:?}", got.db);
				eq(&got.weights.read, &rt).map_err(|e| format!("read cost {e}"))?;
				eq(&got.weights.write, &wt).map_err(|e| format!("write cost {e}"))?;
				need!(overhead::parse_content(src.clone()).is_err(), "is taken for an overhead file as well");
				Ok(())
			},
		) {
			return;
		}
	}
	// other forms that have a value: rejected, or that value
	for _ in 0..c.n(5_000) {
		let d = c.rng.below(4);
		let (rs, rt) = foreign(&mut c.rng, d);
		let d = if c.rng.chance(1, 2) { 0 } else { d };
		let (ws, wt) = foreign(&mut c.rng, d);
		let src = wrap(&mut c.rng, format!("parameter_types! {{\n pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {rs}, write: {ws} }};\n}}"));
		let got = std::panic::catch_unwind(|| storage::parse_content(src.clone()));
		c.dim(if matches!(got, Ok(Ok(_))) { "other form accepted" } else { "other form rejected" });
		if !c.case(
			|| format!("source\n{src}"),
			|| {
				let got = match got {
					Ok(Ok(g)) => g,
					Ok(Err(_)) => return Ok(()),
					Err(_) => return Err("panic".into()),
				};
				eq(&got.weights.read, &lit(rt)).map_err(|e| format!("read cost {e}"))?;
				eq(&got.weights.write, &lit(wt)).map_err(|e| format!("write cost {e}"))
			},
		) {
			return;
		}
	}
	for _ in 0..c.n(6_000) {
		let r = &mut c.rng;
		let mut bad = None;
		let block = r.chance(1, 2);
		let name = match r.below(10) {
			0 => {
				bad = Some("name");
				*r.pick(&["BlockExecution", "RocksDbWeight", "BaseExtrinsicWeight", "ExtrinsicBaseWeights", "Weight"])
			},
			_ if block => "BlockExecutionWeight",
			_ => "ExtrinsicBaseWeight",
		};
		let ty = if r.chance(1, 10) {
			bad = Some("type");
			*r.pick(&["RuntimeDbWeight", "u64", "Weights", "(Weight,)"])
		} else {
			"Weight"
		};
		let (s, n) = numlit(r);
		let c1 = *r.pick(&["WEIGHT_PER_NANOS", "constants::WEIGHT_REF_TIME_PER_NANOS", "X"]);
		let mut rej = false;
		let (e, time, proof) = match r.below(9) {
			0 => (format!("{s} * {c1}"), mul(lit(n), v(c1)), lit(0)),
			1 => (format!("{c1} * {s}"), mul(lit(n), v(c1)), lit(0)),
			2 => (format!("{s} + 5"), add(lit(n), lit(5)), lit(0)),
			3 => (format!("Weight::from_ref_time({s})"), lit(n), lit(0)),
			4 => (format!("Weight::from_ref_time({c1}.saturating_mul({s}))"), mul(lit(n), v(c1)), lit(0)),
			5 => (format!("Weight::from_parts({c1}.saturating_mul({s}), 0)"), mul(lit(n), v(c1)), lit(0)),
			6 => (format!("Weight::from_parts({s}, 77)"), lit(n), lit(77)),
			7 => (format!("{c1}.saturating_mul({s})"), mul(lit(n), v(c1)), lit(0)),
			_ => {
				rej = true;
				(format!("{s} {} 2", r.pick(&["-", "/", "%", "<<", "^", ">>", "|", "&", "&&", "||", "==", "<", "!="])), lit(0), lit(0))
			},
		};
		let m = format!("{} {{\n pub const {name}: {ty} = {e};\n}}", r.pick(&mac));
		let src = wrap(r, m);
		let accepted = std::panic::catch_unwind(|| overhead::parse_content(src.clone()).is_ok()).unwrap_or(false);
		c.dim(if bad.is_some() || rej { "overhead, invalid" } else if accepted { "overhead" } else { "overhead, rejected" });
		if !c.case(
			|| format!("source\n{src}"),
			|| {
				let got = overhead::parse_content(src.clone());
				if bad.is_some() || rej {
					need!(got.is_err(), "accepted despite its {}", bad.unwrap_or("operator"));
					return Ok(());
				}
				let t = match got {
					Ok(overhead::Weight::BlockExecution(t)) if block => t,
					Ok(overhead::Weight::ExtrinsicBase(t)) if !block => t,
					Ok(g) => return Err(format!("{name} is labelled {g:?}")),
					Err(e) if e.is_empty() => return Err("empty error".into()),
					Err(_) => return Ok(()),
				};
				eq(&t.simplify(Dimension::Time)?, &time).map_err(|e| format!("time {e}"))?;
				if !matches!(proof, Term::Scalar(0)) || true {
					eq(&t.simplify(Dimension::Proof)?, &proof).map_err(|e| format!("proof {e}"))?;
				}
				Ok(())
			},
		) {
			return;
		}
	}
	if c.dims.get("overhead").copied().unwrap_or(0) < 1000 {
		c.fails.push(("overhead files of the supported forms".into(), "nearly all are rejected".into()));
	}
}
