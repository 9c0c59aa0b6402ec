//! C05, C06, C07, C08: comparing functions and sets of functions.
use crate::{common::*, need, p_term::*};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use subweight_core::{ExtrinsicDiff, 
	compare_extrinsics, compare_files, compare_terms,
	parse::pallet::{ChromaticExtrinsic, ComponentRange, SimpleExtrinsic},
	sanity_check_term,
	scope::SimpleScope,
	term::{ChromaticTerm, SimpleTerm, Term},
	traits::Weight,
	CompareMethod, CompareParams, Dimension, FilterParams, RelativeChange, TermChange, TermDiff,
};

pub const METHODS: [CompareMethod; 5] =
	[CompareMethod::Base, CompareMethod::ExactWorst, CompareMethod::GuessWorst, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic];
pub fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
	CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true }
}
/// The change of a result that did not fail.
pub fn term_of(d: &ExtrinsicDiff) -> Option<&TermChange> {
	match &d.change {
		TermDiff::Changed(t) | TermDiff::Warning(t, _) => Some(t),
		TermDiff::Failed(_) => None,
	}
}
pub fn failed(d: &ExtrinsicDiff) -> bool {
	matches!(d.change, TermDiff::Failed(_))
}
pub fn nofilter() -> FilterParams {
	FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None }
}
fn vars_of(t: &SimpleTerm, out: &mut BTreeSet<String>) {
	match t {
		Term::Var(v) => {
			out.insert(v.0.clone());
		},
		Term::Add(x, y) | Term::Mul(x, y) => {
			vars_of(x, out);
			vars_of(y, out)
		},
		_ => {},
	}
}
type Ranges = Option<HashMap<String, ComponentRange>>;
fn find<'a>(r: &'a Ranges, n: &str) -> Option<&'a ComponentRange> {
	let m = r.as_ref()?;
	m.get(n).or_else(|| m.get(&n.replace('_', "")))
}
/// The lowest and highest value the method prescribes for a component.
fn bounds(o: Option<&SimpleExtrinsic>, n: Option<&SimpleExtrinsic>, name: &str, m: CompareMethod) -> Result<Vec<u32>, ()> {
	let a = o.and_then(|e| find(&e.comp_ranges, name));
	let b = n.and_then(|e| find(&e.comp_ranges, name));
	let exact = matches!(m, CompareMethod::ExactWorst | CompareMethod::ExactAsymptotic);
	let (lo, hi) = match (a, b) {
		(None, None) if exact => return Err(()),
		(None, None) => (0, 100),
		(Some(x), None) | (None, Some(x)) => (x.min, x.max),
		(Some(x), Some(y)) if (x.min, x.max) == (y.min, y.max) => (x.min, x.max),
		(Some(_), Some(_)) if exact => return Err(()),
		(Some(x), Some(y)) => (x.min.min(y.min), x.max.max(y.max)),
	};
	Ok(match m {
		CompareMethod::Base => vec![lo],
		CompareMethod::GuessWorst | CompareMethod::ExactWorst => vec![lo, hi],
		_ => vec![hi],
	})
}
pub struct Want {
	pub corners: Vec<BTreeMap<String, u128>>,
	/// per corner: old and new value
	pub vals: Vec<(Option<u128>, Option<u128>)>,
}
/// What the comparison has to evaluate, or that it has to fail.
pub fn want(o: Option<&SimpleExtrinsic>, n: Option<&SimpleExtrinsic>, m: CompareMethod, rd: u128, wr: u128) -> Result<Want, ()> {
	let mut vs = BTreeSet::new();
	for e in [o, n].into_iter().flatten() {
		vars_of(&e.term, &mut vs);
	}
	vs.remove("READ");
	vs.remove("WRITE");
	if vs.len() > 16 {
		return Err(());
	}
	let mut corners = vec![BTreeMap::new()];
	for v in &vs {
		let bs = bounds(o, n, v, m)?;
		let mut next = vec![];
		for x in &corners {
			for b in &bs {
				let mut y: BTreeMap<String, u128> = x.clone();
				y.insert(v.clone(), *b as u128);
				next.push(y);
			}
		}
		corners = next;
	}
	let mut vals = vec![];
	for k in &corners {
		let g = |s: &str| match s {
			"READ" => Some(rd),
			"WRITE" => Some(wr),
			s => k.get(s).copied(),
		};
		let ev = |e: Option<&SimpleExtrinsic>| match e {
			None => Ok(None),
			Some(e) => oracle(&e.term, &g).map(Some).ok_or(()),
		};
		vals.push((ev(o)?, ev(n)?));
	}
	Ok(Want { corners, vals })
}
pub fn pct(o: Option<u128>, n: Option<u128>) -> f64 {
	let (o, n) = (o.unwrap_or(0) as f64, n.unwrap_or(0) as f64);
	100.0 * (n / o) - 100.0
}
pub fn close(a: f64, b: f64) -> bool {
	a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * b.abs().max(1.0)
}
fn same_eq(a: &SimpleTerm, b: &SimpleTerm) -> bool {
	match (a, b) {
		(Term::Value(x), Term::Value(y)) => x == y,
		(Term::Scalar(x), Term::Scalar(y)) => x == y,
		(Term::Var(x), Term::Var(y)) => x.0.replace('_', "") == y.0.replace('_', ""),
		(Term::Add(x, y), Term::Add(p, q)) | (Term::Mul(x, y), Term::Mul(p, q)) => same_eq(x, p) && same_eq(y, q),
		_ => false,
	}
}
pub fn kind(o: Option<&SimpleTerm>, n: Option<&SimpleTerm>) -> RelativeChange {
	match (o, n) {
		(None, _) => RelativeChange::Added,
		(_, None) => RelativeChange::Removed,
		(Some(x), Some(y)) if same_eq(x, y) => RelativeChange::Unchanged,
		_ => RelativeChange::Changed,
	}
}
fn coef(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		return x & 0xffff_ffff;
	}
	match r.below(6) {
		0 => 0,
		1 => 1,
		2 => r.below(10) as u128,
		3 => r.below(100_000) as u128,
		4 => 1_000_000 + r.below(1_000_000) as u128,
		_ => 10 * r.below(100) as u128,
	}
}
fn lin(r: &mut Rng, vs: &[&str]) -> SimpleTerm {
	let mut t: SimpleTerm = Term::Value(coef(r));
	for v in vs {
		if r.chance(1, 5) {
			continue;
		}
		let m = if r.chance(1, 2) { Term::Mul(b(Term::Scalar(coef(r))), b(Term::Var((*v).into()))) } else { Term::Mul(b(Term::Var((*v).into())), b(Term::Value(coef(r)))) };
		t = if r.chance(1, 2) { Term::Add(b(t), b(m)) } else { Term::Add(b(m), b(t)) };
	}
	t
}
fn range(r: &mut Rng) -> ComponentRange {
	let a = r.odd_len(u32::MAX as usize).unwrap_or(r.below(50)) as u32;
	let k = r.odd_len(u32::MAX as usize).unwrap_or(r.below(2000)).min((u32::MAX - a) as usize) as u32;
	match r.below(8) {
		0 => ComponentRange { min: a, max: a },
		1 => ComponentRange { min: 0, max: u32::MAX },
		_ => ComponentRange { min: a, max: a + k },
	}
}
fn ext(r: &mut Rng, vs: &[&str], all: f64) -> SimpleExtrinsic {
	let d = 1 + r.below(3);
	let term = match r.below(4) {
		0 => simple(r, d, vs, &coef),
		_ => lin(r, vs),
	};
	let mut m = HashMap::new();
	for v in vs {
		if *v != "READ" && *v != "WRITE" && (r.below(1000) as f64) < all * 1000.0 {
			m.insert(v.replace('_', ""), range(r));
		}
	}
	SimpleExtrinsic { name: "f".into(), pallet: "p.rs".into(), term, comp_ranges: if m.is_empty() { None } else { Some(m) } }
}
const VS: [&str; 6] = ["a", "b", "c_d", "x", "READ", "WRITE"];

fn pair(r: &mut Rng) -> (Option<SimpleExtrinsic>, Option<SimpleExtrinsic>) {
	let mut vs = r.names(&VS);
	// the range of a component is found by its name without underscores
	let mut seen = BTreeSet::new();
	vs.retain(|v| seen.insert(v.replace('_', "")));
	vs.truncate(7);
	let k = 1 + r.below(vs.len());
	r.shuffle(&mut vs);
	let vs = &vs[..k];
	let p = *r.pick(&[1.0, 1.0, 0.7, 0.0]);
	let o = ext(r, vs, p);
	let mut n = ext(r, vs, p);
	if r.chance(1, 2) {
		n.comp_ranges = o.comp_ranges.clone();
	}
	if r.chance(1, 6) {
		n.term = o.term.clone();
	}
	match r.below(8) {
		0 => (None, Some(n)),
		1 => (Some(o), None),
		_ => (Some(o), Some(n)),
	}
}
fn costs(unit: Dimension) -> (u128, u128) {
	if unit == Dimension::Time {
		(25_000_000, 100_000_000)
	} else {
		(0, 0)
	}
}
fn assignment(t: &TermChange) -> BTreeMap<String, u128> {
	t.scope.as_vec().into_iter().map(|(k, v)| (k, oracle(&v, &|_| None).unwrap())).collect()
}
fn check(o: Option<&SimpleExtrinsic>, n: Option<&SimpleExtrinsic>, m: CompareMethod, unit: Dimension, id: &str) -> Res {
	let got = compare_extrinsics(o.cloned(), n.cloned(), &params(m, unit));
	let (rd, wr) = costs(unit);
	let w = match (&got, want(o, n, m, rd, wr)) {
		(Err(_), Err(())) => return Ok(()),
		(Ok(g), Err(())) => return Err(format!("reports {:?} -> {:?} at {:?} instead of an error", g.old_v, g.new_v, assignment(g))),
		(Err(e), Ok(_)) => return Err(format!("fails with `{e}`")),
		(Ok(_), Ok(w)) => w,
	};
	let g = got.unwrap();
	let mut a = assignment(&g);
	let (gr, gw) = (a.remove("READ"), a.remove("WRITE"));
	if unit == Dimension::Proof {
		need!(gr.unwrap_or(0) == 0 && gw.unwrap_or(0) == 0, "reads or writes charged in the proof dimension");
	}
	let Some(at) = w.corners.iter().position(|k| *k == a) else {
		return Err(format!("reported at {a:?}, which is none of the corners {:?}", w.corners));
	};
	if id == "C05" {
		return Ok(());
	}
	let (ov, nv) = w.vals[at];
	need!((g.old_v, g.new_v) == (ov, nv), "values {:?} -> {:?} at {a:?}, the equations give {ov:?} -> {nv:?}", g.old_v, g.new_v);
	need!(close(g.percent, pct(ov, nv)), "percentage {} for {ov:?} -> {nv:?}", g.percent);
	if id == "C07" {
		let k = kind(o.map(|e| &e.term), n.map(|e| &e.term));
		// reads and writes are removed from a proof size comparison before it is made
		need!(g.change == k || unit == Dimension::Proof && o.is_some() && n.is_some() && (ov, nv).0 == nv && g.change == RelativeChange::Unchanged, "kind {:?} instead of {k:?}", g.change);
		need!(g.method == m, "method {:?}", g.method);
	}
	if o.is_some() && n.is_some() && g.change == RelativeChange::Changed {
		for (k, (x, y)) in w.corners.iter().zip(&w.vals) {
			let (p, q) = ((pct(*x, *y) * 1000.0) as i128, (g.percent * 1000.0) as i128);
			need!(p <= q.saturating_add(1), "reports {}% at {a:?}, but the change is {}% at {k:?}", g.percent, pct(*x, *y));
		}
	}
	Ok(())
}

pub fn c05(c: &mut Ctx) {
	// which corners are evaluated is visible through equations whose worst corner is unique
	for k in 0..c.n(6_000) {
		let n = 1 + c.rng.below(5);
		let names = ["a", "b", "c_d", "_x", "yy"];
		let mut t_old: SimpleTerm = Term::Value(1_000_000);
		let mut t_new: SimpleTerm = Term::Value(1_000_000);
		let mut ro = HashMap::new();
		let mut rn = HashMap::new();
		let mut dirs = vec![];
		for (i, v) in names.iter().take(n).enumerate() {
			let up = c.rng.chance(1, 2);
			dirs.push(up);
			let m: SimpleTerm = Term::Mul(b(Term::Scalar(1000 + 17 * i as u128)), b(Term::Var((*v).into())));
			// a component of the new version raises the increase, one of the old lowers it
			if up {
				t_new = Term::Add(b(t_new), b(m));
			} else {
				t_old = Term::Add(b(m), b(t_old));
			}
			let key = v.replace('_', "");
			let r1 = range(&mut c.rng);
			let r1 = ComponentRange { max: r1.max.min(5000).max(r1.min), ..r1 };
			match k % 4 {
				0 => {
					ro.insert(key.clone(), r1);
					rn.insert(key, r1);
				},
				1 => {
					rn.insert(key, r1);
				},
				2 => {
					let r2 = ComponentRange { min: c.rng.below(40) as u32, max: 40 + c.rng.below(4000) as u32 };
					ro.insert(key.clone(), r1);
					rn.insert(key, r2);
				},
				_ => {
					if c.rng.chance(1, 2) {
						ro.insert(key, r1);
					}
				},
			}
		}
		let mk = |t: &SimpleTerm, r: &HashMap<String, ComponentRange>| SimpleExtrinsic { name: "f".into(), pallet: "p".into(), term: t.clone(), comp_ranges: if r.is_empty() { None } else { Some(r.clone()) } };
		let (o, nw) = (mk(&t_old, &ro), mk(&t_new, &rn));
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(1, 2) { Dimension::Time } else { Dimension::Proof };
		c.dim(&format!("{m:?}"));
		if !c.case(|| format!("compare {m:?} {unit:?}\nold {o:?}\nnew {nw:?}"), || {
			check(Some(&o), Some(&nw), m, unit, "C05")?;
			check(Some(&o), Some(&nw), m, unit, "C06")
		}) {
			return;
		}
	}
	// many components: the worst corner is the one that has each component where it hurts
	let mut counts = vec![8usize, 9, 10, 11, 12, 12, 13, 14, 15, 16, 16, 17, 15, 16, 15, 16, 20, 16, 14, 16];
	if let Some(n) = dict().new_nums.iter().find(|n| (1..=20).contains(*n)) {
		counts.extend([*n as usize, *n as usize + 1]);
	}
	for (k, n) in counts.into_iter().enumerate() {
		let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
		let (mut t_old, mut t_new): (SimpleTerm, SimpleTerm) = (Term::Value(10_000_000), Term::Value(10_000_000));
		let mut ranges = HashMap::new();
		let mut worst: BTreeMap<String, u128> = BTreeMap::new();
		for v in &names {
			let (lo, hi) = (c.rng.below(20) as u32, 30 + c.rng.below(50) as u32);
			let m: SimpleTerm = Term::Mul(b(Term::Scalar(5000 + c.rng.below(50) as u128)), b(Term::Var(v.as_str().into())));
			ranges.insert(v.clone(), ComponentRange { min: lo, max: hi });
			if c.rng.chance(1, 2) {
				t_new = Term::Add(b(t_new), b(m));
				worst.insert(v.clone(), hi as u128);
			} else {
				t_old = Term::Add(b(m), b(t_old));
				worst.insert(v.clone(), lo as u128);
			}
		}
		let mk = |t: &SimpleTerm| SimpleExtrinsic { name: "f".into(), pallet: "p".into(), term: t.clone(), comp_ranges: Some(ranges.clone()) };
		let (o, nw) = (mk(&t_old), mk(&t_new));
		let m = if n == 16 && k == 10 { CompareMethod::Base } else if c.rng.chance(1, 2) { CompareMethod::GuessWorst } else { CompareMethod::ExactWorst };
		c.dim("many components");
		c.case(|| format!("{n} components, {m:?}\nold {o:?}\nnew {nw:?}"), || match (compare_extrinsics(Some(o.clone()), Some(nw.clone()), &params(m, Dimension::Time)), n > 16) {
			(Err(_), true) => Ok(()),
			(Ok(g), false) => {
				let mut a = assignment(&g);
				a.remove("READ");
				a.remove("WRITE");
				if m == CompareMethod::Base {
					worst.iter_mut().for_each(|(k, v)| *v = ranges[k].min as u128);
				}
				need!(a == worst, "reported at {a:?}, the worst is {worst:?}");
				Ok(())
			},
			(r, _) => Err(format!("{}", if r.is_ok() { "accepted" } else { "rejected" })),
		});
	}
	// the same from the text of two weight files
	for _ in 0..c.n(150) {
		let n = if c.rng.chance(1, 4) { 12 } else { 9 };
		let n = 1 + c.rng.below(n);
		let names: Vec<String> = (0..n).map(|i| match c.rng.below(3) { 0 => format!("v{i}"), 1 => format!("v_{i}"), _ => format!("w_{i}_x") }).collect();
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(1, 2) { Dimension::Time } else { Dimension::Proof };
		let mut body = ["Weight::from_parts(10000000, 10000000)".to_string(), "Weight::from_parts(10000000, 10000000)".to_string()];
		let mut docs = [String::new(), String::new()];
		let (mut want, mut fails) = (BTreeMap::new(), false);
		for v in &names {
			let up = c.rng.chance(1, 2);
			let k = 5000 + c.rng.below(50);
			body[up as usize] += &format!("\n.saturating_add(Weight::from_parts({k}, {k}).saturating_mul({v}.into()))");
			let (lo, hi) = (c.rng.below(20) as u32, 30 + c.rng.below(50) as u32);
			let mut rs = [Some((lo, hi)), Some((lo, hi))];
			match c.rng.below(24) {
				0 => rs[0] = None,
				1 => rs[1] = None,
				2 => rs = [None, None],
				3 => rs[c.rng.below(2)] = Some((lo + 3, hi + 7)),
				_ => {},
			}
			let exact = matches!(m, CompareMethod::ExactWorst | CompareMethod::ExactAsymptotic);
			for i in 0..2 {
				if let Some((l, h)) = rs[i] {
					docs[i] += &format!("\t/// The range of component `{v}` is `[{l}, {h}]`.\n");
				}
			}
			let (l, h) = match (rs[0], rs[1]) {
				(None, None) => {
					fails |= exact;
					(0, 100)
				},
				(Some(x), None) | (None, Some(x)) => x,
				(Some(x), Some(y)) => {
					fails |= exact && x != y;
					(x.0.min(y.0), x.1.max(y.1))
				},
			};
			let at = match m {
				CompareMethod::Base => l,
				CompareMethod::ExactAsymptotic | CompareMethod::Asymptotic => h,
				_ if up => h,
				_ => l,
			};
			want.insert(v.replace('_', ""), at as u128);
		}
		let text = |i: usize| format!("impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {{\n{}\tfn f() -> Weight {{\n{}\n}}\n}}\n", docs[i], body[i]);
		let (o, nw) = (text(0), text(1));
		c.dim(if fails { "files, error" } else { "files" });
		if !c.case(
			|| format!("files compared with {m:?} {unit:?}\nold\n{o}\nnew\n{nw}"),
			|| {
				let p = |s: &String| subweight_core::parse::pallet::parse_content("f.rs".into(), s.clone());
				let got = compare_files(p(&o)?, p(&nw)?, &params(m, unit), &nofilter()).map_err(|e| e.to_string())?;
				need!(got.len() == 1, "{} results", got.len());
				let Some(g) = term_of(&got[0]) else {
					need!(fails, "fails");
					return Ok(());
				};
				need!(!fails, "no error");
				let a: BTreeMap<String, u128> = assignment(g).into_iter().filter(|(k, _)| k != "READ" && k != "WRITE").map(|(k, v)| (k.replace('_', ""), v)).collect();
				need!(a == want, "reported at {a:?} instead of {want:?}");
				Ok(())
			},
		) {
			return;
		}
	}
	for _ in 0..c.n(4_000) {
		let (o, n) = pair(&mut c.rng);
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(1, 2) { Dimension::Time } else { Dimension::Proof };
		if !c.case(|| format!("compare {m:?} {unit:?}\nold {o:?}\nnew {n:?}"), || check(o.as_ref(), n.as_ref(), m, unit, "C05")) {
			return;
		}
	}
}
pub fn c06(c: &mut Ctx) {
	for _ in 0..c.n(14_000) {
		let (o, n) = pair(&mut c.rng);
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(1, 2) { Dimension::Time } else { Dimension::Proof };
		c.dim(&format!("{unit:?}"));
		if !c.case(|| format!("compare {m:?} {unit:?}\nold {o:?}\nnew {n:?}"), || check(o.as_ref(), n.as_ref(), m, unit, "C06")) {
			return;
		}
	}
	// proof size independent of the number of reads and writes
	for _ in 0..c.n(3_000) {
		let k = 1 + c.rng.below(3);
		let base = ext(&mut c.rng, &VS[..k], 1.0);
		let with = |r: &mut Rng, e: &SimpleExtrinsic| {
			let mut e = e.clone();
			for v in ["READ", "WRITE"] {
				let f: SimpleTerm = if r.chance(1, 3) { Term::Mul(b(Term::Scalar(coef(r))), b(Term::Var(VS[0].into()))) } else { Term::Scalar(coef(r)) };
				e.term = Term::Add(b(e.term), b(Term::Mul(b(f), b(Term::Var(v.into())))));
			}
			e
		};
		let (x, y) = (with(&mut c.rng, &base), with(&mut c.rng, &base));
		let m = METHODS[c.rng.below(5)];
		if !c.case(|| format!("proof size of {x:?} against {y:?} ({m:?})"), || {
			let p = params(m, Dimension::Proof);
			let rs = [(&x, &y), (&y, &x), (&base, &x)].map(|(s, t)| compare_extrinsics(Some(s.clone()), Some(t.clone()), &p));
			for r in rs {
				match r {
					Ok(g) => need!(g.old_v == g.new_v, "proof size {:?} -> {:?} although only reads and writes differ", g.old_v, g.new_v),
					Err(e) => need!(want(Some(&x), Some(&y), m, 0, 0).is_err() || want(Some(&base), Some(&x), m, 0, 0).is_err(), "fails: {e}"),
				}
			}
			Ok(())
		}) {
			return;
		}
	}
}
pub fn c07(c: &mut Ctx) {
	for _ in 0..c.n(25_000) {
		let d = c.rng.below(4);
		let vs = c.rng.names(&["a", "b", "c_d", "_a", "A", "cd", "C_D"]);
		let mk = |c: &mut Ctx| simple(&mut c.rng, d, &vs, &num);
		let (mut o, mut n) = (Some(mk(c)), Some(mk(c)));
		match c.rng.below(6) {
			0 => o = None,
			1 => n = None,
			2 => n = o.clone(),
			3 => {
				// the same up to underscores, or up to one leaf
				n = o.clone();
				if let Some(t) = &mut n {
					tweak(t, &mut c.rng);
				}
			},
			4 => {
				n = o.clone().map(|t| match t {
					Term::Add(x, y) => Term::Add(y, x),
					Term::Mul(x, y) => Term::Mul(y, x),
					t => Term::Add(b(t), b(Term::Scalar(0))),
				})
			},
			_ => {},
		}
		let mut used = BTreeSet::new();
		[&o, &n].into_iter().flatten().for_each(|t| vars_of(t, &mut used));
		used.extend(vs.iter().map(|v| v.to_string()));
		let vals: Vec<(String, u128)> = used.into_iter().map(|v| (v, num(&mut c.rng))).collect();
		let mut s = SimpleScope::empty();
		for (v, x) in &vals {
			s.put_var(v, Term::Scalar(*x));
		}
		let m = METHODS[c.rng.below(5)];
		let k = kind(o.as_ref(), n.as_ref());
		c.dim(&format!("{k:?}"));
		if !c.case(
			|| format!("compare_terms\nold {o:?}\nnew {n:?}\nwith {vals:?}"),
			|| {
				let g = |n: &str| vals.iter().find(|v| v.0 == n).map(|v| v.1);
				let ev = |t: &Option<SimpleTerm>| match t {
					None => Some(None),
					Some(t) => oracle(t, &g).map(Some),
				};
				match (compare_terms(o.as_ref(), n.as_ref(), m, &s), ev(&o), ev(&n)) {
					(Ok(r), Some(ov), Some(nv)) => {
						need!((r.old_v, r.new_v) == (ov, nv), "values {:?} -> {:?} instead of {ov:?} -> {nv:?}", r.old_v, r.new_v);
						need!(r.change == k, "kind {:?} instead of {k:?}", r.change);
						need!(close(r.percent, pct(ov, nv)), "percentage {} for {ov:?} -> {nv:?}", r.percent);
						need!(format!("{:?}", r.old) == format!("{o:?}") && format!("{:?}", r.new) == format!("{n:?}"), "equations {:?} {:?}", r.old, r.new);
						need!(format!("{:?}", r.scope) == format!("{s:?}") && r.method == m, "assignment {:?}", r.scope);
						Ok(())
					},
					(Err(_), a, z) if a.is_none() || z.is_none() => Ok(()),
					(Ok(r), _, _) => Err(format!("{:?} -> {:?} although a value does not fit", r.old_v, r.new_v)),
					(Err(e), _, _) => Err(format!("fails: {e}")),
				}
			},
		) {
			return;
		}
	}
	for _ in 0..c.n(8_000) {
		let (o, n) = pair(&mut c.rng);
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(2, 3) { Dimension::Time } else { Dimension::Proof };
		if !c.case(|| format!("compare {m:?} {unit:?}\nold {o:?}\nnew {n:?}"), || check(o.as_ref(), n.as_ref(), m, unit, "C07")) {
			return;
		}
	}
}
fn tweak(t: &mut SimpleTerm, r: &mut Rng) {
	match t {
		Term::Add(x, y) | Term::Mul(x, y) => {
			let w = if r.chance(1, 2) { x } else { y };
			tweak(w, r)
		},
		Term::Var(v) => {
			match r.below(5) {
				0 => v.0 = format!("_{}", v.0),
				1 => v.0 = v.0.replace('a', "b"),
				2 => v.0 = v.0.to_uppercase(),
				3 => v.0 = v.0.replace('_', ""),
				_ => v.0 = r.name(&[v.0.as_str()]),
			}
		},
		Term::Value(x) => *t = if r.chance(1, 2) { Term::Scalar(*x) } else { Term::Value(x.wrapping_add(1)) },
		Term::Scalar(x) => *t = if r.chance(1, 2) { Term::Value(*x) } else { Term::Scalar(x.wrapping_add(1)) },
	}
}

fn cterm(r: &mut Rng, rw: bool) -> ChromaticTerm {
	let mut t: ChromaticTerm = Term::Value(Weight { time: coef(r), proof: coef(r) });
	for v in ["a", "b"] {
		if r.chance(1, 3) {
			t = Term::Add(b(t), b(Term::Mul(b(Term::Scalar(coef(r))), b(Term::Var(v.into())))));
		}
	}
	if rw {
		for v in ["READ", "WRITE"] {
			if r.chance(1, 2) {
				let k = *r.pick(&[0u128, 1, 5, 999, 1000, 1001, 1002, 5000]);
				t = Term::Add(b(t), b(Term::Mul(b(Term::Scalar(k)), b(Term::Var(v.into())))));
			}
		}
	}
	t
}
pub fn c08(c: &mut Ctx) {
	for round in 0..c.n(6_000) {
		let mut names = vec!["f", "g", "fg", "h", "zz", "F", "f_", "set_f", "_f", "_"];
		let mut files: Vec<String> = ["a.rs", "b.rs", "sub/a.rs", "A.rs", "pallet_a.rs", "a", "a.rs/b.rs", "pallet_a.rs2"].map(|s| s.to_string()).to_vec();
		names = c.rng.names(&names);
		let f = c.rng.name(&["a", "b"]);
		files.push(format!("{f}.rs"));
		if round % 60 == 0 {
			names.extend(["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"]);
			files.extend((0..6).map(|i| format!("d{}/m{i}.rs", i % 2)));
		}
		let long = round % 60 == 0;
		if round % 8 == 5 {
			// file and function names that join to the same text
			names = vec!["f", "bf", "b_f", "_f"];
			files = ["a", "ab", "ab_", "a_b"].map(|s| s.to_string()).to_vec();
		}
		let set = |r: &mut Rng| {
			let k = if long { r.odd_len(200).unwrap_or(r.below(150)) } else { r.below(7) };
			let mut v: Vec<ChromaticExtrinsic> = vec![];
			let mut seen = BTreeSet::new();
			for _ in 0..k {
				let (f, n) = (r.pick(&files).as_str(), *r.pick(&names));
				if !seen.insert((f, n)) {
					continue;
				}
				let mut m = HashMap::new();
				for x in ["a", "b"] {
					if r.chance(3, 4) {
						m.insert(x.to_string(), range(r));
					}
				}
				v.push(ChromaticExtrinsic { name: n.into(), pallet: f.into(), term: cterm(r, true), comp_ranges: if m.is_empty() { None } else { Some(m) } });
			}
			r.shuffle(&mut v);
			v
		};
		let (mut olds, mut news) = (set(&mut c.rng), set(&mut c.rng));
		if c.rng.chance(1, 3) {
			// some functions unchanged
			for o in &olds {
				if c.rng.chance(1, 2) && !news.iter().any(|n| n.name == o.name && n.pallet == o.pallet) {
					news.push(o.clone());
				}
			}
		}
		let m = METHODS[c.rng.below(5)];
		let unit = if c.rng.chance(1, 2) { Dimension::Time } else { Dimension::Proof };
		if c.rng.chance(1, 8) {
			// values that do not fit
			for e in olds.iter_mut().chain(&mut news) {
				if c.rng.chance(2, 3) {
					e.term = Term::Add(b(e.term.clone()), b(Term::Value(Weight { time: u128::MAX, proof: u128::MAX })));
				}
			}
		}
		let fe = [None, None, None, Some("f"), Some("g"), Some("^f"), Some("f$")][c.rng.below(7)];
		let fp = [None, None, None, Some("a"), Some("sub"), Some("s$"), Some("^a"), Some("b")][c.rng.below(8)];
		let mut f = nofilter();
		f.extrinsic = fe.map(|s| s.to_string());
		f.pallet = fp.map(|s| s.to_string());
		let p = params(m, unit);
		if !c.case(|| format!("compare_files {m:?} {unit:?} extrinsic={fe:?} pallet={fp:?}\nold {olds:?}\nnew {news:?}"), || check_files(&olds, &news, &p, &f)) {
			return;
		}
	}
	// a broken name filter is an error
	for s in ["(", "[a", "*"] {
		for which in 0..2 {
			let mut f = nofilter();
			if which == 0 {
				f.extrinsic = Some(s.into());
			} else {
				f.pallet = Some(s.into());
			}
			c.case(|| format!("filter {s}"), || {
				need!(compare_files(vec![], vec![], &params(CompareMethod::Base, Dimension::Time), &f).is_err(), "accepted");
				Ok(())
			});
		}
	}
}
/// A pattern without special characters other than an anchor.
fn found(pattern: &str, s: &str) -> bool {
	match (pattern.strip_prefix('^'), pattern.strip_suffix('$')) {
		(Some(p), _) => s.starts_with(p),
		(_, Some(p)) => s.ends_with(p),
		_ => s.contains(pattern),
	}
}
fn check_files(olds: &[ChromaticExtrinsic], news: &[ChromaticExtrinsic], p: &CompareParams, f: &FilterParams) -> Res {
	let got = compare_files(olds.to_vec(), news.to_vec(), p, f).map_err(|e| format!("fails: {e}"))?;
	let mut keys = BTreeSet::new();
	for e in olds.iter().chain(news) {
		if f.extrinsic.as_ref().map_or(true, |x| found(x, &e.name)) && f.pallet.as_ref().map_or(true, |x| found(x, &e.pallet)) {
			keys.insert((e.pallet.clone(), e.name.clone()));
		}
	}
	let gk: Vec<_> = got.iter().map(|d| (d.file.clone(), d.name.clone())).collect();
	let wk: Vec<_> = keys.into_iter().collect();
	need!(gk == wk, "results for {gk:?} instead of {wk:?}");
	for d in &got {
		let pick = |v: &[ChromaticExtrinsic]| {
			v.iter().find(|e| e.name == d.name && e.pallet == d.file).map(|e| SimpleExtrinsic {
				name: e.name.clone(),
				pallet: e.pallet.clone(),
				term: e.term.simplify(p.unit).unwrap(),
				comp_ranges: e.comp_ranges.clone(),
			})
		};
		let (o, n) = (pick(olds), pick(news));
		let w = compare_extrinsics(o.clone(), n.clone(), p);
		let who = format!("{}::{}", d.file, d.name);
		match (&d.change, &w) {
			// which component is reported depends on the order of a hash set
			(TermDiff::Failed(e), Err(x)) => need!(!e.is_empty() && (e.contains(x.as_str()) || e.contains(&who)), "{who}: error `{e}` instead of `{x}`"),
			(TermDiff::Changed(g), Ok(w)) | (TermDiff::Warning(g, _), Ok(w)) => {
				let s = |t: &TermChange| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", t.old, t.old_v, t.new, t.new_v, t.change, t.percent.to_bits(), t.scope);
				// ties may be resolved by any of the equal corners
				need!(
					s(g) == s(w) || (g.change == w.change && ((g.percent * 1000.0) as i128 - (w.percent * 1000.0) as i128).abs() <= 1 && format!("{:?}{:?}", g.old, g.new) == format!("{:?}{:?}", w.old, w.new)),
					"{who}: {} instead of {}",
					s(g),
					s(w)
				);
				let src = n.as_ref().or(o.as_ref()).unwrap();
				let warn = sanity_check_term(&src.term);
				need!(warn.is_err() == matches!(d.change, TermDiff::Warning(..)), "{who}: warning {:?}, expected {warn:?}", d.warning());
			},
			(_, w) => return Err(format!("{who}: {} result, expected {}", if failed(d) { "failed" } else { "successful" }, if w.is_ok() { "success" } else { "failure" })),
		}
	}
	Ok(())
}
