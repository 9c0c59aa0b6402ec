//! C09, C10, C11, C15, C21: lists of results, warnings, units, names.
use crate::{common::*, need, p_cmp::*, p_term::*};
use clap::ValueEnum;
use std::str::FromStr;
use subweight_core::{
	compare_files, filter_changes,
	parse::{pallet, PathStripping},
	sanity_check_term,
	scope::SimpleScope,
	sort_changes,
	term::{SimpleTerm, Term},
	CompareMethod, Dimension, ExtrinsicDiff, FilterParams, RelativeChange, TermChange, TermDiff,
};

fn kinds() -> [RelativeChange; 4] {
	[RelativeChange::Unchanged, RelativeChange::Added, RelativeChange::Removed, RelativeChange::Changed]
}
fn rank(k: &RelativeChange) -> u8 {
	match k {
		RelativeChange::Unchanged => 0,
		RelativeChange::Added => 1,
		RelativeChange::Removed => 2,
		RelativeChange::Changed => 3,
	}
}
fn rpercent(r: &mut Rng) -> f64 {
	let sign = if r.chance(1, 2) { 1.0 } else { -1.0 };
	if let Some(x) = r.odd() {
		return sign * *r.pick(&[x as f64, x as f64 / 10.0, x as f64 / 1000.0, x as f64 + 0.5]);
	}
	match r.below(12) {
		0 => 0.0,
		1 => -0.0,
		2 => f64::NAN,
		3 => f64::INFINITY,
		4 => -100.0,
		5 => r.below(7) as f64 - 3.0,
		6 => (r.below(2001) as f64 - 1000.0) / 1000.0,
		7 => (r.below(40) as f64 - 20.0) / 8000.0,
		// every magnitude: beyond any integer the order may be computed in
		8 => sign * r.magnitude(-9, 45),
		9 => sign * r.magnitude(4, 22),
		10 => sign * r.magnitude(0, 307),
		_ => (r.bits() as f64) / 1e30,
	}
}
fn rchange(r: &mut Rng) -> TermChange {
	let k = kinds()[r.below(4)];
	let v = |r: &mut Rng| r.below(5000) as u128;
	let (o, n) = match k {
		RelativeChange::Added => (None, Some(v(r))),
		RelativeChange::Removed => (Some(v(r)), None),
		_ => (Some(v(r)), Some(v(r))),
	};
	TermChange {
		old: o.map(Term::Scalar),
		old_v: o,
		new: n.map(Term::Value),
		new_v: n,
		scope: SimpleScope::empty().with_var("x", Term::Scalar(r.below(9) as u128)),
		percent: rpercent(r),
		change: k,
		method: METHODS[r.below(5)],
	}
}
fn rdiff(r: &mut Rng, i: usize) -> ExtrinsicDiff {
	let change = match r.below(6) {
		0 => TermDiff::Failed(format!("err {}", r.below(3))),
		1 => TermDiff::Warning(rchange(r), format!("warn {}", r.below(3))),
		_ => TermDiff::Changed(rchange(r)),
	};
	ExtrinsicDiff { name: format!("f{i}"), file: format!("file{}", r.below(3)), change }
}
pub fn csig(t: &TermChange) -> String {
	format!("{:?} {:?} {:?} {:?} {:?} {:x} {:?} {:?}", t.old, t.old_v, t.new, t.new_v, t.scope, t.percent.to_bits(), t.change, t.method)
}
pub fn sig(d: &ExtrinsicDiff) -> String {
	let c = match &d.change {
		TermDiff::Failed(e) => format!("Failed {e}"),
		TermDiff::Warning(c, w) => format!("Warning {w} {}", csig(c)),
		TermDiff::Changed(c) => format!("Changed {}", csig(c)),
	};
	format!("{}::{} {c}", d.file, d.name)
}
fn brief(v: &[ExtrinsicDiff]) -> String {
	v.iter()
		.map(|d| match term_of(d) {
			Some(t) => format!("[{} {}{:?} {:?}]", d.name, if d.warning().is_some() { "warning " } else { "" }, t.change, t.percent),
			None => format!("[{} failed]", d.name),
		})
		.collect::<Vec<_>>()
		.join(" ")
}

pub fn c09(c: &mut Ctx) {
	for _ in 0..c.n(20_000) {
		let k = c.rng.odd_len(300).unwrap_or(if c.rng.chance(1, 40) { c.rng.below(150) } else { c.rng.below(8) });
		let v: Vec<_> = (0..k).map(|i| rdiff(&mut c.rng, i)).collect();
		let mut threshold = *c.rng.pick(&[0.0, -1.0, 5.0, 3.0, 1.0, 0.5, 0.000001, 0.0000009, 0.0000011, 100.0, 1e9, f64::INFINITY]);
		if c.rng.chance(1, 8) {
			threshold = c.rng.odd().map_or(c.rng.magnitude(-9, 12), |x| x as f64);
		}
		let change = if c.rng.chance(1, 3) {
			None
		} else {
			let n = c.rng.below(5);
			Some((0..n).map(|_| kinds()[c.rng.below(4)]).collect::<Vec<_>>())
		};
		let p = FilterParams { threshold, change: change.clone(), extrinsic: None, pallet: None };
		let want: Vec<String> = v
			.iter()
			.filter(|d| match term_of(d) {
				None => true,
				Some(t) => {
					let selected = match &change {
						None => true,
						Some(s) => s.iter().any(|x| rank(x) == rank(&t.change)),
					};
					let relevant = match t.change {
						RelativeChange::Changed => !(t.percent.abs() < threshold),
						RelativeChange::Unchanged => threshold < 0.000001,
						_ => true,
					};
					selected && relevant
				},
			})
			.map(sig)
			.collect();
		for d in &v {
			let n = if failed(d) { "failed".into() } else { format!("{:?}", term_of(d).unwrap().change) };
			c.dim(&n);
		}
		if !c.case(
			|| format!("filter threshold={threshold:?} change={change:?}: {}", brief(&v)),
			|| {
				let got: Vec<String> = filter_changes(v.clone(), &p).iter().map(sig).collect();
				need!(got == want, "keeps {got:?} instead of {want:?}");
				for k in kinds() {
					let want = change.as_ref().map_or(true, |s| s.iter().any(|x| rank(x) == rank(&k)));
					need!(p.included(&k) == want, "included({k:?}) is {}", !want);
				}
				Ok(())
			},
		) {
			return;
		}
	}
}

fn key(d: &ExtrinsicDiff) -> (u8, u8, i128) {
	match term_of(d) {
		None => (0, 0, 0),
		Some(t) => (1, rank(&t.change), (t.percent * 1000.0) as i128),
	}
}
pub fn c10(c: &mut Ctx) {
	for j in 0..c.n(12_000) {
		// long lists make the standard sort check its order for consistency
		let k = c.rng.odd_len(400).unwrap_or(if j % 20 == 0 { 20 + c.rng.below(150) } else { c.rng.below(12) });
		let v: Vec<_> = (0..k).map(|i| rdiff(&mut c.rng, i)).collect();
		c.dim(if k >= 20 { "long" } else { "short" });
		if !c.case(
			|| format!("sorting {}", brief(&v)),
			|| {
				let mut got = v.clone();
				sort_changes(&mut got);
				let mut want: Vec<(usize, &ExtrinsicDiff)> = v.iter().enumerate().collect();
				// the order of the statement, ties by original position
				want.sort_by_key(|(i, d)| (key(d), *i));
				let g: Vec<String> = got.iter().map(sig).collect();
				let w: Vec<String> = want.iter().map(|(_, d)| sig(d)).collect();
				need!(g == w, "sorted into {}", brief(&got));
				let mut again = got.clone();
				sort_changes(&mut again);
				need!(again.iter().map(sig).collect::<Vec<_>>() == g, "sorting again gives {}", brief(&again));
				Ok(())
			},
		) {
			return;
		}
	}
}

/// The literal read (or write) counts of an equation.
fn counts(t: &SimpleTerm, var: &str, out: &mut Vec<u128>) {
	let lit = |x: &SimpleTerm| match x {
		Term::Scalar(v) | Term::Value(v) => Some(*v),
		_ => None,
	};
	let is = |x: &SimpleTerm| matches!(x, Term::Var(v) if v.0 == var);
	match t {
		Term::Mul(x, y) => {
			if is(x) {
				out.extend(lit(y));
			}
			if is(y) {
				out.extend(lit(x));
			}
			counts(x, var, out);
			counts(y, var, out);
		},
		Term::Add(x, y) => {
			counts(x, var, out);
			counts(y, var, out);
		},
		_ => {},
	}
}
fn rw_num(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		return x;
	}
	match r.below(6) {
		0 => 1000,
		1 => 1001,
		2 => 999,
		3 => r.below(3000) as u128,
		4 => r.bits(),
		_ => r.below(10) as u128,
	}
}
fn rw_term(r: &mut Rng, d: usize) -> SimpleTerm {
	let v = |r: &mut Rng| {
		let n = r.name(&["READ", "WRITE", "READ", "WRITE", "READS", "a", "read", "RE_AD"]);
		Term::Var(n.as_str().into())
	};
	if d == 0 || r.chance(1, 6) {
		return match r.below(3) {
			0 => Term::Scalar(rw_num(r)),
			1 => Term::Value(rw_num(r)),
			_ => v(r),
		};
	}
	match r.below(5) {
		0 => Term::Mul(b(Term::Scalar(rw_num(r))), b(v(r))),
		1 => Term::Mul(b(v(r)), b(Term::Scalar(rw_num(r)))),
		2 => Term::Mul(b(rw_term(r, d - 1)), b(rw_term(r, d - 1))),
		_ => Term::Add(b(rw_term(r, d - 1)), b(rw_term(r, d - 1))),
	}
}
fn warn_ok(got: Option<&str>, rs: &[u128], ws: &[u128]) -> Res {
	let (r, w) = (rs.iter().max().copied().unwrap_or(0), ws.iter().max().copied().unwrap_or(0));
	match got {
		None => need!(r <= 1000 && w <= 1000, "no warning for {r} reads and {w} writes"),
		Some(m) => {
			need!(r > 1000 || w > 1000, "warning `{m}` for {r} reads and {w} writes");
			let (reads, writes) = (m.contains("READ"), m.contains("WRITE"));
			need!(reads != writes, "warning `{m}` does not name one kind");
			let named = if reads { r } else { w };
			need!(named == r.max(w), "warning `{m}` for {r} reads and {w} writes");
			let nums: Vec<&str> = m.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
			need!(nums.contains(&named.to_string().as_str()), "warning `{m}` does not name {named}");
		},
	}
	Ok(())
}
pub fn c11(c: &mut Ctx) {
	for _ in 0..c.n(40_000) {
		let d = c.rng.below(6);
		let t = rw_term(&mut c.rng, d);
		let (mut rs, mut ws) = (vec![], vec![]);
		counts(&t, "READ", &mut rs);
		counts(&t, "WRITE", &mut ws);
		c.dim(if rs.iter().chain(&ws).any(|x| *x > 1000) { "large" } else { "fine" });
		if !c.case(|| format!("sanity check of {t:?}"), || {
			let r = sanity_check_term(&t);
			warn_ok(r.as_ref().err().map(|s| s.as_str()), &rs, &ws)
		}) {
			return;
		}
	}
	// whole functions
	for _ in 0..c.n(3_000) {
		let (mut rs, mut ws) = (vec![], vec![]);
		let (mut ors, mut ows) = (vec![], vec![]);
		let v1 = c.rng.chance(1, 4);
		let base = if v1 { "(10_000 as Weight)" } else { "Weight::from_parts(10_000, 5)" };
		let mk = |r: &mut Rng, rs: &mut Vec<u128>, ws: &mut Vec<u128>| {
			let mut s = base.to_string();
			for _ in 0..r.below(4) {
				let n = match r.below(5) {
					0 => 1000,
					1 => 1001,
					2 => 1002 + r.below(5000),
					_ => r.below(12),
				};
				let lit = match r.below(3) {
					_ if v1 => format!("{n} as Weight"),
					0 => format!("{n}"),
					1 => format!("{n}_u64"),
					_ => format!("({n})"),
				};
				let read = r.chance(1, 2);
				if read { rs.push(n as u128) } else { ws.push(n as u128) }
				let call = format!("T::DbWeight::get().{}({lit})", if read { "reads" } else { "writes" });
				let one = if v1 { "1 as Weight" } else { "n" };
				let call = match r.below(3) {
					0 => format!("({call}).saturating_mul({})", if v1 { "n as Weight" } else { "n.into()" }),
					1 => format!("{call}.saturating_add(T::DbWeight::get().reads({one}))"),
					_ => call,
				};
				s = format!("{s}.saturating_add({call})");
			}
			s
		};
		let new_s = mk(&mut c.rng, &mut rs, &mut ws);
		let old_s = mk(&mut c.rng, &mut ors, &mut ows);
		let src = |b: &str| format!("impl<T> WeightInfo for SubstrateWeight<T> {{ fn f(n: u32, ) -> Weight {{ {b} }} }}");
		let mode = c.rng.below(4);
		let unit = if c.rng.chance(3, 4) { Dimension::Time } else { Dimension::Proof };
		if !c.case(
			|| format!("comparing {old_s} with {new_s} ({}, {unit:?})", ["both", "both", "added", "removed"][mode]),
			|| {
				let parse = |s: &str| pallet::parse_content("p.rs".into(), src(s)).map_err(|e| format!("cannot parse: {e}"));
				let olds = if mode == 2 { vec![] } else { parse(&old_s)? };
				let news = if mode == 3 { vec![] } else { parse(&new_s)? };
				let got = compare_files(olds, news, &params(CompareMethod::Asymptotic, unit), &nofilter()).map_err(|e| e.to_string())?;
				need!(got.len() == 1, "{} results", got.len());
				need!(!failed(&got[0]), "failed: {:?}", got[0].error());
				// in the old syntax all numbers belong to the time dimension
				let z = |v: &[u128]| if v1 && unit == Dimension::Proof { vec![] } else { v.to_vec() };
				let (r, w) = if mode == 3 { (z(&ors), z(&ows)) } else { (z(&rs), z(&ws)) };
				warn_ok(got[0].warning().map(|s| s.as_str()), &r, &w)
			},
		) {
			return;
		}
	}
}

pub fn c15(c: &mut Ctx) {
	let kk: [u128; 5] = [1, 1000, 1_000_000, 1_000_000_000, 1_000_000_000_000];
	let ki: [u128; 4] = [1, 1 << 10, 1 << 20, 1 << 30];
	let tables: [(&str, Vec<(u128, &str)>, fn(u128) -> String); 5] = [
		("time", kk.iter().copied().zip(["ps", "ns", "us", "ms", "s"]).collect(), Dimension::fmt_time),
		("time value", kk.iter().copied().zip(["ps", "ns", "us", "ms", "s"]).collect(), |v| Dimension::Time.fmt_value(v)),
		("size", ki.iter().copied().zip(["B", "KiB", "MiB", "GiB"]).collect(), Dimension::fmt_proof),
		("size value", ki.iter().copied().zip(["B", "KiB", "MiB", "GiB"]).collect(), |v| Dimension::Proof.fmt_value(v)),
		("number", kk.iter().copied().zip(["", "K", "M", "G", "T"]).collect(), Dimension::fmt_scalar),
	];
	let mut vals: Vec<u128> = vec![];
	for k in kk.iter().chain(&ki) {
		for d in [1u128, 2, 10, 999, 1000, 1023, 1024] {
			for x in [k * d, k * d + 1, (k * d).saturating_sub(1), k * d + k / 2] {
				vals.push(x);
			}
		}
	}
	// around the borders at which the last printed digit changes
	for k in kk.iter().chain(&ki).filter(|k| **k > 100) {
		for _ in 0..c.n(200) {
			let top = if c.rng.chance(1, 3) { 1_000_000 } else { 2000 };
			let x = k * (2 * c.rng.below(top) as u128 + 1) / 200;
			vals.extend([0, 1, 2, k / 100_000, k / 1_000_000].iter().flat_map(|d| [x.saturating_sub(*d), x + d]));
		}
	}
	vals.extend(0..3000);
	vals.extend([u128::MAX, u128::MAX - 1, u64::MAX as u128]);
	for k in dict().nums.iter().chain(&dict().new_nums) {
		for m in [1u128, 2, 1000, 1024] {
			let x = k.saturating_mul(m);
			vals.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
		}
	}
	for _ in 0..c.n(20_000) {
		vals.push(c.rng.bits());
	}
	for v in vals {
		for (what, units, f) in &tables {
			if !c.case(
				|| format!("{v} as {what}"),
				|| {
					let s = f(v);
					let cut = s.find(|c: char| !(c.is_ascii_digit() || c == '.')).unwrap_or(s.len());
					let (num, unit) = (&s[..cut], s[cut..].trim());
					let &(div, name) = units.iter().rev().find(|u| u.0 <= v).unwrap_or(&units[0]);
					need!(unit == name, "printed as `{s}`, expected unit `{name}`");
					let x: f64 = num.parse().map_err(|_| format!("printed as `{s}`"))?;
					let want = v as f64 / div as f64;
					need!((x - want).abs() <= 0.005 + 1e-9 + want * 1e-13, "printed as `{s}`, expected {want}{name}");
					Ok(())
				},
			) {
				return;
			}
		}
	}
	c.dims.insert("values".into(), c.cases / 5);
}

fn json<T: for<'a> serde::Deserialize<'a>>(s: &str) -> Option<T> {
	serde_json::from_value(serde_json::Value::String(s.into())).ok()
}
trait Named: Sized + PartialEq + Clone + std::fmt::Debug + FromStr + ValueEnum {
	/// Accepted name and its choice.
	fn table() -> Vec<(&'static str, Self)>;
	fn extra() -> Vec<(&'static str, Self)> {
		vec![]
	}
	fn variants() -> Vec<&'static str>;
	fn de(_: &str) -> Option<Option<Self>> {
		None
	}
}
impl Named for CompareMethod {
	fn table() -> Vec<(&'static str, Self)> {
		use CompareMethod::*;
		vec![("base", Base), ("guess-worst", GuessWorst), ("exact-worst", ExactWorst), ("exact-asymptotic", ExactAsymptotic), ("asymptotic", Asymptotic)]
	}
	fn variants() -> Vec<&'static str> {
		CompareMethod::variants()
	}
	fn de(s: &str) -> Option<Option<Self>> {
		Some(json(s))
	}
}
impl Named for Dimension {
	fn table() -> Vec<(&'static str, Self)> {
		vec![("time", Dimension::Time), ("proof", Dimension::Proof)]
	}
	fn extra() -> Vec<(&'static str, Self)> {
		vec![("weight", Dimension::Time)]
	}
	fn variants() -> Vec<&'static str> {
		Dimension::variants()
	}
	fn de(s: &str) -> Option<Option<Self>> {
		Some(json(s))
	}
}
impl Named for RelativeChange {
	fn table() -> Vec<(&'static str, Self)> {
		use RelativeChange::*;
		vec![("unchanged", Unchanged), ("changed", Changed), ("added", Added), ("removed", Removed)]
	}
	fn variants() -> Vec<&'static str> {
		RelativeChange::variants()
	}
	fn de(s: &str) -> Option<Option<Self>> {
		Some(json(s))
	}
}
impl Named for PathStripping {
	fn table() -> Vec<(&'static str, Self)> {
		vec![("file_name", PathStripping::FileName), ("repo_relative", PathStripping::RepoRelative)]
	}
	fn variants() -> Vec<&'static str> {
		PathStripping::variants()
	}
}
fn names<T: Named>(c: &mut Ctx, what: &str) {
	let table = T::table();
	let all: Vec<(&str, T)> = table.iter().cloned().chain(T::extra()).collect();
	let mut texts: Vec<String> = all.iter().map(|x| x.0.to_string()).collect();
	for s in ["", " ", "-", "worst", "guess", "min", "max", "weights", "times", "proofs", "file", "repo", "exact", "ref_time", "none", "all", "change", "add", "fail", "default", "auto", "pov", "size", "storage", "cpu", "new", "deleted", "same"] {
		texts.push(s.into());
	}
	texts.extend(dict().strs.iter().chain(&dict().new_strs).map(|s| s.to_string()));
	for a in &all {
		texts.extend([a.0.to_uppercase(), format!("{} ", a.0), format!(" {}", a.0), a.0.replace('-', "_"), a.0.replace('_', "-"), a.0[..1].to_uppercase() + &a.0[1..], format!("--{}", a.0), format!("{}\n", a.0), format!("{},x", a.0), format!("{},", a.0), format!("{};", a.0), format!("{}=", a.0), format!("{}.", a.0), format!("{}s", a.0), format!("{}:", a.0), format!("{}\t", a.0), format!("{}\0", a.0), format!("\"{}\"", a.0), format!("ref-{}", a.0), format!("ref_{}", a.0), format!("{}-size", a.0), format!("{}_size", a.0), format!("is-{}", a.0), format!("by-{}", a.0), format!("/{}", a.0)].into_iter().filter(|t| t != a.0));
	}
	for _ in 0..c.n(300) {
		let mut s: Vec<char> = c.rng.pick(&all).0.chars().collect();
		let i = c.rng.below(s.len());
		match c.rng.below(5) {
			0 => drop(s.remove(i)),
			1 => s.insert(i, *c.rng.pick(&['a', '-', '_', ' ', 'x', 'é'])),
			2 => { let k = (i + 1).min(s.len() - 1); s.swap(i, k) },
			3 => s.truncate(i),
			_ => s.extend(c.rng.pick(&all).0.chars()),
		}
		texts.push(s.into_iter().collect());
	}
	for t in &texts {
		let want = all.iter().find(|x| x.0 == t).map(|x| x.1.clone());
		if !c.case(
			|| format!("{what} named {t:?}"),
			|| {
				let got = <T as FromStr>::from_str(t).ok();
				need!(got == want, "selects {got:?} instead of {want:?}");
				if let Some(de) = T::de(t) {
					need!(de == want, "deserializes to {de:?} instead of {want:?}");
				}
				Ok(())
			},
		) {
			return;
		}
	}
	c.case(
		|| format!("advertised names of {what}"),
		|| {
			let v = T::variants();
			need!(v.len() == table.len(), "advertised are {v:?}");
			for n in &v {
				need!(table.iter().any(|x| x.0 == *n), "advertised is `{n}`");
				need!(v.iter().filter(|x| *x == n).count() == 1, "`{n}` is advertised twice");
			}
			// the command line
			need!(T::value_variants().len() == table.len(), "{} values on the command line", T::value_variants().len());
			for (n, x) in &table {
				let n = n.replace('_', "-");
				need!(T::from_str_opt(&n).as_ref() == Some(x), "command line value `{n}` selects {:?}", T::from_str_opt(&n));
			}
			for x in T::value_variants() {
				let pv = x.to_possible_value().ok_or("no name")?;
				need!(T::from_str_opt(pv.get_name()).as_ref() == Some(x), "command line value `{}` does not select {x:?}", pv.get_name());
			}
			Ok(())
		},
	);
}
trait FromStrOpt: Sized {
	fn from_str_opt(s: &str) -> Option<Self>;
}
impl<T: ValueEnum> FromStrOpt for T {
	fn from_str_opt(s: &str) -> Option<Self> {
		<T as ValueEnum>::from_str(s, false).ok()
	}
}
fn reflected<T: PartialEq + std::fmt::Debug + FromStr>(got: Vec<(T, &'static str)>, all: Vec<T>, names: Vec<&'static str>) -> Res {
	need!(got.len() == names.len() && all.len() == names.len(), "lists {got:?} for {names:?}");
	for (t, n) in &got {
		need!(T::from_str(n).ok().as_ref() == Some(t), "`{n}` is listed for {t:?} but selects {:?}", T::from_str(n).ok());
		need!(all.contains(t) && names.contains(n), "lists ({t:?}, {n})");
		need!(got.iter().filter(|x| x.0 == *t || x.1 == *n).count() == 1, "lists {t:?} or {n} twice");
	}
	Ok(())
}
pub fn c21(c: &mut Ctx) {
	names::<CompareMethod>(c, "comparison method");
	names::<Dimension>(c, "dimension");
	names::<RelativeChange>(c, "change kind");
	names::<PathStripping>(c, "path handling");
	c.case(|| "listed comparison methods".into(), || reflected(CompareMethod::reflect(), CompareMethod::all(), CompareMethod::variants()));
	c.case(|| "listed dimensions".into(), || reflected(Dimension::reflect(), Dimension::all(), Dimension::variants()));
}
