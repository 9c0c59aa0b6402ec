//! C18: the page rendered by the real web/src/html.rs and its templates, checked against the changes shown.
#[path = "../../replay/src/common.rs"]
mod common;
// The arguments type is copied unchanged out of web/src/main.rs on every run.
mod items {
	include!(env!("SWC_ITEMS"));
}
#[allow(unused_imports)]
use items::*;
#[allow(dead_code, unused)]
#[path = "/repo/web/src/html.rs"]
mod html;
use common::*;
use subweight_core::{CompareMethod, Dimension, scope::SimpleScope, term::Term, ExtrinsicDiff, RelativeChange, TermChange, TermDiff};

struct Row {
	name: String,
	rel: (i128, String),
	abs: (i128, String),
}
fn text(cell: &str) -> (String, String) {
	// (colour, text without tags)
	let colour = cell.split("color:").nth(1).map(|s| s.chars().take_while(|c| c.is_alphanumeric()).collect()).unwrap_or_default();
	let mut out = String::new();
	let mut tag = false;
	for c in cell.chars() {
		match c {
			'<' => tag = true,
			'>' => tag = false,
			c if !tag => out.push(c),
			_ => {},
		}
	}
	(colour, out.trim().to_string())
}
fn rows(page: &str) -> Result<Vec<Row>, String> {
	let table = page.split("id=\"sort_me\"").nth(1).ok_or("no table")?;
	let heads: Vec<String> = table.split("<th>").skip(1).map(|h| h.split("</th>").next().unwrap_or("").trim().to_string()).collect();
	let col = |n: &str| heads.iter().position(|h| h.starts_with(n)).ok_or(format!("no column {n}"));
	let (cn, cr, ca) = (col("Extrinsic")?, col("Rel. Change")?, col("Abs. Change")?);
	let body = table.split("<tbody>").nth(1).ok_or("no body")?;
	let mut out = vec![];
	for r in body.split("<tr ").skip(1) {
		let cells: Vec<&str> = r.split("<td").skip(1).collect();
		let key = |c: &str| -> Result<(i128, String), String> {
			let k = c.split("data-order='").nth(1).and_then(|s| s.split('\'').next()).ok_or("no key")?;
			let body = c.splitn(2, '>').nth(1).unwrap_or("").split("</td>").next().unwrap_or("").to_string();
			Ok((k.trim().parse().map_err(|_| format!("sort key {k} is not a number"))?, body))
		};
		let name = text(cells.get(cn).ok_or("short row")?.splitn(2, '>').nth(1).unwrap_or("")).1;
		out.push(Row { name, rel: key(cells.get(cr).ok_or("short row")?)?, abs: key(cells.get(ca).ok_or("short row")?)? });
	}
	Ok(out)
}

fn args(unit: Dimension) -> CompareArgs {
	let u = match unit {
		Dimension::Time => "time",
		Dimension::Proof => "proof",
	};
	serde_json::from_value(serde_json::json!({
		"old": "a", "new": "b", "repo": "r", "path_pattern": "p", "extrinsic": null, "pallet": null,
		"ignore_errors": false, "threshold": 0, "unit": u, "git_pull": null, "method": "base"
	}))
	.or_else(|_| {
		serde_json::from_value(serde_json::json!({
			"old": "a", "new": "b", "repo": "r", "path_pattern": "p", "extrinsic": null, "pallet": null,
			"ignore_errors": false, "threshold": 0, "unit": format!("{:?}", unit), "git_pull": null, "method": "Base"
		}))
	})
	.expect("arguments")
}

fn value(r: &mut Rng) -> u128 {
	if let Some(x) = r.odd() {
		return x >> 2;
	}
	match r.below(6) {
		0 => 0,
		1 => r.below(50) as u128,
		2 => 1000 + r.below(20) as u128,
		3 => r.bits() >> 2,
		4 => (1u128 << r.below(126)) + r.below(2) as u128,
		_ => r.below(2_000_000) as u128,
	}
}
fn change(r: &mut Rng) -> TermChange {
	let kind = [RelativeChange::Unchanged, RelativeChange::Added, RelativeChange::Removed, RelativeChange::Changed][r.below(6).min(3)];
	let a = value(r);
	let b = match r.below(5) {
		// far more or far less: percentages around and beyond what a key can hold
		3 if a < 1 << 60 => (a as f64 * r.magnitude(0, 9)) as u128,
		4 if a < 1 << 60 => (a as f64 * (0.001 * r.odd_len(1 << 40).unwrap_or(1 + r.below(100_000_000)) as f64)) as u128,
		0 => a + r.below(5) as u128,
		1 => a.saturating_sub(r.below(5) as u128),
		_ => value(r),
	};
	let (o, n) = match kind {
		RelativeChange::Added => (None, Some(b)),
		RelativeChange::Removed => (Some(a), None),
		RelativeChange::Unchanged => (Some(a), Some(a)),
		RelativeChange::Changed => (Some(a), Some(b)),
	};
	let percent = match kind {
		RelativeChange::Unchanged => 0.0,
		RelativeChange::Added => 100.0,
		RelativeChange::Removed => -100.0,
		RelativeChange::Changed =>
			if a == b {
				0.0
			} else if a == 0 {
				100.0
			} else {
				100.0 * (b as f64 / a as f64) - 100.0
			},
	};
	TermChange {
		old: o.map(Term::Scalar),
		old_v: o,
		new: n.map(Term::Scalar),
		new_v: n,
		scope: SimpleScope::empty().with_var("x", Term::Scalar(1)),
		percent,
		change: kind,
		method: CompareMethod::Base,
	}
}
fn check(cs: &[(String, TermChange)], rows: &[Row], unit: Dimension) -> Res {
	need!(rows.len() == cs.len(), "{} rows for {} changes", rows.len(), cs.len());
	for ((n, c), r) in cs.iter().zip(rows) {
		need!(r.name.contains(n.as_str()), "row of {n} is named {}", r.name);
		let (rc, rt) = text(&r.rel.1);
		let (ac, at) = text(&r.abs.1);
		let what = format!("{n}: {:?} {:?} -> {:?} {}%", c.change, c.old_v, c.new_v, c.percent);
		match c.change {
			RelativeChange::Added => {
				need!(rt.contains("Added") && at.contains("Added"), "{what} shown as {rt} / {at}");
			},
			RelativeChange::Removed => {
				need!(rt.contains("Removed") && at.contains("Removed"), "{what} shown as {rt} / {at}");
			},
			RelativeChange::Unchanged => {
				need!(rt.contains("Unchanged") && at.contains("Unchanged"), "{what} shown as {rt} / {at}");
				need!(r.rel.0 == 0 && r.abs.0 == 0, "{what} has sort keys {} and {}", r.rel.0, r.abs.0);
			},
			RelativeChange::Changed => {
				let (a, b) = (c.old_v.unwrap(), c.new_v.unwrap());
				let v = unit.fmt_value(a.abs_diff(b));
				if b > a {
					need!(ac == "red" && at.starts_with('+') && at[1..].trim() == v, "{what} shown as {at} in {ac}");
				} else if b < a {
					need!(ac == "green" && at.starts_with('-') && at[1..].trim() == v, "{what} shown as {at} in {ac}");
				} else {
					need!(ac != "red" && ac != "green" && !at.starts_with(['+', '-']), "{what} shown as {at} in {ac}");
				}
				if c.percent > 0.0 {
					need!(rc == "red" && rt.starts_with('+'), "{what} shown as {rt} in {rc}");
				} else if c.percent < 0.0 {
					need!(rc == "green" && rt.starts_with('-'), "{what} shown as {rt} in {rc}");
				} else {
					need!(rc != "red" && rc != "green" && !rt.starts_with(['+', '-']), "{what} shown as {rt} in {rc}");
				}
				if c.percent != 0.0 {
					let shown: f64 = rt[1..].trim_end_matches('%').parse().map_err(|_| format!("{what}: {rt} is not a percentage"))?;
					let p = c.percent.abs();
					need!((shown - p).abs() <= 0.01 + p * 1e-9, "{what} shown as {rt}");
				}
			},
		}
	}
	// Order of the keys, pair by pair.
	for (i, ((n, c), r)) in cs.iter().zip(rows).enumerate() {
		for ((m, d), s) in cs.iter().zip(rows).skip(i + 1) {
			let what = |col: &str, a: i128, b: i128| {
				format!(
					"{col}: {n} ({:?} {:?}->{:?} {}%) has key {a}, {m} ({:?} {:?}->{:?} {}%) has key {b}",
					c.change, c.old_v, c.new_v, c.percent, d.change, d.old_v, d.new_v, d.percent
				)
			};
			let grp = |k: &RelativeChange| match k {
				RelativeChange::Removed => 0,
				RelativeChange::Added => 2,
				_ => 1,
			};
			let (g, h) = (grp(&c.change), grp(&d.change));
			for (col, a, b) in [("relative", r.rel.0, s.rel.0), ("absolute", r.abs.0, s.abs.0)] {
				need!(g == h || (g < h) == (a < b) && a != b, "{}", what(col, a, b));
			}
			if g == 1 && h == 1 {
				let (p, q) = (c.percent, d.percent);
				let (a, b) = (r.rel.0, s.rel.0);
				need!(!(p < q && a > b) && !(p > q && a < b), "{}", what("relative", a, b));
				// Changes that are displayed differently and stay below the cap must not tie.
				if (p - q).abs() >= 0.01 && p.abs() < 4_290_000.0 && q.abs() < 4_290_000.0 {
					need!((p < q) == (a < b) && a != b, "{}", what("relative", a, b));
				}
				let diff = |c: &TermChange| c.new_v.unwrap() as i128 - c.old_v.unwrap() as i128;
				let (x, y) = (diff(c), diff(d));
				need!(x.cmp(&y) == r.abs.0.cmp(&s.abs.0), "{}", what("absolute", r.abs.0, s.abs.0));
			}
		}
	}
	Ok(())
}

fn c18(c: &mut Ctx) {
	for k in 0..c.n(400) {
		if c.full() {
			break;
		}
		let unit = if k % 2 == 0 { Dimension::Time } else { Dimension::Proof };
		let n = 1 + c.rng.below(12);
		let mut cs = vec![];
		let mut diff = vec![];
		for i in 0..n {
			let ch = change(&mut c.rng);
			c.dim(&format!("{:?}", ch.change));
			let name = format!("fn{i}x");
			let t = match c.rng.below(8) {
				0 => TermDiff::Warning(ch.clone(), "w".into()),
				_ => TermDiff::Changed(ch.clone()),
			};
			cs.push((name.clone(), ch));
			diff.push(ExtrinsicDiff { name, file: "f.rs".into(), change: t });
			if c.rng.chance(1, 12) {
				diff.push(ExtrinsicDiff { name: format!("failed{i}"), file: "f.rs".into(), change: TermDiff::Failed("e".into()) });
			}
		}
		let a = args(unit);
		let desc = || {
			let v: Vec<String> = cs.iter().map(|(n, c)| format!("{n}:{:?} {:?}->{:?} {}%", c.change, c.old_v, c.new_v, c.percent)).collect();
			format!("{:?} {}", unit, v.join("; "))
		};
		c.case(desc, || {
			let page = html::templates::Compare::render(&diff, &a, "org".into(), &vec!["r".to_string()], false);
			check(&cs, &rows(&page)?, unit)
		});
	}
}

fn main() {
	run(|id, c| {
		if id != "C18" {
			return None;
		}
		c18(c);
		Some(())
	})
}
