//! Shared by the replay binaries: random inputs, result reporting.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % (n.max(1) as u64)) as usize
	}
	pub fn chance(&mut self, a: usize, b: usize) -> bool {
		self.below(b) < a
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.below(i + 1);
			v.swap(i, j);
		}
	}
	pub fn bits(&mut self) -> u128 {
		let k = self.below(129);
		let x = (self.next() as u128) << 64 | self.next() as u128;
		if k == 0 {
			0
		} else {
			x >> (128 - k)
		}
	}
}

/// Numbers and texts the source mentions (SWC_DICT), those that are new in it apart: the places where
/// a change may treat inputs differently.
#[derive(Default)]
pub struct Dict {
	pub nums: Vec<u128>,
	pub strs: Vec<&'static str>,
	pub new_nums: Vec<u128>,
	pub new_strs: Vec<&'static str>,
}
pub fn dict() -> &'static Dict {
	static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
	D.get_or_init(|| {
		let mut d = Dict::default();
		let text = std::env::var("SWC_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
		let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
		let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
		let num = |k: &str| list(k).iter().filter_map(|x| x.as_str()?.parse().ok()).collect::<Vec<u128>>();
		let txt = |k: &str| list(k).iter().filter_map(|x| Some(&*Box::leak(x.as_str()?.to_string().into_boxed_str()))).collect::<Vec<&'static str>>();
		d.nums = num("nums");
		d.strs = txt("strs");
		d.new_nums = num("new_nums");
		d.new_strs = txt("new_strs");
		d
	})
}
pub fn ident(s: &str) -> bool {
	s.len() < 30 && s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
impl Rng {
	/// Now and then a number the source mentions, or one beside it.
	pub fn odd(&mut self) -> Option<u128> {
		let d = dict();
		let k = self.below(100);
		let x = if !d.new_nums.is_empty() && k < 30 {
			*self.pick(&d.new_nums)
		} else if !d.nums.is_empty() && (30..33).contains(&k) {
			*self.pick(&d.nums)
		} else {
			return None;
		};
		Some(match self.below(6) {
			0 => x.saturating_sub(1),
			1 => x.saturating_add(1),
			2 => x.saturating_mul(2),
			_ => x,
		})
	}
	/// The same as a length of at most `max`.
	pub fn odd_len(&mut self, max: usize) -> Option<usize> {
		for _ in 0..2 {
			if let Some(x) = self.odd() {
				if x <= max as u128 {
					return Some(x as usize);
				}
			}
		}
		None
	}
	/// Now and then a text the source mentions, as it is or as part of a name.
	pub fn odd_str(&mut self) -> Option<&'static str> {
		let d = dict();
		let k = self.below(100);
		if !d.new_strs.is_empty() && k < 30 {
			Some(*self.pick(&d.new_strs))
		} else if !d.strs.is_empty() && (30..32).contains(&k) {
			Some(*self.pick(&d.strs))
		} else {
			None
		}
	}
	/// A name for a variable or function, from the list or by way of a text of the source.
	pub fn name(&mut self, list: &[&str]) -> String {
		let base = self.pick(list).to_string();
		let Some(s) = self.odd_str() else { return base };
		let s: String = s.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
		let n = match self.below(4) {
			0 => format!("{s}{base}"),
			1 => format!("{base}{s}"),
			_ => s,
		};
		if ident(&n) {
			n
		} else {
			base
		}
	}
	/// Names a case may use as variables: the list, some written differently.
	pub fn names(&mut self, list: &[&'static str]) -> Vec<&'static str> {
		let mut o = list.to_vec();
		for _ in 0..2 {
			let n = self.name(list);
			if !o.contains(&n.as_str()) {
				o.push(Box::leak(n.into_boxed_str()));
			}
		}
		o
	}
	/// A magnitude between 10^lo and 10^hi, all of them equally likely.
	pub fn magnitude(&mut self, lo: i32, hi: i32) -> f64 {
		let e = lo + self.below((hi - lo) as usize) as i32;
		10f64.powi(e) * (1.0 + self.below(9000) as f64 / 1000.0)
	}
}

pub struct Ctx {
	pub rng: Rng,
	pub cases: u64,
	pub dims: BTreeMap<String, u64>,
	pub mult: u64,
	pub fails: Vec<(String, String)>,
	/// Listed findings that were seen again: entry and input.
	pub known: Vec<(String, String)>,
	pub scratch: std::path::PathBuf,
	pub cli: String,
	/// Where to note each input before it runs (to name the one that kills the process).
	pub trace: Option<String>,
}
pub type Res = Result<(), String>;
impl Ctx {
	pub fn dim(&mut self, s: &str) {
		*self.dims.entry(s.into()).or_default() += 1;
	}
	pub fn n(&self, base: u64) -> u64 {
		base * self.mult
	}
	/// Runs one case; `input` describes it if it fails or panics. Returns false once enough failed.
	pub fn case(&mut self, input: impl Fn() -> String, f: impl FnOnce() -> Res) -> bool {
		self.cases += 1;
		if let Some(t) = &self.trace {
			let _ = std::fs::write(t, input());
		}
		let r = match catch_unwind(AssertUnwindSafe(f)) {
			Ok(r) => r,
			Err(p) => Err(format!("panic: {}", msg(&p))),
		};
		if let Err(e) = r {
			self.fails.push((input(), e));
		}
		self.fails.len() < 3
	}
	/// A case that may fail in one listed way: `same_failure` holds if it failed in exactly that way.
	pub fn finding_case(&mut self, entry: &str, input: impl Fn() -> String, f: impl FnOnce() -> Res, same_failure: impl FnOnce() -> Res) {
		let before = self.fails.len();
		self.case(&input, f);
		if self.fails.len() > before && matches!(catch_unwind(AssertUnwindSafe(same_failure)), Ok(Ok(()))) {
			let (i, _) = self.fails.pop().unwrap();
			self.known.push((entry.into(), i));
		}
	}
	pub fn full(&self) -> bool {
		self.fails.len() >= 3
	}
}
fn msg(p: &Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else {
		"?".into()
	}
}

pub fn run(f: impl FnOnce(&str, &mut Ctx) -> Option<()> + Send + 'static) {
	let a: Vec<String> = std::env::args().collect();
	let id = a[1].clone();
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let mult: u64 = std::env::var("SWC_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let scratch = std::path::PathBuf::from(std::env::var("SWC_SCRATCH").unwrap_or("/tmp/swc-scratch".into()));
	let cli = std::env::var("SWC_CLI").unwrap_or_default();
	std::panic::set_hook(Box::new(|_| {}));
	let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
		let idn: u64 = id[1..].parse().unwrap();
		let mut c = Ctx { rng: Rng(seed.wrapping_mul(1_000_003).wrapping_add(idn)), cases: 0, dims: Default::default(), mult, fails: vec![], known: vec![], scratch, cli, trace: std::env::var("SWC_TRACE").ok() };
		if f(&id, &mut c).is_none() {
			eprintln!("no replay for {id}");
			std::process::exit(2);
		}
		let fails: Vec<_> = c.fails.iter().map(|(i, e)| serde_json::json!({"input": i, "failed": e})).collect();
		println!("{}", serde_json::json!({"property": id, "cases": c.cases, "dims": c.dims, "fails": fails, "known": c.known, "seed": seed, "mult": mult}));
	});
	h.unwrap().join().unwrap();
}

#[macro_export]
macro_rules! need {
	($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
