//! Scratch directory trees and path patterns with the files they select (C20).
use crate::common::*;
use std::path::{Path, PathBuf};

pub struct Tree {
	pub base: PathBuf,
	/// Everything below the base, directories too, as relative paths.
	pub all: Vec<String>,
	pub files: Vec<String>,
	top: PathBuf,
}
const DIRS: [&str; 7] = ["", "a", "b", "a/c", "b/c", "a/mod.rs.d", ".hid"];
const NAMES: [&str; 9] = ["x.rs", "y.rs", "mod.rs", "xmod.rs", "mod.rs.bak", "z.txt", "x2.rs", ".h.rs", "lib.rs"];
const MORE: [&str; 7] = ["MOD.rs", "a.mod.rs", "X.rs", " x.rs", "x.rs ", " lib.rs", "x;y.rs"];

impl Tree {
	pub fn make(c: &mut Ctx, scratch: &Path, round: u64) -> Tree {
		let _ = std::fs::remove_dir_all(scratch);
		let base = scratch.join(["plain", "with space", "br[1]", "st*r", "q?", "dot.rs"][round as usize % 6]);
		// neighbours that a pattern taken from the directory's own name would find
		for n in ["br1", "stxr", "qq"] {
			std::fs::create_dir_all(scratch.join(n)).unwrap();
			std::fs::write(scratch.join(n).join("x.rs"), "").unwrap();
		}
		let (mut all, mut files) = (vec![], vec![]);
		for d in DIRS {
			if d.is_empty() || c.rng.chance(3, 4) {
				std::fs::create_dir_all(base.join(d)).unwrap();
				let mut p = String::new();
				for s in d.split('/').filter(|s| !s.is_empty()) {
					p = if p.is_empty() { s.into() } else { format!("{p}/{s}") };
					if !all.contains(&p) {
						all.push(p.clone());
					}
				}
				let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
				if c.rng.chance(1, 4) {
					names.extend(MORE.iter().map(|s| s.to_string()));
				}
				if let Some(s) = c.rng.odd_str().filter(|s| !s.is_empty() && s.len() < 40 && s.chars().all(|c| c.is_ascii_alphanumeric() || "._- ".contains(c)) && !s.starts_with('.')) {
					names.extend([s.to_string(), format!("{s}.rs"), format!("x{s}"), format!("{s}x.rs")]);
				}
				names.sort();
				names.dedup();
				if round % 8 == 7 && d == "a" {
					let k = c.rng.odd_len(700).unwrap_or(c.rng.below(400));
					names.extend((0..k).map(|i| format!("m{i}.rs")));
				}
				for n in &names {
					if c.rng.chance(1, 2) {
						let f = if d.is_empty() { n.to_string() } else { format!("{d}/{n}") };
						if all.contains(&f) {
							continue;
						}
						std::fs::write(base.join(&f), "").unwrap();
						all.push(f.clone());
						files.push(f);
					}
				}
			}
		}
		Tree { base, all, files, top: scratch.into() }
	}
	pub fn remove(&self) {
		let _ = std::fs::remove_dir_all(&self.top);
	}
	/// A pattern of some alternatives, and what each of them selects.
	pub fn pattern(&self, c: &mut Ctx) -> (String, Vec<Vec<String>>) {
		let pats = ["*.rs", "**/*.rs", "x.rs", "a/*.rs", "a/**/*.rs", "b/c/*", "*/x.rs", "?.rs", "[xy].rs", "**/mod.rs", "**/mod*", "a/mod.rs", "none", "**/x*.rs", "*/*/*.rs", "lib.rs", "**/*.txt", "b/x?.rs", "a/x.rs", " x.rs", "x.rs ", "a/* ", " lib.rs", "*;*", ".hid/*.rs", ".h*.rs", ".hid/x.rs", "*/?.rs"];
		let n = 1 + c.rng.below(3);
		let alts: Vec<&str> = (0..n).map(|_| *c.rng.pick(&pats)).collect();
		let sel = alts
			.iter()
			.map(|p| {
				let ps: Vec<&str> = p.split('/').collect();
				self.all
					.iter()
					.filter(|f| path_match(&ps, &f.split('/').collect::<Vec<_>>()))
					.filter(|f| f.rsplit('/').next() != Some("mod.rs"))
					.cloned()
					.collect()
			})
			.collect();
		(alts.join(","), sel)
	}
}
fn path_match(p: &[&str], s: &[&str]) -> bool {
	match p.split_first() {
		None => s.is_empty(),
		Some((&"**", rest)) => path_match(rest, s) || !s.is_empty() && path_match(p, &s[1..]),
		Some((h, rest)) => !s.is_empty() && name_match(h.as_bytes(), s[0].as_bytes()) && path_match(rest, &s[1..]),
	}
}
fn name_match(p: &[u8], s: &[u8]) -> bool {
	match p.first() {
		None => s.is_empty(),
		Some(b'*') => name_match(&p[1..], s) || !s.is_empty() && name_match(p, &s[1..]),
		Some(b'?') => !s.is_empty() && name_match(&p[1..], &s[1..]),
		Some(b'[') => {
			let e = p.iter().position(|c| *c == b']').unwrap();
			!s.is_empty() && p[1..e].contains(&s[0]) && name_match(&p[e + 1..], &s[1..])
		},
		Some(c) => s.first() == Some(c) && name_match(&p[1..], &s[1..]),
	}
}
