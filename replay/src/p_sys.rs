//! C13 (git) and C16 (command line output).
use crate::{common::*, need, p_cmp::*};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use subweight_core::{
	compare_commits, compare_files, filter_changes, git_checkout, git_pull, git_reset,
	parse::pallet,
	sort_changes,
	CompareMethod, CompareParams, Dimension, ExtrinsicDiff, FilterParams, RelativeChange,
};

const GIT: &str = "/usr/bin/git";

fn sh(dir: &Path, args: &[&str]) -> String {
	let o = Command::new(GIT).args(args).current_dir(dir).output().expect("git");
	assert!(o.status.success(), "git {args:?} in {dir:?}: {}", String::from_utf8_lossy(&o.stderr));
	String::from_utf8_lossy(&o.stdout).trim().to_string()
}
fn src(n: u128) -> String {
	format!("impl<T> WeightInfo for SubstrateWeight<T> {{\n fn f() -> Weight {{ Weight::from_parts({n}, {}) }}\n}}\n", n * 10)
}
struct Repo {
	root: PathBuf,
	dir: PathBuf,
	log: PathBuf,
	main: String,
}
impl Repo {
	/// An origin and a clone of it. Revision `r1`.. have the weight 100, 200, ...
	fn new(root: &Path) -> Self {
		let _ = std::fs::remove_dir_all(root);
		let up = root.join("up");
		let dir = root.join("clone");
		std::fs::create_dir_all(&up).unwrap();
		sh(&up, &["init", "-q", "-b", "main"]);
		let w = |n: u128| {
			std::fs::create_dir_all(up.join("weights")).unwrap();
			std::fs::write(up.join("weights/w.rs"), src(n)).unwrap();
			std::fs::write(up.join("notes"), format!("{n}\n")).unwrap();
		};
		let save = |m: &str| {
			sh(&up, &["add", "-A"]);
			sh(&up, &["commit", "-q", "-m", m]);
		};
		w(100);
		save("one");
		sh(&up, &["tag", "r1"]);
		w(200);
		save("two");
		sh(&up, &["tag", "r2"]);
		sh(&up, &["checkout", "-q", "-b", "side", "r1"]);
		w(300);
		save("three");
		sh(&up, &["checkout", "-q", "-b", "feature/side", "r1"]);
		w(400);
		save("four");
		sh(&up, &["checkout", "-q", "-b", "my-side", "r1"]);
		w(500);
		save("five");
		sh(&up, &["checkout", "-q", "main"]);
		sh(root, &["clone", "-q", "up", "clone"]);
		for b in ["side", "feature/side", "my-side"] {
			sh(&dir, &["branch", "-q", b, &format!("origin/{b}")]);
		}
		// a revision only the origin has
		w(900);
		save("nine");
		sh(&up, &["tag", "late"]);
		Repo { root: root.into(), log: root.join("log"), main: sh(&dir, &["rev-parse", "HEAD"]), dir }
	}
	/// Puts the clone back and forgets the log.
	fn reset(&self) {
		sh(&self.dir, &["reset", "-q", "--hard"]);
		sh(&self.dir, &["checkout", "-q", "-f", "main"]);
		sh(&self.dir, &["reset", "-q", "--hard", &self.main]);
		sh(&self.dir, &["clean", "-qfd"]);
		for r in sh(&self.dir, &["for-each-ref", "--format=%(refname)"]).lines() {
			if r == "refs/tags/late" {
				sh(&self.dir, &["update-ref", "-d", r]);
			}
			if r == "refs/remotes/origin/main" {
				sh(&self.dir, &["update-ref", r, &self.main]);
			}
		}
		let _ = std::fs::remove_file(&self.log);
		let _ = std::fs::remove_file(self.dir.join(".git/FETCH_HEAD"));
	}
	fn calls(&self) -> Vec<Vec<String>> {
		let s = std::fs::read_to_string(&self.log).unwrap_or_default();
		s.split("\u{1}\n").filter(|l| !l.is_empty()).map(|l| l.split('\u{2}').filter(|a| !a.is_empty()).map(|a| a.to_string()).collect()).collect()
	}
}
/// A stand-in for git: records the call, refuses it if asked to (or if it has an option that is
/// not one of the harmless ones), and otherwise runs the real git.
fn fake_git(bin: &Path) {
	std::fs::create_dir_all(bin).unwrap();
	let p = bin.join("git");
	std::fs::write(
		&p,
		r#"#!/bin/bash
{ for a in "$@"; do printf '%s\x02' "$a"; done; printf '\x01\n'; } >> "$SWC_GIT_LOG"
n=$(grep -c $'\x01' "$SWC_GIT_LOG")
if [ "$n" = "${SWC_GIT_FAIL:-0}" ]; then echo "refused" >&2; exit 1; fi
stop=
for a in "$@"; do
	if [ -z "$stop" ]; then
		case "$a" in
			--|--end-of-options) stop=1;;
			--hard|-q|--quiet|-f|--force|--detach|--no-guess|--verify|--tags|--prune|-c|--no-recurse-submodules) ;;
			-*) echo "stand-in refuses option $a" >&2; exit 1;;
		esac
	fi
done
exec /usr/bin/git "$@"
"#,
	)
	.unwrap();
	use std::os::unix::fs::PermissionsExt;
	std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
}
/// The recorded arguments that git would take as an option.
fn options<'a>(call: &'a [String]) -> Vec<&'a str> {
	let mut o = vec![];
	for a in call {
		if a == "--" || a == "--end-of-options" {
			break;
		}
		if a.starts_with('-') {
			o.push(a.as_str());
		}
	}
	o
}
fn is_rev(option: &str, rev: &str) -> bool {
	// harmless options that git may be given anyway
	option == rev && !["-q", "-f", "--hard", "--detach"].contains(&rev) || rev.len() > 2 && rev.contains(' ') && option.starts_with(rev)
}
fn network(calls: &[Vec<String>]) -> Vec<String> {
	calls
		.iter()
		.filter(|c| c.iter().any(|a| ["fetch", "pull", "ls-remote", "clone", "push", "remote"].contains(&a.as_str())))
		.map(|c| c.join(" "))
		.collect()
}
pub fn c13(c: &mut Ctx) {
	let root = c.scratch.join("c13");
	for (k, v) in [("GIT_CONFIG_NOSYSTEM", "1"), ("GIT_AUTHOR_NAME", "x"), ("GIT_AUTHOR_EMAIL", "x@x"), ("GIT_COMMITTER_NAME", "x"), ("GIT_COMMITTER_EMAIL", "x@x"), ("GIT_TERMINAL_PROMPT", "0")] {
		std::env::set_var(k, v);
	}
	std::fs::create_dir_all(&root).unwrap();
	std::env::set_var("HOME", &root);
	std::env::set_var("GIT_CEILING_DIRECTORIES", &root);
	let repo = Repo::new(&root.join("r"));
	let bin = root.join("bin");
	fake_git(&bin);
	let old_path = std::env::var("PATH").unwrap_or_default();
	std::env::set_var("PATH", format!("{}:{old_path}", bin.display()));
	std::env::set_var("SWC_GIT_LOG", &repo.log);
	let fail = |n: usize| std::env::set_var("SWC_GIT_FAIL", n.to_string());
	let par = |pull: bool, offline: bool, force: bool, ignore: bool| CompareParams { method: CompareMethod::Base, unit: Dimension::Time, ignore_errors: ignore, git_pull: pull, git_force: force, offline };
	let val = |r: &str| -> Option<u128> {
		Some(match r {
			"r1" | "refs/tags/r1" => 100,
			"r2" | "main" => 200,
			"side" => 300,
			"feature/side" => 400,
			"my-side" => 500,
			_ => return None,
		})
	};
	let revs = ["r1", "r2", "main", "side", "feature/side", "my-side", "refs/tags/r1", "nope", "notes", "weights/w.rs", "weights", "-", "--", "--detach", "-f", "--orphan=zz", "-b", "--upload-pack=touch pwned", "--hard", "-q", "", " ", "$(touch pwned)", "a;touch pwned", "..", "r1 r2", "late"];
	let revs: Vec<&str> = revs.into_iter().chain(dict().new_strs.iter().copied().filter(|s| !["HEAD", "origin", "stash"].iter().any(|w| s.contains(w))).take(12)).collect();
	let cmp = |old: &str, new: &str, p: &CompareParams, pat: &str| compare_commits(&repo.dir, old, new, p, &nofilter(), pat, 100);
	let mut pairs: Vec<(String, String)> = vec![];
	for &a in &revs {
		for b in ["r1", "side"] {
			pairs.push((a.into(), b.into()));
			pairs.push((b.into(), a.into()));
		}
	}
	let sha1 = sh(&repo.dir, &["rev-parse", "r1"]);
	pairs.push((sha1.clone(), "side".into()));
	pairs.push(("side".into(), sha1.clone()));
	let sha = |r: &str| if r == sha1 { Some(100) } else { val(r) };
	let mut k = 0usize;
	for (old, new) in &pairs {
		for mode in 0..4 {
			k += 1;
			let (pull, offline, force) = [(false, false, false), (true, true, false), (false, true, true), (true, false, false)][mode];
			// pulling only where it is interesting
			if mode == 3 && !(k % 5 == 0 || old == "late" || new == "late") && c.mult == 1 {
				continue;
			}
			repo.reset();
			fail(0);
			let p = par(pull, offline, force, k % 2 == 0);
			c.dim(if force { "forced" } else if pull && !offline { "pulling" } else { "plain" });
			c.case(
				|| format!("compare_commits {old:?} {new:?} pull={pull} offline={offline} force={force}"),
				|| {
					let r = cmp(old, new, &p, "weights/*.rs");
					let calls = repo.calls();
					need!(!repo.dir.join("pwned").exists() && !Path::new("pwned").exists(), "a command from the revision text was run");
					for call in &calls {
						for o in options(call) {
							for rev in [old, new] {
								need!(!is_rev(o, rev), "git takes the revision as an option: git {}", call.join(" "));
							}
						}
					}
					if !(pull && !offline) {
						need!(network(&calls).is_empty(), "the network is used: git {}", network(&calls).join(", git "));
					}
					match (sha(old), sha(new)) {
						_ if pull && !offline => {
							// the origin is a local directory here
							if let Ok(d) = &r {
								for call in [old, new] {
									need!(network(&calls).iter().any(|c| c.contains(call.as_str())), "{call} was not pulled");
								}
								let t = d.first().and_then(|d| term_of(d).cloned()).ok_or("no result")?;
								let known = |r: &str| sha(r).or(if r == "late" { Some(900) } else { None });
								// a branch may move by pulling
								if old != "main" && new != "main" {
									need!((t.old_v, t.new_v) == (known(old), known(new)), "compares {:?} with {:?}", t.old_v, t.new_v);
								}
							} else {
								need!(sha(old).is_none() || sha(new).is_none() || sha1 == *old || sha1 == *new || old.starts_with("refs/") || new.starts_with("refs/"), "fails: {}", r.as_ref().err().unwrap());
							}
						},
						(Some(o), Some(n)) => {
							let d = r.map_err(|e| format!("fails: {e}"))?;
							need!(d.len() == 1, "{} results", d.len());
							let t = term_of(&d[0]).ok_or("failed result")?;
							need!((t.old_v, t.new_v) == (Some(o), Some(n)), "compares {:?} with {:?} instead of {o} with {n}", t.old_v, t.new_v);
						},
						_ => {
							// no text of this list except the empty one can be a revision
							let empty = force && (old.is_empty() || new.is_empty());
							need!(r.is_err() || empty, "reports {:?} although a checkout cannot succeed (git {})", r.unwrap().iter().map(|d| term_of(d).map(|t| (t.old_v, t.new_v))).collect::<Vec<_>>(), calls.iter().map(|c| c.join(" ")).collect::<Vec<_>>().join(", git "));
						},
					}
					Ok(())
				},
			);
			if c.full() {
				std::env::set_var("PATH", old_path);
				return;
			}
		}
	}
	// a git that refuses the n-th call
	for (old, new) in [("r1", "side"), ("side", "r2")] {
		for n in 1..4 {
			for ignore in [false, true] {
				repo.reset();
				fail(n);
				c.dim("refused call");
				c.case(
					|| format!("compare_commits {old} {new} with git refusing call {n}, ignoring errors: {ignore}"),
					|| {
						let r = cmp(old, new, &par(false, false, false, ignore), "weights/*.rs");
						let k = repo.calls().len();
						need!(r.is_err() == (k >= n), "git was called {k} times, result {:?}", r.map(|d| d.iter().map(|d| term_of(d).map(|t| (t.old_v, t.new_v))).collect::<Vec<_>>()).map_err(|e| e.to_string()));
						Ok(())
					},
				);
			}
		}
	}
	fail(0);
	// local modifications that a checkout refuses to overwrite
	for (old, new) in [("r1", "side"), ("main", "side")] {
		repo.reset();
		std::fs::write(repo.dir.join("weights/w.rs"), src(7)).unwrap();
		c.case(|| format!("compare_commits {old} {new} with a modified work tree"), || {
			let r = cmp(old, new, &par(false, false, false, true), "weights/*.rs");
			need!(r.is_err(), "reports a result: {:?}", r.unwrap().iter().map(|d| term_of(d).map(|t| (t.old_v, t.new_v))).collect::<Vec<_>>());
			Ok(())
		});
	}
	// a missing repository
	c.case(|| "compare_commits in a missing folder".into(), || {
		let r = compare_commits(&repo.root.join("none"), "r1", "side", &par(false, false, false, true), &nofilter(), "weights/*.rs", 100);
		need!(r.is_err(), "reports a result");
		Ok(())
	});
	// path patterns
	for pat in ["../*.rs", "weights/../*.rs", "..", "weights/*.rs,../x", "a..b"] {
		repo.reset();
		c.case(|| format!("pattern {pat}"), || {
			let r = cmp("r1", "side", &par(true, false, false, true), pat);
			need!(r.is_err(), "accepted");
			need!(repo.calls().is_empty(), "ran git {:?}", repo.calls());
			Ok(())
		});
	}
	// the commands one by one
	for rev in ["-", "--help", "-f", "--upload-pack=touch pwned", "--orphan=x"] {
		for f in 0..4 {
			repo.reset();
			c.case(|| format!("{} {rev:?}", ["git_checkout", "git_checkout --force", "git_pull", "git_reset"][f]), || {
				let r = match f {
					0 => git_checkout(&repo.dir, rev, false, false),
					1 => git_checkout(&repo.dir, rev, false, true),
					2 => git_pull(&repo.dir, rev),
					_ => git_reset(&repo.dir, rev, false),
				};
				for call in repo.calls() {
					need!(!options(&call).iter().any(|o| is_rev(o, rev)), "git takes the revision as an option: git {}", call.join(" "));
				}
				need!(r.is_err() || rev == "-", "succeeds");
				Ok(())
			});
		}
	}
	for (rev, force, want) in [("r1", false, true), ("side", false, true), ("side", true, true), ("r1", true, true), ("notes", false, false), ("nope", false, false), ("nope", true, false), ("late", false, false), ("late", true, false)] {
		repo.reset();
		c.case(|| format!("git_checkout {rev} force={force}"), || {
			let r = git_checkout(&repo.dir, rev, false, force);
			need!(r.is_ok() == want, "{r:?}");
			need!(network(&repo.calls()).is_empty(), "uses the network");
			if want {
				let now = std::fs::read_to_string(repo.dir.join("weights/w.rs")).unwrap();
				need!(now == src(val(rev).unwrap()), "has checked out something else");
			}
			Ok(())
		});
	}
	for rev in ["side", "main"] {
		for force in [false, true] {
			repo.reset();
			c.case(|| format!("git_checkout {rev} force={force} with pulling"), || {
				git_checkout(&repo.dir, rev, true, force).map_err(|e| e)?;
				need!(!network(&repo.calls()).is_empty(), "nothing was pulled");
				Ok(())
			});
		}
	}
	for (pull, offline) in [(false, false), (false, true), (true, false), (true, true)] {
		c.case(|| format!("should_pull git_pull={pull} offline={offline}"), || {
			need!(par(pull, offline, false, false).should_pull() == (pull && !offline), "is {}", !(pull && !offline));
			Ok(())
		});
	}
	// the command line hands its two revisions on in this order
	if !c.cli.is_empty() {
		let cli = c.cli.clone();
		for (i, (old, new)) in [("r1", "side"), ("side", "r1"), ("r2", "r1"), ("r1", "r2"), ("nope", "side"), ("side", "nope"), ("--detach", "side"), ("side", "-f"), ("late", "r1")].into_iter().enumerate() {
			for (k, pat) in ["weights/*.rs", "weights/../*.rs"].into_iter().enumerate() {
				let flags = [vec![], vec!["--git-pull", "--offline"], vec!["--offline"], vec!["--git-force"]][(i + k) % 4].clone();
				repo.reset();
				fail(0);
				c.dim("command line");
				c.case(|| format!("subweight compare commits {flags:?} {pat} {old} {new}"), || {
					let o = Command::new(&cli)
						.args(["compare", "commits", "--method", "base", "--unit", "time", "--threshold", "0", "--format", "csv", "--no-color", "--path-pattern", pat, "--repo"])
						.arg(&repo.dir)
						.args(&flags)
						.args(["--", old, new])
						.output()
						.map_err(|e| e.to_string())?;
					let out = strip_ansi(&String::from_utf8_lossy(&o.stdout));
					let calls = repo.calls();
					need!(network(&calls).is_empty(), "the network is used: git {}", network(&calls).join(", git "));
					if pat.contains("..") {
						need!(!o.status.success() && calls.is_empty(), "runs git {calls:?}");
						return Ok(());
					}
					match (val(old), val(new)) {
						(Some(a), Some(b)) => {
							let row: Vec<String> = out.lines().filter(|l| l.contains(".rs,")).map(|l| l.split(',').map(norm).collect::<Vec<_>>().join(",")).collect();
							let want = format!("weights/w.rs,f,{},{}", Dimension::Time.fmt_value(a), Dimension::Time.fmt_value(b));
							need!(o.status.success() && row.len() == 1 && row[0].starts_with(&want), "prints {out:?} ({}) instead of {want}", String::from_utf8_lossy(&o.stderr));
						},
						_ => need!(!o.status.success() && !out.contains(".rs"), "prints {out:?} although a checkout cannot succeed"),
					}
					Ok(())
				});
			}
		}
	}
	std::env::set_var("PATH", old_path);
	let _ = std::fs::remove_dir_all(&root);
}

// ---- C16 ----
fn strip_ansi(s: &str) -> String {
	let mut o = String::new();
	let mut it = s.chars();
	while let Some(ch) = it.next() {
		if ch == '\u{1b}' {
			for d in it.by_ref() {
				if d == 'm' {
					break;
				}
			}
		} else {
			o.push(ch);
		}
	}
	o
}
fn change_text(d: &ExtrinsicDiff) -> String {
	let t = term_of(d).unwrap();
	match t.change {
		RelativeChange::Unchanged => "Unchanged".into(),
		RelativeChange::Added => "Added".into(),
		RelativeChange::Removed => "Removed".into(),
		RelativeChange::Changed => format!("{:+.2}", t.percent),
	}
}
fn fields(d: &ExtrinsicDiff, unit: Dimension, terms: bool) -> Vec<String> {
	let Some(t) = term_of(d) else {
		return vec![d.file.clone(), d.name.clone(), "-".into(), "-".into(), "ERROR".into()];
	};
	let mut v = vec![
		d.file.clone(),
		d.name.clone(),
		t.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
		t.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
		change_text(d),
	];
	if terms {
		v.push(t.old.as_ref().map_or("-".into(), |t| t.to_string()));
		v.push(t.new.as_ref().map_or("-".into(), |t| t.to_string()));
	}
	v
}
fn norm(s: &str) -> String {
	s.split_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn c16(c: &mut Ctx) {
	let dir = c.scratch.join("c16");
	let cli = c.cli.clone();
	for k in 0..c.n(60) {
		let _ = std::fs::remove_dir_all(&dir);
		let mut lists: [Vec<PathBuf>; 2] = [vec![], vec![]];
		for side in 0..2 {
			let sub = dir.join(["old", "new"][side]);
			std::fs::create_dir_all(&sub).unwrap();
			let mut files = vec!["a.rs".to_string(), "b.rs".into(), "pallet_x.rs".into()];
			let extra = format!("{}.rs", c.rng.name(&["a", "b"]));
			if !files.contains(&extra) {
				files.push(extra);
			}
			if k % 20 == 19 {
				files.extend((0..c.rng.odd_len(150).unwrap_or(30)).map(|i| format!("m{i}.rs")));
			}
			for f in files {
				let r = &mut c.rng;
				if r.chance(1, 6) {
					continue;
				}
				let mut s = String::from("impl<T> WeightInfo for SubstrateWeight<T> {\n");
				let mut any = false;
				let long = format!("on_initialize_{}", "of_a_name_longer_than_a_column_".repeat(3) + "x");
				for n in ["f", "g_h", "zz", "q", long.as_str()] {
					if r.chance(1, 4) {
						continue;
					}
					any = true;
					if r.chance(2, 3) {
						s += "/// The range of component `n` is `[1, 100]`.\n";
					}
					let base = r.odd_len(1 << 60).unwrap_or([0usize, 0, 5, 1_000, 12_345_678, 999_999_999][r.below(6)]);
					let body = match r.below(6) {
						// the same failure in every function: the value does not fit
						4 if k % 4 == 3 => "Weight::from_parts(340282366920938463463374607431768211455, 3).saturating_add(Weight::from_parts(1, 1).saturating_mul(n.into()))".to_string(),
						0 => format!("Weight::from_parts({base}, {})", r.below(3) * 700),
						1 => format!("Weight::from_parts({base}, 1024).saturating_add(Weight::from_parts({}, 3).saturating_mul(n.into()))", r.below(50)),
						2 => format!("Weight::from_parts({base}, 0).saturating_add(T::DbWeight::get().reads({}_u64))", [1, 2, 2000][r.below(3)]),
						3 => format!("Weight::zero().saturating_add(Weight::from_parts({}, 1).saturating_mul(m.into()))", r.below(3)),
						_ => format!("Weight::from_parts({}, {})", r.below(1_000_000), r.below(5_000_000)),
					};
					s += &format!("fn {n}(n: u32, m: u32) -> Weight {{ {body} }}\n");
				}
				if !any {
					continue;
				}
				let p = sub.join(&f);
				std::fs::write(&p, s + "}\n").unwrap();
				lists[side].push(p);
			}
			if lists[side].is_empty() {
				let p = sub.join("a.rs");
				std::fs::write(&p, src(5)).unwrap();
				lists[side].push(p);
			}
		}
		let m = METHODS[c.rng.below(5)];
		let mname = ["base", "exact-worst", "guess-worst", "exact-asymptotic", "asymptotic"][METHODS.iter().position(|x| *x == m).unwrap()];
		let (unit, uname) = if c.rng.chance(2, 3) { (Dimension::Time, "time") } else { (Dimension::Proof, "proof") };
		let threshold = *c.rng.pick(&["0", "0", "5", "50"]);
		let kinds = *c.rng.pick(&["", "", "added", "changed", "removed unchanged"]);
		let terms = c.rng.chance(1, 2);
		let nocolor = c.rng.chance(1, 2);
		let strip = c.rng.chance(1, 4);
		let format = ["csv", "markdown", "human"][k as usize % 3];
		let mut cmd = Command::new(&cli);
		cmd.args(["compare", "files", "--method", mname, "--unit", uname, "--threshold", threshold, "--format", format]);
		if terms {
			cmd.arg("--print-terms");
		}
		if nocolor {
			cmd.arg("--no-color");
		}
		if strip {
			cmd.args(["--strip-path-prefix", "^pallet_"]);
		}
		if !kinds.is_empty() {
			cmd.arg("--change").args(kinds.split(' '));
		}
		cmd.arg("--old").args(&lists[0]).arg("--new").args(&lists[1]);
		c.dim(format);
		if !c.case(
			|| {
				let mut s = format!("{cmd:?}");
				for p in lists.iter().flatten() {
					s += &format!("\n--- {}\n{}", p.display(), std::fs::read_to_string(p).unwrap());
				}
				s
			},
			|| {
				let kinds: Vec<RelativeChange> = kinds
					.split(' ')
					.filter(|k| !k.is_empty())
					.map(|k| match k {
						"added" => RelativeChange::Added,
						"removed" => RelativeChange::Removed,
						"changed" => RelativeChange::Changed,
						_ => RelativeChange::Unchanged,
					})
					.collect();
				let f = FilterParams { threshold: threshold.parse().unwrap(), change: if kinds.is_empty() { None } else { Some(kinds) }, extrinsic: None, pallet: None };
				let p = CompareParams { method: m, unit, ignore_errors: false, git_pull: false, git_force: false, offline: false };
				let olds = pallet::parse_files(&lists[0])?;
				let news = pallet::parse_files(&lists[1])?;
				let mut d = compare_files(olds, news, &p, &f).map_err(|e| e.to_string())?;
				d = filter_changes(d, &f);
				sort_changes(&mut d);
				d.reverse();
				let mut cm = Command::new(&cli);
				cm.args(cmd.get_args());
				let o = cm.output().map_err(|e| format!("cannot run: {e}"))?;
				need!(o.status.success(), "fails: {}", String::from_utf8_lossy(&o.stderr));
				let raw = String::from_utf8_lossy(&o.stdout).into_owned();
				need!(!nocolor || !raw.contains('\u{1b}'), "prints colours");
				let out = strip_ansi(&raw);
				if d.is_empty() {
					need!(!out.contains(".rs"), "prints rows for nothing:\n{out}");
					return Ok(());
				}
				let fp = |f: &str| if strip && format != "csv" && f.starts_with("pallet_") { f["pallet_".len()..].to_string() } else { f.to_string() };
				let ncol = if terms { 8 } else { 5 };
				let mut want: Vec<Vec<String>> = vec![];
				if format != "csv" {
					want.extend(d.iter().filter(|x| failed(x)).map(|x| fields(x, unit, terms)));
				}
				want.extend(d.iter().filter(|x| term_of(x).is_some()).map(|x| fields(x, unit, terms)));
				let rows: Vec<Vec<String>> = if format == "csv" {
					out.lines().filter(|l| !l.is_empty()).map(|l| l.split(',').map(norm).collect()).collect()
				} else {
					out.lines()
						.filter(|l| l.starts_with('|') && !l.starts_with("|-") && !l.starts_with("|="))
						.map(|l| {
							let l = l.trim().trim_start_matches('|');
							let l = l.strip_suffix('|').unwrap_or(l);
							l.split(|c| c == '|' || c == '┆').map(norm).collect()
						})
						.collect()
				};
				need!(!rows.is_empty(), "prints no header:\n{out}");
				need!(rows[0].len() == ncol, "header has {} columns instead of {ncol}:\n{out}", rows[0].len());
				need!(rows.len() == want.len() + 1, "{} rows instead of {}:\n{out}", rows.len() - 1, want.len());
				for (g, w) in rows[1..].iter().zip(&want) {
					need!(g.len() == ncol || (format != "csv" && g.len() >= w.len()), "row has {} columns instead of {ncol}: {g:?}", g.len());
					for (i, x) in w.iter().enumerate() {
						let x = if i == 0 { fp(x) } else { norm(x) };
						need!(g[i] == x, "column {i} is `{}` instead of `{x}` in row {g:?}", g[i]);
					}
				}
				Ok(())
			},
		) {
			break;
		}
	}
	// the colour of a change tells its direction
	let _ = std::fs::remove_dir_all(&dir);
	for (o, n, code) in [(100u128, 200u128, "31"), (200, 100, "32"), (100, 100, "")] {
		let sub = dir.join("x");
		std::fs::create_dir_all(&sub).unwrap();
		let (a, b) = (sub.join("a.rs"), sub.join("b").join("a.rs"));
		std::fs::create_dir_all(b.parent().unwrap()).unwrap();
		std::fs::write(&a, src(o)).unwrap();
		std::fs::write(&b, src(n)).unwrap();
		c.case(|| format!("colour for {o} -> {n}"), || {
			let out = Command::new(&cli)
				.args(["compare", "files", "--method", "base", "--threshold", "0", "--format", "csv", "--old"])
				.arg(&a)
				.arg("--new")
				.arg(&b)
				.output()
				.map_err(|e| e.to_string())?;
			let s = String::from_utf8_lossy(&out.stdout).into_owned();
			if code.is_empty() {
				need!(!s.contains("\u{1b}[31m") && !s.contains("\u{1b}[32m"), "prints {s:?}");
			} else {
				need!(s.contains(&format!("\u{1b}[{code}m")), "prints {s:?}");
			}
			Ok(())
		});
	}
	let _ = std::fs::remove_dir_all(&dir);
}

// ---- the command line on files ----
/// Writes the functions of a side (`None`: a file that does not parse) and gives the paths.
fn side(dir: &Path, files: &[(String, Option<Vec<(String, u128)>>)]) -> Vec<PathBuf> {
	std::fs::create_dir_all(dir).unwrap();
	files
		.iter()
		.map(|(f, fns)| {
			let p = dir.join(f);
			let text = match fns {
				None => "this is no weight file".to_string(),
				Some(fns) => {
					let fns: String = fns.iter().map(|(n, v)| format!(" fn {n}() -> Weight {{ Weight::from_parts({v}, 0) }}\n")).collect();
					format!("impl<T> WeightInfo for SubstrateWeight<T> {{\n{fns}}}\n")
				},
			};
			std::fs::write(&p, text).unwrap();
			p
		})
		.collect()
}
type Row = (String, String, String, String);
/// An absent value is shown as nothing or a dash.
fn value(s: Option<&String>) -> String {
	s.filter(|s| s.as_str() != "-").cloned().unwrap_or_default()
}
/// The lines of a CSV output: file, function, old and new value.
fn rows(o: &std::process::Output) -> Vec<Row> {
	let s = strip_ansi(&String::from_utf8_lossy(&o.stdout));
	s.lines()
		.filter(|l| l.contains(".rs,"))
		.map(|l| l.split(',').map(norm).collect::<Vec<_>>())
		.map(|v| (v[0].clone(), v[1].clone(), value(v.get(2)), value(v.get(3))))
		.collect()
}
/// Random files of both sides: the functions of a file are there or not, and changed or not.
fn sides(r: &mut Rng, bad: bool) -> [Vec<(String, Option<Vec<(String, u128)>>)>; 2] {
	let mut out = [vec![], vec![]];
	for f in ["a.rs", "b.rs", "c.rs"] {
		let mut fns = [vec![], vec![]];
		for (i, n) in ["f", "g", "fg", "h"].iter().enumerate() {
			let v = 1_000 * (1 + r.below(9) as u128) + i as u128;
			let w = if r.chance(1, 3) { v } else { v * [50, 90, 97, 101, 104, 120, 300][r.below(7)] / 100 };
			for (s, x) in [v, w].into_iter().enumerate() {
				if r.chance(5, 6) {
					fns[s].push((n.to_string(), x));
				}
			}
		}
		for (s, fns) in fns.into_iter().enumerate() {
			if !fns.is_empty() && (f == "a.rs" || r.chance(2, 3)) {
				out[s].push((f.to_string(), if bad && r.chance(1, 4) { None } else { Some(fns) }));
			}
		}
	}
	for o in out.iter_mut() {
		if o.is_empty() {
			o.push(("a.rs".into(), Some(vec![("f".into(), 7)])));
		}
	}
	out
}
/// What the command line has to print for the files that parse.
fn expected(s: &[Vec<(String, Option<Vec<(String, u128)>>)>; 2]) -> BTreeMap<(String, String), [Option<u128>; 2]> {
	let mut m: BTreeMap<(String, String), [Option<u128>; 2]> = BTreeMap::new();
	for (i, s) in s.iter().enumerate() {
		for (f, fns) in s {
			for (n, v) in fns.iter().flatten() {
				m.entry((f.clone(), n.clone())).or_default()[i] = Some(*v);
			}
		}
	}
	m
}
fn row_of(k: &(String, String), v: &[Option<u128>; 2]) -> Row {
	let t = |v: Option<u128>| v.map_or(String::new(), |v| norm(&Dimension::Time.fmt_value(v)));
	(k.0.clone(), k.1.clone(), t(v[0]), t(v[1]))
}
/// `compare files` as a user runs it: `what` is the property looked at.
pub fn on_files(c: &mut Ctx, what: &str) {
	if c.cli.is_empty() {
		return;
	}
	let dir = c.scratch.join(format!("cli-{what}"));
	let cli = c.cli.clone();
	for _ in 0..c.n(24) {
		let _ = std::fs::remove_dir_all(&dir);
		let s = sides(&mut c.rng, what == "C12");
		let paths = [side(&dir.join("old"), &s[0]), side(&dir.join("new"), &s[1])];
		let bad = s.iter().flatten().any(|f| f.1.is_none());
		let ignore = what == "C12" && c.rng.chance(1, 2);
		let threshold = if what == "C09" { [0.0, 2.0, 5.0, 50.0][c.rng.below(4)] } else { 0.0 };
		let kinds: &[&str] = if what == "C09" { [&[][..], &["added"], &["changed"], &["unchanged", "removed"]][c.rng.below(4)] } else { &[] };
		let name = if what == "C08" { [None, None, Some("g")][c.rng.below(3)] } else { None };
		let mut args: Vec<String> = ["compare", "files", "--method", "base", "--unit", "time", "--format", "csv", "--no-color", "--threshold"].map(|s| s.to_string()).to_vec();
		args.push(threshold.to_string());
		if ignore {
			args.push("--ignore-errors".into());
		}
		for n in kinds {
			args.extend(["--change".into(), n.to_string()]);
		}
		if let Some(n) = name {
			args.extend(["--extrinsic".into(), n.to_string()]);
		}
		for (i, flag) in ["--old", "--new"].into_iter().enumerate() {
			args.push(flag.into());
			args.extend(paths[i].iter().map(|p| p.display().to_string()));
		}
		c.dim("command line");
		let id = format!("subweight {}\nold {:?}\nnew {:?}", args.join(" "), s[0], s[1]);
		if !c.case(|| id.clone(), || {
			let o = Command::new(&cli).args(&args).output().map_err(|e| e.to_string())?;
			let got = rows(&o);
			if bad && !ignore {
				need!(!o.status.success() && got.is_empty(), "prints {got:?} although a file does not parse");
				return Ok(());
			}
			need!(o.status.success(), "fails: {}", String::from_utf8_lossy(&o.stderr));
			let mut want: Vec<Row> = expected(&s)
				.iter()
				.filter(|(k, v)| {
					let kind = match v {
						[Some(a), Some(b)] if a == b => "unchanged",
						[Some(_), Some(_)] => "changed",
						[None, _] => "added",
						_ => "removed",
					};
					let relevant = match v {
						[Some(a), Some(b)] if a == b => threshold < 0.000001,
						[Some(a), Some(b)] => (100.0 * *b as f64 / *a as f64 - 100.0).abs() >= threshold,
						_ => true,
					};
					name.map_or(true, |n| k.1.contains(n)) && (kinds.is_empty() || kinds.contains(&kind)) && relevant
				})
				.map(|(k, v)| row_of(k, v))
				.collect();
			let mut got = got;
			got.sort();
			want.sort();
			need!(got == want, "prints {got:?} instead of {want:?}");
			Ok(())
		}) {
			break;
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
}
