//! C20: the file listing function, copied unchanged out of core/src/lib.rs on every run.
mod common;
#[allow(clippy::all)]
mod items {
	include!(env!("SWC_ITEMS"));
}
mod tree;
use common::*;
use std::path::{Path, PathBuf};
use tree::*;

fn c20(c: &mut Ctx) {
	let scratch = c.scratch.join("c20l");
	for round in 0..c.n(24) {
		if c.full() {
			break;
		}
		let t = Tree::make(c, &scratch, round);
		for _ in 0..40 {
			if c.full() {
				break;
			}
			let (pattern, matches) = t.pattern(c);
			let all: usize = matches.iter().map(|m| m.len()).sum();
			let mut want: Vec<PathBuf> = matches.into_iter().flatten().map(|p| t.base.join(p)).collect();
			want.sort();
			want.dedup();
			let max = match c.rng.below(5) {
				0 => want.len(),
				1 => want.len().saturating_sub(1),
				2 => c.rng.odd_len(1000).unwrap_or(c.rng.below(4)),
				_ => 1000,
			};
			c.dim(if max < want.len() { "too many" } else if want.is_empty() { "none" } else { "some" });
			let base: &Path = &t.base;
			c.case(
				|| format!("{pattern:?} below {base:?} with {:?}, at most {max}", t.files),
				|| {
					let got = items::list_files(base, &pattern, max);
					match got {
						Err(_) if max < all => Ok(()),
						Err(e) => Err(format!("error {e}")),
						Ok(g) if max < want.len() => Err(format!("{} files of {} returned", g.len(), want.len())),
						Ok(g) if g != want => Err(format!("returned {g:?}, expected {want:?}")),
						Ok(_) => Ok(()),
					}
				},
			);
		}
		for bad in ["***", "a/[", "a**", "x.rs,a/***,b", "[z"] {
			c.dim("invalid");
			c.case(
				|| format!("{bad:?}"),
				|| match items::list_files(&t.base, bad, 1000) {
					Err(_) => Ok(()),
					Ok(g) => Err(format!("invalid pattern gave {g:?}")),
				},
			);
		}
		unreadable(c, &t.base);
		t.remove();
	}
}

extern "C" {
	fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
}
/// Reading a directory that must not be read is an error. Only a thread that gives up its rights can see this.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
fn unreadable(c: &mut Ctx, base: &Path) {
	use std::os::unix::fs::PermissionsExt;
	let closed = base.join("closed");
	std::fs::create_dir_all(&closed).unwrap();
	std::fs::write(closed.join("x.rs"), "").unwrap();
	let mode = |m| std::fs::set_permissions(&closed, std::fs::Permissions::from_mode(m)).unwrap();
	mode(0);
	for pattern in ["**/*.rs", "closed/*.rs", "x.rs,closed/*", "closed/*,*.rs"] {
		let dir = base.to_path_buf();
		let got = std::thread::spawn(move || {
			// setresuid, of this thread only
			let nobody = 65534 as std::ffi::c_long;
			let _ = unsafe { syscall(117, nobody, nobody, nobody) };
			match (std::fs::read_dir(&dir), std::fs::read_dir(dir.join("closed"))) {
				(Ok(_), Err(_)) => Some(items::list_files(&dir, pattern, 1000).map_err(|e| e.to_string())),
				_ => None,
			}
		})
		.join();
		c.dim(if matches!(got, Ok(None)) { "unreadable, not tested" } else { "unreadable" });
		c.case(
			|| format!("{pattern:?} below {base:?}, where `closed` cannot be read"),
			|| match got {
				Ok(None) | Ok(Some(Err(_))) => Ok(()),
				Ok(Some(Ok(g))) => Err(format!("returned {g:?}, without what cannot be read")),
				Err(_) => Err("panic".into()),
			},
		);
	}
	mode(0o700);
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64")))]
fn unreadable(_: &mut Ctx, _: &Path) {}

fn main() {
	run(|id, c| {
		if id != "C20" {
			return None;
		}
		c20(c);
		Some(())
	})
}
