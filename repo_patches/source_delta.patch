From 3fef4121270b74e49e93aa99931eb7afd925759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 01/12] fix: report an overflow while evaluating a term instead
 of panicking or wrapping

---
 core/src/term.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..b5dac77 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,14 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => x
+				.eval(ctx)?
+				.checked_add(y.eval(ctx)?)
+				.ok_or_else(|| "Overflow while evaluating a sum".into()),
+			Self::Mul(x, y) => x
+				.eval(ctx)?
+				.checked_mul(y.eval(ctx)?)
+				.ok_or_else(|| "Overflow while evaluating a product".into()),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
-- 
2.43.0


From 2915721ec795f05f91db296ed86656fac2256400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 02/12] fix: evaluating a chromatic term reports an error
 instead of panicking or wrapping

---
 core/src/term.rs   | 25 +++++++++++--------------
 core/src/traits.rs |  8 ++++++++
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index b5dac77..40bd50a 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -373,32 +373,29 @@ impl ChromaticTerm {
 	pub fn eval(&self, ctx: &crate::scope::ChromaticScope) -> Result<Weight, String> {
 		match self {
 			Self::Value(x) => Ok(x.clone()),
-			Self::Scalar(_) => unreachable!("Scalars cannot be evaluated; qed"),
+			Self::Scalar(_) => Err("A scalar is not a weight".into()),
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
-				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				let (m, n): (u128, u128) = y.eval(ctx)?.into();
+				match (m.checked_add(a), n.checked_add(b)) {
+					(Some(time), Some(proof)) => Ok((time, proof).into()),
+					_ => Err("Overflow while evaluating a sum".into()),
+				}
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
-				(Self::Scalar(x), y) => {
-					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
-				},
-				(x, Self::Scalar(y)) => {
-					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
-				},
+				(Self::Scalar(x), y) => y.eval(ctx)?.checked_mul_scalar(*x),
+				(x, Self::Scalar(y)) => x.eval(ctx)?.checked_mul_scalar(*y),
 				(Self::Var(x), y) => match ctx.get(x) {
-					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
+					Some(Self::Scalar(x)) => y.eval(ctx)?.checked_mul_scalar(x),
 					Some(_) => Err(format!("Variable '{}' is not a scalar", x.deref())),
 					None => Err(format!("Variable '{}' not found", x.deref())),
 				},
 				(x, Self::Var(y)) => match ctx.get(y) {
-					Some(Self::Scalar(y)) => Ok(x.eval(ctx)?.mul_scalar(y)),
+					Some(Self::Scalar(y)) => x.eval(ctx)?.checked_mul_scalar(y),
 					Some(_) => Err(format!("Variable '{}' is not a scalar", y.deref())),
 					None => Err(format!("Variable '{}' not found", y.deref())),
 				},
-				_ => unreachable!("Cannot multiply two terms; qed"),
+				_ => Err("Cannot multiply two weights".into()),
 			},
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
diff --git a/core/src/traits.rs b/core/src/traits.rs
index e9af584..bf7644d 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -82,4 +82,12 @@ impl Weight {
 	pub fn mul_scalar(&self, other: u128) -> Self {
 		Self { time: self.time * other, proof: self.proof * other }
 	}
+
+	/// Same as [`Self::mul_scalar`] but errors if the result does not fit.
+	pub fn checked_mul_scalar(&self, other: u128) -> Result<Self, String> {
+		match (self.time.checked_mul(other), self.proof.checked_mul(other)) {
+			(Some(time), Some(proof)) => Ok(Self { time, proof }),
+			_ => Err("Overflow while evaluating a product".into()),
+		}
+	}
 }
-- 
2.43.0


From ce48c444a802e69c444de4d934a4231240b0b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 03/12] fix: two failed results rank equal so that sorting uses
 a total order

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..79c7489 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -770,6 +770,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From 47707c9e8e61a4ef8068fb33aa6772e7aae39146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 04/12] fix: printed equations drop zero products and keep
 required brackets

---
 core/src/term.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 40bd50a..a50c2a9 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -279,9 +279,8 @@ where
 				} else {
 					match (l.maybe_fmt_with_bracket(false), r.maybe_fmt_with_bracket(false)) {
 						(Some(l), Some(r)) => Some(format!("{} * {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
+						// One factor is zero and therefore also the whole product.
+						_ => None,
 					}
 				}
 			},
@@ -303,8 +302,9 @@ where
 				} else {
 					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
 						(Some(l), Some(r)) => Some(format!("({} + {})", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
+						// Only one summand remains, so it has to bring its own brackets.
+						(Some(_), None) => l.maybe_fmt_with_bracket(false),
+						(None, Some(_)) => r.maybe_fmt_with_bracket(false),
 						(None, None) => None,
 					}
 				}
-- 
2.43.0


From c011b243aed967ccd85562d74c2c3a3ebc3bb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 05/12] fix: separate the percentage from the old term in the
 CSV output

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..8dc715b 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -280,7 +280,7 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{},",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
-- 
2.43.0


From a554aee2c170b69ec3f32ed5d301e532ef8ef01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 06/12] fix: reject unsupported literals and statements instead
 of panicking

---
 core/src/parse/pallet.rs  | 15 +++++++++------
 core/src/parse/storage.rs |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..bddd9d2 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err("The statement of a weight function must be an expression".into()),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
@@ -307,7 +307,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -427,7 +427,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -523,10 +523,13 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i
+			.base10_digits()
+			.parse()
+			.map_err(|e| format!("Invalid int literal {}: {:?}", i.base10_digits(), e)),
+		_ => Err("Expected an int literal".into()),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From f5c43e4bfc0e4d602b97317a62516765a4ffe762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 07/12] fix: find the declared range of a component whose name
 contains underscores

---
 core/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 79c7489..d84e459 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -624,7 +624,13 @@ fn instance_component(
 ) -> Result<u32, String> {
 	use MinOrMax::*;
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	// The ranges are keyed by the component names without underscores.
+	let stripped = component.replace('_', "");
+	let range_of = |ranges: &Option<HashMap<String, ComponentRange>>| {
+		ranges.as_ref().and_then(|r| r.get(component).or_else(|| r.get(&stripped)).copied())
+	};
+
+	match (range_of(ra), range_of(rb)) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From d07ec58a5b3f247fed74228642aba3ec5c7983ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 08/12] fix: refuse refnames that git would interpret as
 options

---
 core/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d84e459..2716b2a 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -215,6 +215,7 @@ pub fn git_checkout(
 	should_pull: bool,
 	force: bool,
 ) -> Result<(), String> {
+	validate_refname(refname)?;
 	if force {
 		return git_reset(path, refname, should_pull)
 	}
@@ -243,7 +244,16 @@ pub fn git_checkout(
 	Ok(())
 }
 
+/// Prevents that a refname is interpreted as an option by git.
+fn validate_refname(refname: &str) -> Result<(), String> {
+	if refname.starts_with('-') {
+		return Err(format!("Invalid refname: {}", refname))
+	}
+	Ok(())
+}
+
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
+	validate_refname(refname)?;
 	log::info!("Fetching branch {}", refname);
 
 	let output = Command::new("git")
@@ -262,6 +272,7 @@ pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 }
 
 pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
+	validate_refname(refname)?;
 	if pull {
 		git_pull(path, refname)?;
 	} else {
-- 
2.43.0


From 0beb5c8a24f8e1b5a8e24323e11ce7cc6f819cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 09/12] fix: never let git check out a path instead of a
 revision

---
 core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 2716b2a..1d40755 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -230,6 +230,8 @@ pub fn git_checkout(
 	let output = Command::new("git")
 		.arg("checkout")
 		.arg(refname)
+		// Otherwise git falls back to interpreting the refname as path.
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-- 
2.43.0


From 9504ddb4a04dccca675e7ef7248c90cee24ed1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 10/12] fix: bracketed or cast read and write counts stay
 scalars so that they are checked

---
 core/src/parse/pallet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index bddd9d2..b1f13f1 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -427,6 +427,9 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
+		// A literal stays a scalar, also when it is bracketed or cast.
+		Expr::Paren(expr) => parse_rw(&expr.expr),
+		Expr::Cast(cast) => parse_rw(&cast.expr),
 		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
-- 
2.43.0


From 815cb12fc91c1cbf2f536af29bd43522c897f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 11/12] fix: read and write counts in the old syntax are
 checked as well

---
 core/src/term.rs   |  5 +++--
 core/src/traits.rs | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index a50c2a9..92f95e0 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -180,7 +180,7 @@ impl SimpleTerm {
 
 impl<T> Term<T>
 where
-	T: Clone + core::fmt::Display + One + Zero + PartialEq + Eq + ValueFormatter,
+	T: Clone + core::fmt::Display + One + Zero + PartialEq + Eq + ValueFormatter + AsScalar,
 {
 	pub fn is_const_zero(&self) -> bool {
 		match self {
@@ -355,6 +355,7 @@ where
 
 	pub fn as_scalar(&self) -> Option<u128> {
 		match self {
+			Self::Value(val) => val.as_scalar(),
 			Self::Scalar(val) => Some(*val),
 			_ => None,
 		}
@@ -457,7 +458,7 @@ impl ChromaticTerm {
 
 impl<T> fmt::Display for Term<T>
 where
-	T: Clone + core::fmt::Display + One + Zero + PartialEq + Eq + ValueFormatter,
+	T: Clone + core::fmt::Display + One + Zero + PartialEq + Eq + ValueFormatter + AsScalar,
 {
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		write!(f, "{}", self.fmt_with_bracket(true))
diff --git a/core/src/traits.rs b/core/src/traits.rs
index bf7644d..c2aafdd 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -26,6 +26,17 @@ impl ValueFormatter for u128 {
 	}
 }
 
+/// Conversion into a plain number, for types that are one.
+pub trait AsScalar {
+	fn as_scalar(&self) -> Option<u128>;
+}
+
+impl AsScalar for u128 {
+	fn as_scalar(&self) -> Option<u128> {
+		Some(*self)
+	}
+}
+
 pub trait ValueFormatter {
 	fn format_scalar(&self) -> String;
 }
@@ -66,6 +77,12 @@ impl From<u128> for Weight {
 	}
 }
 
+impl AsScalar for Weight {
+	fn as_scalar(&self) -> Option<u128> {
+		None
+	}
+}
+
 impl ValueFormatter for Weight {
 	fn format_scalar(&self) -> String {
 		format!("({}, {})", self.time, self.proof)
-- 
2.43.0


From 75b0a9caed4efde3e112b82d3ff13ba5feebc9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 12/12] fix: take the base path literally when listing files

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 1d40755..5dc83ca 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -320,10 +320,12 @@ fn list_files(
 	max_files: usize,
 ) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 	let regex = regex.split(',');
+	// Only the regex is a pattern; the path itself is taken literally.
+	let base_path = glob::Pattern::escape(&base_path.display().to_string());
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		let regex = format!("{}/{}", base_path, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0

