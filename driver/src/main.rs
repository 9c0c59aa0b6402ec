#![feature(rustc_private)]
//! Type facts for the extractor: runs the (nightly) compiler front end on one
//! crate of /repo and writes, per source span, the resolved callee of every
//! method call and the type of its receiver and result.
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::{self as hir, intravisit::{self, Visitor}};
use rustc_middle::ty::{self, TyCtxt};
use std::io::Write;

struct Cb { out: Option<String> }

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), c => r.push(c) }
    }
    r.push('"');
    r
}

struct V<'tcx> { owner: rustc_hir::def_id::LocalDefId, tcx: TyCtxt<'tcx>, tr: &'tcx ty::TypeckResults<'tcx>, out: Vec<String> }

impl<'tcx> V<'tcx> {
    fn pos(&self, sp: rustc_span::Span) -> Option<(String, usize, usize, usize, usize)> {
        if sp.from_expansion() { return None }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        Some((f, lo.line, lo.col.0, hi.line, hi.col.0))
    }
    /// The definition actually called (trait methods resolved to their impl):
    /// `file:line:col` of its name when it is local, and its path.
    fn local(&self, did: rustc_hir::def_id::DefId, args: ty::GenericArgsRef<'tcx>) -> (String, String) {
        let te = ty::TypingEnv::post_analysis(self.tcx, self.owner);
        let did = match self.tcx.trait_of_assoc(did) {
            Some(_) if args.len() == self.tcx.generics_of(did).count() => match ty::Instance::try_resolve(self.tcx, te, did, args) { Ok(Some(i)) => i.def_id(), _ => did },
            _ => did,
        };
        let p = self.tcx.def_path_str(did);
        if did.is_local() || self.tcx.crate_name(did.krate).as_str().starts_with("subweight") {
            if let Some(sp) = self.tcx.def_ident_span(did) {
                let sm = self.tcx.sess.source_map();
                let lo = sm.lookup_char_pos(sp.lo());
                let f = format!("{}", lo.file.name.prefer_local_unconditionally());
                // a definition of another crate of the workspace
                let cwd = std::env::current_dir().map(|d| format!("{}/", d.display())).unwrap_or_default();
                let f = f.strip_prefix(&cwd).unwrap_or(&f);
                return (format!("{}:{}:{}", f, lo.line, lo.col.0), p)
            }
        }
        (String::new(), p)
    }
    fn emit(&mut self, kind: &str, sp: rustc_span::Span, fields: &[(&str, String)]) {
        if let Some((f, a, b, c, d)) = self.pos(sp) {
            let mut s = format!("{{\"kind\":{},\"file\":{},\"lo\":[{},{}],\"hi\":[{},{}]", esc(kind), esc(&f), a, b, c, d);
            for (k, v) in fields { s.push_str(&format!(",{}:{}", esc(k), esc(v))); }
            s.push('}');
            self.out.push(s);
        }
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        match e.kind {
            hir::ExprKind::MethodCall(seg, recv, args, _) => {
                if let Some(did) = self.tr.type_dependent_def_id(e.hir_id) {
                    let path = self.tcx.def_path_str(did);
                    let rt = format!("{}", self.tr.expr_ty(recv));
                    let rta = format!("{}", self.tr.expr_ty_adjusted(recv));
                    let ty = format!("{}", self.tr.expr_ty(e));
                    let (local, lpath) = self.local(did, self.tr.node_args(e.hir_id));
                    let at = args.iter().map(|a| format!("{}", self.tr.expr_ty(a))).collect::<Vec<_>>().join(" ;; ");
                    // the method name's span end identifies the call uniquely
                    self.emit("call", seg.ident.span, &[("method", seg.ident.to_string()), ("path", path), ("recv", rt), ("recv_adj", rta), ("ty", ty), ("args", at), ("local", local), ("ipath", lpath)]);
                }
            }
            hir::ExprKind::Path(ref qp) => {
                let res = self.tr.qpath_res(qp, e.hir_id);
                if let hir::def::Res::Def(k, did) = res {
                    if matches!(k, hir::def::DefKind::Fn | hir::def::DefKind::AssocFn) {
                        let (local, ipath) = self.local(did, self.tr.node_args(e.hir_id));
                        let path = self.tcx.def_path_str(did);
                        self.emit("path", e.span, &[("path", path), ("local", local), ("ipath", ipath), ("ty", format!("{}", self.tr.expr_ty(e)))]);
                    }
                }
            }
            hir::ExprKind::Match(scrut, _, src) => {
                match src {
                    hir::MatchSource::ForLoopDesugar => {
                        if let hir::ExprKind::Call(_, [arg]) = scrut.kind {
                            self.emit("for", arg.span, &[("ty", format!("{}", self.tr.expr_ty(arg)))]);
                        }
                    }
                    hir::MatchSource::TryDesugar(_) => {
                        if let hir::ExprKind::Call(_, [arg]) = scrut.kind {
                            self.emit("try", arg.span, &[("ty", format!("{}", self.tr.expr_ty(arg)))]);
                        }
                    }
                    _ => self.emit("match", scrut.span, &[("ty", format!("{}", self.tr.expr_ty(scrut)))]),
                }
            }
            hir::ExprKind::Index(b, i, _) => {
                self.emit("index", e.span, &[("recv", format!("{}", self.tr.expr_ty(b))), ("idx", format!("{}", self.tr.expr_ty(i)))]);
            }
            hir::ExprKind::Binary(op, a, b) => {
                let (local, ipath) = match self.tr.type_dependent_def_id(e.hir_id) {
                    Some(did) => self.local(did, self.tr.node_args(e.hir_id)),
                    None => Default::default(),
                };
                self.emit("binop", op.span, &[("lhs", format!("{}", self.tr.expr_ty(a))), ("rhs", format!("{}", self.tr.expr_ty(b))), ("local", local), ("ipath", ipath)]);
            }
            hir::ExprKind::Closure(c) => {
                let ty = self.tr.expr_ty(e);
                if let ty::Closure(_, args) = ty.kind() {
                    let sig = args.as_closure().sig();
                    let sig = sig.skip_binder();
                    let ins = sig.inputs().iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join(" ;; ");
                    let mut caps = vec![];
                    for cp in self.tcx.closure_captures(c.def_id) {
                        let v = cp.var_ident;
                        let s = format!("{}: {}", v.name, cp.place.base_ty);
                        if !caps.contains(&s) { caps.push(s); }
                    }
                    self.emit("closure", c.fn_decl_span, &[("params", ins), ("ret", format!("{}", sig.output())), ("caps", caps.join(" ;; "))]);
                }
            }
            hir::ExprKind::Cast(a, _) => {
                self.emit("cast", e.span, &[("from", format!("{}", self.tr.expr_ty(a))), ("to", format!("{}", self.tr.expr_ty(e)))]);
            }
            hir::ExprKind::Unary(op, a) => {
                self.emit("unop", e.span, &[("op", op.as_str().to_string()), ("ty", format!("{}", self.tr.expr_ty(a)))]);
            }
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_local(&mut self, l: &'tcx hir::LetStmt<'tcx>) {
        if let hir::PatKind::Binding(_, _, id, _) = l.pat.kind {
            let ty = format!("{}", self.tr.pat_ty(l.pat));
            self.emit("let", id.span, &[("name", id.to_string()), ("ty", ty)]);
        }
        intravisit::walk_local(self, l);
    }
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        if let Some(out) = &self.out {
            let mut lines = vec![];
            for did in tcx.hir_body_owners() {
                if !matches!(tcx.def_kind(did), hir::def::DefKind::Fn | hir::def::DefKind::AssocFn) { continue }
                let tr = tcx.typeck(did);
                let body = tcx.hir_body_owned_by(did);
                let mut v = V { owner: did, tcx, tr, out: vec![] };
                v.visit_body(body);
                lines.extend(v.out);
            }
            let mut f = std::fs::File::create(out).unwrap();
            for l in lines { writeln!(f, "{}", l).unwrap(); }
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    let out = match std::env::var("SWC_FACTS_DIR") {
        Ok(d) if !test && name != "build_script_build" && name != "___" => Some(format!("{}/{}.jsonl", d, name)),
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
}
