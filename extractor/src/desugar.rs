//! Rewrites the body of one function of /repo into the subset of Rust the verifier accepts.
//! Every rewrite is general (keyed on compiler facts), none on the text of a particular function.
use crate::{contracts::Db, facts::*, flow::*, index::*, util::*};
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{spanned::Spanned, visit_mut::VisitMut, *};

#[derive(Clone)]
pub struct SpecReq {
    pub key: String,
    pub callee: String,
    pub name: String,
    pub closure: ExprClosure,
    pub file: String,
    pub module: String,
    pub caps: Vec<(String, String)>,
    /// concrete self type (text) when the impl is generic
    pub self_ty: Option<String>,
    pub tymap: BTreeMap<String, String>,
}
#[derive(Clone, Default, Debug)]
pub struct LoopInfo {
    pub src: String,
    pub i: String,
    pub acc: String,
    pub n: String,
    /// first value of the counter, if the loop counts
    pub lo: String,
    /// written as a loop, or as an iterator chain ending in this consumer
    pub shape: String,
}
pub struct Ds<'a> {
    pub ix: &'a crate::index::Index,
    pub facts: &'a Facts,
    pub db: &'a Db,
    pub key: String,
    pub file: String,
    pub module: String,
    pub n: usize,
    pub deps: BTreeSet<String>,
    pub specs: Vec<SpecReq>,
    pub loops: BTreeMap<usize, LoopInfo>,
    pub rewrites: BTreeMap<String, usize>,
    /// closure parameter of a specialised function: name -> request
    pub paren: Option<proc_macro2::Span>,
    pub fparam: Option<(String, SpecReq)>,
    pub errs: Vec<String>,
    pub nclo: usize,
    pub fmt_model: bool,
    pub inlined: Vec<String>,
    pub can_inline: &'a dyn Fn(&str) -> bool,
    pub tail_fmt: bool,
    pub sink_name: String,
    /// generic parameters of the impl fixed to one instance
    pub mono: BTreeMap<String, String>,
}

enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Cloned,
    Enumerate,
    Flatten,
    Skip(Expr),
}
struct Pipe {
    src: Expr,
    by_ref: bool,
    range: bool,
    ads: Vec<Ad>,
}

const ADAPT: &[&str] = &["map", "filter", "filter_map", "cloned", "copied", "enumerate", "flatten", "chain", "zip", "skip", "rev", "by_ref"];
const SINK: &[&str] = &["collect", "all", "any", "find", "max", "min", "max_by", "min_by", "next", "last", "count", "fold", "for_each", "sum", "position", "find_map"];
const PATTERN: &[&str] = &["starts_with", "ends_with", "contains", "replace", "split", "strip_prefix", "strip_suffix", "trim_matches", "trim_start_matches", "trim_end_matches"];
const OPT: &[&str] = &["map", "and_then", "unwrap_or_else", "ok_or", "ok_or_else", "map_or", "map_or_else", "or_else", "or", "filter", "unwrap_or_default", "is_some_and", "is_none_or", "zip", "flatten", "and", "xor"];
const RES: &[&str] = &["map", "map_err", "and_then", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "or_else", "is_ok_and"];

impl<'a> Ds<'a> {
    fn hit(&mut self, r: &str) {
        *self.rewrites.entry(r.into()).or_default() += 1;
    }
    fn fresh(&mut self, p: &str) -> syn::Ident {
        self.n += 1;
        id(&format!("__{p}{}", self.n))
    }
    fn err(&mut self, e: impl Into<String>) {
        self.errs.push(e.into());
    }
    pub fn call_fact(&self, m: &ExprMethodCall) -> Option<Fact> {
        self.facts.at("call", &self.file, m.method.span()).cloned()
    }
    fn key_of(&self, pos: &str) -> Option<String> {
        self.ix.pos.get(pos).cloned()
    }

    // ---- entry points -------------------------------------------------------
    pub fn body(&mut self, b: &Block) -> Block {
        self.block(b.clone())
    }
    pub fn block(&mut self, b: Block) -> Block {
        let stmts = self.stmts(b.stmts);
        Block { brace_token: b.brace_token, stmts }
    }
    fn stmts(&mut self, v: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = vec![];
        let v = self.named_closures(v);
        let n = v.len();
        for (i, s) in v.into_iter().enumerate() {
            match s {
                Stmt::Local(mut l) => {
                    self.ty_pat(&mut l.pat);
                    if let Some(init) = &mut l.init {
                        *init.expr = self.ex((*init.expr).clone());
                        if let Some((_, d)) = &mut init.diverge {
                            **d = self.ex((**d).clone());
                        }
                    }
                    l.attrs.clear();
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(e, semi) => {
                    let e = self.ex(e);
                    // a dropped statement
                    if let Expr::Tuple(t) = &e {
                        if t.elems.is_empty() && (semi.is_some() || i + 1 < n) {
                            continue;
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "lazy_static" {
                        // a lazily initialised constant is a plain binding
                        match parse2::<LazyStatics>(m.mac.tokens.clone()) {
                            Ok(ls) => {
                                for (n, t, e) in ls.0 {
                                    let e = self.ex(e);
                                    out.push(parse_quote!(let #n: #t = #e;));
                                }
                            }
                            Err(_) => self.err("lazy_static"),
                        }
                        continue;
                    }
                    let e = self.mac(&m.mac);
                    if let Expr::Tuple(t) = &e {
                        if t.elems.is_empty() {
                            continue;
                        }
                    }
                    let semi = if i + 1 == n { m.semi_token } else { Some(Default::default()) };
                    if i + 1 == n && semi.is_some() && tstr(&e) == tstr(&parse_quote!(crate::vx::never()) as &Expr) {
                        // a block that ends in a panic has every type
                        out.push(parse_quote!(return crate::vx::never();));
                        continue;
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Item(Item::Use(u)) => out.push(Stmt::Item(Item::Use(u))),
                Stmt::Item(Item::Const(mut c)) => {
                    c.attrs.clear();
                    // a local constant is a plain binding
                    let (n, t) = (c.ident.clone(), c.ty.clone());
                    let e = self.ex((*c.expr).clone());
                    out.push(parse_quote!(let #n: #t = #e;));
                }
                Stmt::Item(_) => self.err("item inside a function body"),
            }
        }
        out
    }
    /// `let f = |x| body;` whose every later use names the closure itself: the uses become the closure.
    fn named_closures(&mut self, v: Vec<Stmt>) -> Vec<Stmt> {
        let mut v = v;
        let mut i = 0;
        while i < v.len() {
            let found = match &v[i] {
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match (strip_pat_type(pat), strip_paren(expr)) {
                    (Pat::Ident(PatIdent { ident, by_ref: None, subpat: None, .. }), Expr::Closure(c)) if c.capture.is_none() && c.asyncness.is_none() => Some((ident.clone(), c.clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = found {
                let mut rest = v.split_off(i + 1);
                if closure_can_move(&name, &c, &rest) {
                    let mut s = ClosureUses { name: &name, c: &c };
                    for x in &mut rest {
                        syn::visit_mut::VisitMut::visit_stmt_mut(&mut s, x);
                    }
                    self.hit("named closure");
                    v.pop();
                    v.extend(rest);
                    continue;
                }
                v.extend(rest);
            }
            i += 1;
        }
        v
    }
    fn ty_pat(&mut self, p: &mut Pat) {
        let _ = p;
    }

    fn children(&mut self, mut e: Expr) -> Expr {
        struct C<'x, 'a>(&'x mut Ds<'a>);
        impl<'x, 'a> VisitMut for C<'x, 'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                let o = std::mem::replace(e, Expr::Verbatim(TokenStream::new()));
                *e = self.0.ex(o);
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                let o = std::mem::replace(b, Block { brace_token: Default::default(), stmts: vec![] });
                *b = self.0.block(o);
            }
            fn visit_pat_mut(&mut self, _p: &mut Pat) {}
        }
        let mut c = C(self);
        visit_mut::visit_expr_mut(&mut c, &mut e);
        e
    }

    pub fn ex(&mut self, e: Expr) -> Expr {
        let paren = self.paren.take();
        match e {
            Expr::Paren(p) => {
                // the compiler's span of a parenthesised expression includes the parentheses
                self.paren = Some(p.span());
                let i = self.ex(*p.expr);
                match i {
                    Expr::Path(_) | Expr::Block(_) | Expr::Call(_) => i,
                    i => parse_quote!((#i)),
                }
            }
            Expr::Group(p) => self.ex(*p.expr),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => {
                let uid = self.uid("while");
                let (c, b) = (self.ex(*w.cond), self.block(w.body));
                let (bf, bm, af) = markers(uid);
                let st = b.stmts;
                parse_quote!({ #bf while #c { #bm #(#st)* } #af })
            }
            Expr::Loop(w) => {
                let uid = self.uid("loop");
                let b = self.block(w.body);
                let (bf, bm, _) = markers(uid);
                let st = b.stmts;
                parse_quote!({ #bf loop { #bm #(#st)* } })
            }
            Expr::Try(t) => {
                let is_opt = self.try_opt(&t.expr);
                let x = self.ex(*t.expr);
                if is_opt {
                    parse_quote!(match #x { Some(__v) => __v, None => return None })
                } else {
                    parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(__e.vinto()) })
                }
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Cast(c) => {
                let f = self.facts.at("cast", &self.file, c.span()).or_else(|| paren.and_then(|s| self.facts.at("cast", &self.file, s))).cloned();
                let x = self.ex(*c.expr);
                let t = &c.ty;
                if let Some(f) = f {
                    let (a, b) = (f.get("from"), f.get("to"));
                    if a == "f64" || b == "f64" {
                        if a == b {
                            return x;
                        }
                        self.hit("float cast");
                        let n = id(&format!("{}_to_{}", ident_of(a), ident_of(b)));
                        return parse_quote!(crate::vx::#n(#x));
                    }
                }
                parse_quote!((#x) as #t)
            }
            Expr::Unary(u) => {
                let ty = self.facts.at("unop", &self.file, u.span()).or_else(|| paren.and_then(|s| self.facts.at("unop", &self.file, s))).map(|f| f.get("ty").to_string()).unwrap_or_default();
                if ty == "f64" {
                    if let UnOp::Neg(_) = u.op {
                        let x = self.ex(*u.expr);
                        return parse_quote!(crate::vx::f64_neg(#x));
                    }
                }
                self.children(Expr::Unary(u))
            }
            Expr::Match(m) => self.mtch(m),
            Expr::If(i) => {
                let mut i = i;
                *i.cond = self.ex((*i.cond).clone());
                i.then_branch = self.block(i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    **e = self.ex((**e).clone());
                    if !matches!(**e, Expr::If(_) | Expr::Block(_)) {
                        let x = (**e).clone();
                        **e = parse_quote!({ #x });
                    }
                }
                Expr::If(i)
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    self.err("labelled block");
                }
                let k = self.block(b.block);
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: k })
            }
            Expr::Closure(c) => self.closure_value(c, false),
            Expr::Path(p) => self.path(p, false),
            Expr::Lit(l) => {
                let f = match &l.lit {
                    Lit::Float(f) => f.base10_parse::<f64>().ok(),
                    Lit::Int(i) if i.suffix() == "f64" => i.base10_digits().parse::<f64>().ok(),
                    _ => None,
                };
                {
                    if let Some(x) = f {
                        self.hit("float literal");
                        let b = proc_macro2::Literal::u64_suffixed(x.to_bits());
                        return parse_quote!(crate::vx::f64_bits(#b));
                    }
                }
                Expr::Lit(l)
            }
            Expr::Index(i) => {
                let f = self.facts.at("index", &self.file, i.span()).or_else(|| paren.and_then(|s| self.facts.at("index", &self.file, s))).cloned();
                let (b, x) = (self.ex(*i.expr), self.ex(*i.index));
                if let Some(f) = f {
                    let h = head(f.get("recv"));
                    if let Some(t) = self.db.calls.get(&format!("Index::index[{h}]")) {
                        let t: Path = parse_str(t).unwrap();
                        let b = if f.get("recv").starts_with('&') { b } else { parse_quote!(&#b) };
                        return parse_quote!((*#t(#b, #x)));
                    }
                }
                parse_quote!(#b[#x])
            }
            e => self.children(e),
        }
    }
    fn uid(&mut self, shape: &str) -> usize {
        self.n += 1;
        self.loops.insert(self.n, LoopInfo { shape: shape.into(), ..Default::default() });
        self.n
    }
    fn try_opt(&self, e: &Expr) -> bool {
        self.facts.at("try", &self.file, e.span()).map_or(false, |f| head(f.get("ty")) == "Option")
    }

    // ---- paths and calls ----------------------------------------------------
    fn path(&mut self, p: ExprPath, called: bool) -> Expr {
        if let Some(f) = self.facts.at("path", &self.file, p.span()).cloned() {
            if !f.get("local").is_empty() {
                if let Some(k) = self.key_of(f.get("local")) {
                    self.deps.insert(k.clone());
                    if let Some(fi) = self.ix.fns.get(&k) {
                        if fi.ctx.as_ref().map_or(false, |c| c.trait_.is_some()) {
                            return self.trait_fn_path(&k);
                        }
                    }
                }
            } else {
                let c = canon(f.get("path"));
                let ty = f.get("ty").to_string();
                let ret = ty.rsplit("->").next().unwrap_or("").split(" {").next().unwrap_or("").to_string();
                let h = head(&ret);
                let hit = self.db.calls.get(&format!("{c}[{}]", unref(&ret))).or_else(|| self.db.calls.get(&format!("{c}[{h}]"))).or_else(|| self.db.calls.get(&c)).cloned();
                if let Some(t) = hit {
                    self.hit("library call");
                    let t: Path = parse_str(&t).unwrap();
                    return parse_quote!(#t);
                }
                let _ = called;
            }
        }
        if p.path.segments.len() == 1 && p.path.segments[0].ident == "VERSION" {
            return p.into();
        }
        Expr::Path(p)
    }
    /// A trait method named by path: inherent function emitted for the impl, or the local trait.
    fn trait_fn_path(&mut self, k: &str) -> Expr {
        let fi = &self.ix.fns[k];
        let c = fi.ctx.as_ref().unwrap();
        let st = &c.self_ty;
        let n = &fi.sig.ident;
        reset_e(parse_quote!(<#st>::#n))
    }
    fn call(&mut self, c: ExprCall) -> Expr {
        // call of the closure parameter of a specialised function
        if let Some((f, rq)) = self.fparam.clone() {
            if let Expr::Path(p) = strip_paren(&c.func) {
                if p.path.is_ident(&f) {
                    let args: Vec<Expr> = c.args.iter().map(|a| self.ex(a.clone())).collect();
                    return self.beta_in(&rq, args);
                }
            }
        }
        if let Expr::Path(p) = strip_paren(&c.func) {
            if let Some(f) = self.facts.at("path", &self.file, p.span()).cloned() {
                let owner = p.path.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
                if let Some(k) = self.key_of(f.get("local")).or_else(|| self.mono_trait_fn(&f, &owner)) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    return self.local_call(&k, None, args, Some(p.clone()), "", "");
                }
                let cn = canon(f.get("path"));
                if cn == "Into::into" || cn == "From::from" || cn == "Box::from" || cn == "String::from" {
                    self.hit("into");
                    let a = self.ex(c.args[0].clone());
                    return parse_quote!((#a).vinto());
                }
                if cn == "cmp::min" || cn == "cmp::max" {
                    let t = tyn(f.get("ty"));
                    let t = t.rsplit("->").next().unwrap_or("").split('{').next().unwrap_or("").trim();
                    let n = format!("Ord::{}[{t}]", &cn[5..]);
                    if let Some(g) = self.db.calls.get(&n) {
                        let g: Path = parse_str(g).unwrap();
                        self.hit("library call");
                        let (a, b) = (self.ex(c.args[0].clone()), self.ex(c.args[1].clone()));
                        return parse_quote!(#g(#a, #b));
                    }
                }
                if cn == "Default::default" || cn.ends_with("::default") && !self.db.calls.contains_key(&cn) {
                    return parse_quote!(crate::vx::VDefault::vdefault());
                }
            }
        }
        // a closure called on the spot: its parameters are bound to the arguments
        if let Expr::Closure(k) = strip_paren(&c.func) {
            let tys = self.facts.at("closure", &self.file, k.span()).map(|f| split_top(tyn(f.get("params")).trim_start_matches('(').trim_end_matches(')'))).unwrap_or_default();
            let mut lets: Vec<Stmt> = vec![];
            let mut names: Vec<Expr> = vec![];
            for (i, a) in c.args.iter().enumerate() {
                let a = self.arg(a.clone());
                let n = self.fresh("c");
                match tys.get(i).map(|t| self.fact_ty(t)) {
                    Some(t) => lets.push(parse_quote!(let #n: #t = #a;)),
                    None => lets.push(parse_quote!(let #n = #a;)),
                }
                names.push(parse_quote!(#n));
            }
            let f = Expr::Closure(k.clone());
            let e = self.beta(&f, names);
            return parse_quote!({ #(#lets)* #e });
        }
        let func = match *c.func {
            Expr::Path(p) => self.path(p, true),
            f => self.ex(f),
        };
        let mut args: Vec<Expr> = c.args.into_iter().map(|a| self.arg(a)).collect();
        if let Some(x) = self.db.call_pass.get(&tstr(&func)) {
            args.push(Expr::Verbatim(ts(x)));
        }
        parse_quote!(#func(#(#args),*))
    }
    fn arg(&mut self, a: Expr) -> Expr {
        match a {
            Expr::Closure(c) => self.closure_value(c, true),
            a => self.ex(a),
        }
    }
    /// A closure that stays a closure: typed parameters, contract from the database.
    fn closure_value(&mut self, c: ExprClosure, _arg: bool) -> Expr {
        let f = self.facts.at("closure", &self.file, c.span()).cloned();
        let k = self.nclo;
        self.nclo += 1;
        let body = self.ex(*c.body);
        let mut ps: Vec<TokenStream> = vec![];
        let tys = f.as_ref().map(|f| split_top(tyn(f.get("params")).trim_start_matches('(').trim_end_matches(')'))).unwrap_or_default();
        let mut pre: Vec<Stmt> = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let ty = tys.get(i).cloned();
            match (strip_pat_type(p), ty) {
                (Pat::Ident(pi), Some(t)) => {
                    let t = self.fact_ty(&t);
                    let n = &pi.ident;
                    ps.push(quote!(#n: #t));
                }
                (p, Some(t)) => {
                    let t = self.fact_ty(&t);
                    let n = id(&format!("__p{i}"));
                    ps.push(quote!(#n: #t));
                    pre.push(parse_quote!(let #p = #n;));
                }
                (p, None) => ps.push(quote!(#p)),
            }
        }
        let ret = f.map(|f| self.fact_ty(&tyn(f.get("ret")))).unwrap_or(quote!(_));
        let lit = proc_macro2::Literal::usize_unsuffixed(k);
        Expr::Verbatim(quote!(__vx_clo!(#lit, [#(#ps),*], [#ret], { #(#pre)* #body })))
    }

    /// A type named by the compiler, as it is emitted.
    fn fact_ty(&self, t: &str) -> TokenStream {
        let Ok(mut t) = parse_str::<Type>(&subst_words(t, &self.mono)) else { return ts(t) };
        crate::emit::TyRw { db: self.db, map: self.mono.clone() }.visit_type_mut(&mut t);
        t.to_token_stream()
    }
    /// `None` of a known item type
    fn none_of(&self, rt: &str) -> Expr {
        let g = generic_args(rt);
        if head(rt) == "Option" && g.len() == 1 && !g[0].contains('\'') && !g[0].contains('&') {
            let t = self.fact_ty(&g[0]);
            return parse_quote!(None::<#t>);
        }
        parse_quote!(None)
    }
    fn adj(&mut self, recv: Expr, ty: &str, adj: &str) -> Expr {
        let (t, a) = (tyn(ty), tyn(adj));
        if t == a {
            return recv;
        }
        if a.starts_with("&mut ") {
            if t.starts_with("&mut ") {
                return recv;
            }
            return parse_quote!(&mut #recv);
        }
        if a.starts_with('&') {
            return parse_quote!(&(#recv));
        }
        if t == format!("&{a}") || t == format!("&mut {a}") {
            return parse_quote!((*#recv));
        }
        recv
    }

    fn method(&mut self, m: ExprMethodCall) -> Expr {
        let name = m.method.to_string();
        let fact = self.call_fact(&m);
        let Some(f) = fact else {
            // generated, or from a macro expansion
            if name == "into" {
                self.hit("into");
                let r = self.ex(*m.receiver);
                return parse_quote!((#r).vinto());
            }
            if let Some((fp, _)) = &self.fparam {
                let _ = fp;
            }
            let (r, mm) = (self.ex(*m.receiver), m.method);
            let args: Vec<Expr> = m.args.into_iter().map(|a| self.arg(a)).collect();
            return parse_quote!(#r.#mm(#(#args),*));
        };
        let c = canon(f.get("path"));
        let (own, meth) = c.split_once("::").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default();
        let rty = f.get("recv").to_string();
        let rh = head(&rty);
        let args: Vec<Expr> = m.args.iter().cloned().collect();

        if own == "Iterator" && SINK.contains(&meth.as_str()) {
            return self.sink(&m, &meth, &f);
        }
        if own == "Iterator" && ADAPT.contains(&meth.as_str()) {
            // an iterator kept in a variable: materialised
            if let Some(p) = self.pipe(&Expr::MethodCall(m.clone())) {
                self.hit("iterator materialised");
                return self.materialise(p);
            }
        }
        if own == "Ordering" && matches!(meth.as_str(), "then" | "then_with" | "reverse" | "is_lt" | "is_le" | "is_gt" | "is_ge" | "is_eq" | "is_ne") {
            self.hit("Ordering combinator");
            let r = self.ex(*m.receiver);
            let o: Path = parse_quote!(std::cmp::Ordering);
            return match meth.as_str() {
                "then_with" => { let b = self.beta(&args[0], vec![]); parse_quote!((match #r { #o::Equal => #b, __o => __o })) }
                "then" => { let b = self.ex(args[0].clone()); parse_quote!((match (#r, #b) { (#o::Equal, __b) => __b, (__o, _) => __o })) }
                "reverse" => parse_quote!((match #r { #o::Less => #o::Greater, #o::Equal => #o::Equal, #o::Greater => #o::Less })),
                "is_lt" => parse_quote!(matches!(#r, #o::Less)),
                "is_le" => parse_quote!(matches!(#r, #o::Less | #o::Equal)),
                "is_gt" => parse_quote!(matches!(#r, #o::Greater)),
                "is_ge" => parse_quote!(matches!(#r, #o::Greater | #o::Equal)),
                "is_eq" => parse_quote!(matches!(#r, #o::Equal)),
                _ => parse_quote!((!matches!(#r, #o::Equal))),
            };
        }
        if c == "Vec::retain" && args.len() == 1 {
            // the list rebuilt from its kept items
            self.hit("Vec::retain");
            let r = self.ex(*m.receiver);
            let place: Expr = if tyn(&rty).starts_with('&') { parse_quote!(*#r) } else { r };
            let src: Expr = parse_quote!(crate::vx::vec_take(&mut #place));
            self.sink_name = "collect".into();
            let p = Pipe { src, by_ref: false, range: false, ads: vec![Ad::Filter(args[0].clone())] };
            let v = self.materialise(p);
            return parse_quote!({ #place = #v; });
        }
        if own == "Extend" && meth == "extend" && matches!(rh.as_str(), "HashSet" | "BTreeSet") {
            let at = f.get("args").to_string();
            let r = self.ex(*m.receiver);
            let r = self.adj(r, &rty, f.get("recv_adj"));
            let a = self.vec_of(&args[0], &at);
            return parse_quote!(crate::vx::oset_extend(#r, #a));
        }
        if own == "Extend" && meth == "extend" && rh == "Vec" {
            let at = f.get("args").to_string();
            let r = self.ex(*m.receiver);
            let r = self.adj(r, &rty, f.get("recv_adj"));
            let a = self.vec_of(&args[0], &at);
            return parse_quote!(crate::vx::vec_extend(#r, #a));
        }
        if own == "Option" && OPT.contains(&meth.as_str()) {
            if let Some(e) = self.opt(&m, &meth, &args) {
                return e;
            }
        }
        if own == "Result" && RES.contains(&meth.as_str()) {
            if let Some(e) = self.res(&m, &meth, &args) {
                return e;
            }
        }
        if own == "bool" && meth == "then" || own == "bool" && meth == "then_some" {
            let r = self.ex(*m.receiver);
            let v = if meth == "then" { self.beta(&args[0], vec![]) } else { self.ex(args[0].clone()) };
            return parse_quote!((if #r { Some(#v) } else { None }));
        }
        if let Some(k) = self.key_of(f.get("local")).or_else(|| self.mono_trait_fn(&f, &unref(&rty))) {
            return self.local_call(&k, Some((*m.receiver).clone()), args, None, &rty, f.get("recv_adj"));
        }
        if c == "Into::into" || c == "From::from" {
            self.hit("into");
            let r = self.ex(*m.receiver);
            return parse_quote!((#r).vinto());
        }
        if c == "TryInto::try_into" && f.get("local").is_empty() {
            // resolved to the blanket impl; the crate's own impl is found by name
            if let Some(k) = self.ix.fns.values().find(|x| x.sig.ident == "try_into" && x.ctx.as_ref().map_or(false, |c| head(&tstr(&c.self_ty)) == rh)).map(|x| x.key.clone()) {
                self.deps.insert(k);
                let r = self.ex(*m.receiver);
                return parse_quote!(#r.try_into());
            }
        }
        if c == "str::parse" {
            // `parse` of a crate type is its `from_str`
            let g = generic_args(f.get("ty")).first().cloned().unwrap_or_default();
            if let Some(k) = self.ix.fns.values().find(|x| x.sig.ident == "from_str" && x.ctx.as_ref().map_or(false, |c| tstr(&c.self_ty) == g)).map(|x| x.key.clone()) {
                self.deps.insert(k);
                let r = self.ex(*m.receiver);
                let r = self.adj(r, &rty, f.get("recv_adj"));
                let g = ts(&g);
                return Expr::Verbatim(quote!(<#g>::from_str(#r)));
            }
        }
        if c == "Clone::clone" || c == "ToOwned::to_owned" {
            if c == "Clone::clone" && tyn(f.get("recv_adj")).starts_with("&&") {
                let r = self.ex(*m.receiver);
                return parse_quote!((*&(#r)));
            }
            if c == "Clone::clone" && f.get("ipath").contains("Copy") {
                return self.ex(*m.receiver);
            }
            self.hit("clone");
            if let Some(w) = self.ix.hand_written("Clone", f.get("recv_adj")) {
                self.err(format!("hand-written Clone of `{w}`"));
            }
            if c == "ToOwned::to_owned" && rh == "str" {
                let r = self.ex(*m.receiver);
                return parse_quote!((#r).vinto());
            }
            let r = self.ex(*m.receiver);
            let r = self.adj(r, &rty, f.get("recv_adj"));
            return parse_quote!(crate::vx::clone(#r));
        }
        if c == "AsRef::as_ref" && tyn(f.get("recv_adj")).starts_with("&Box<") {
            let r = self.ex(*m.receiver);
            return if tyn(&rty).starts_with('&') { parse_quote!((&**#r)) } else { parse_quote!((&*#r)) };
        }
        let keys = [format!("{c}[{}]", unref(&rty)), format!("{c}[{rh}]"), c.clone()];
        let hit = keys.iter().find_map(|k| self.db.calls.get(k).cloned());
        if let Some(t) = hit {
            self.hit("library call");
            let extra = self.db.call_pass.get(&t).cloned();
            let t: Path = parse_str(&t).unwrap();
            let r = self.ex(*m.receiver);
            let r = self.adj(r, &rty, f.get("recv_adj"));
            let mut args: Vec<Expr> = args.into_iter().map(|a| self.arg(a)).collect();
            // A pattern of one character is that character.
            if c.starts_with("str::") && PATTERN.iter().any(|p| *p == &c[5..]) {
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() {
                    let v = l.value();
                    let mut cs = v.chars();
                    if let (Some(ch), None) = (cs.next(), cs.next()) {
                        args[0] = parse_quote!(#ch);
                    }
                }
            }
            if let Some(x) = extra {
                args.push(Expr::Verbatim(ts(&x)));
            }
            return parse_quote!(#t(#r, #(#args),*));
        }
        let (r, mm) = (self.ex(*m.receiver), m.method);
        let args: Vec<Expr> = args.into_iter().map(|a| self.arg(a)).collect();
        parse_quote!(#r.#mm(#(#args),*))
    }

    /// A method of a trait of the crate on a generic parameter fixed to one instance.
    fn mono_trait_fn(&self, f: &Fact, ty: &str) -> Option<String> {
        let conc = self.mono.get(ty).cloned().or_else(|| self.mono.values().find(|v| *v == ty).cloned())?;
        let c = canon(f.get("ipath"));
        let (tr, m) = c.split_once("::")?;
        self.ix
            .fns
            .values()
            .find(|x| x.sig.ident == m && x.ctx.as_ref().map_or(false, |c| tstr(&c.self_ty) == conc && c.trait_.as_ref().map_or(false, |t| t.segments.last().unwrap().ident == tr)))
            .map(|x| x.key.clone())
    }
    // ---- calls of functions of the crate -------------------------------------
    fn local_call(&mut self, k: &str, recv: Option<Expr>, args: Vec<Expr>, path: Option<ExprPath>, rty: &str, radj: &str) -> Expr {
        let fi = self.ix.fns[k].clone();
        // recursive call inside a specialised function
        if let Some((fp, rq)) = self.fparam.clone() {
            if rq.callee == k {
                let keep: Vec<Expr> = args.iter().filter(|a| !mentions(a, &fp)).map(|a| self.ex((*a).clone())).collect();
                let caps: Vec<Expr> = rq.caps.iter().map(|c| { let i = id(&c.0); parse_quote!(#i) }).collect();
                let r = self.ex(recv.unwrap());
                let n = id(&rq.name);
                return parse_quote!(#r.#n(#(#keep,)* #(#caps),*));
            }
        }
        // higher-order callee with a closure literal: specialise
        let ci = args.iter().position(|a| closure_lit(a).is_some());
        if let (Some(ci), true) = (ci, is_higher_order(&fi)) {
            return self.specialise(&fi, recv, args, ci, rty);
        }
        if (self.can_inline)(k) && !self.inlined.contains(&k.to_string()) && self.inlined.len() < 4 {
            match self.inline(&fi, recv.clone(), args.clone(), rty, radj) {
                Ok(e) => {
                    self.hit(&format!("callee inlined: {k}"));
                    return e;
                }
                Err(e) => if std::env::var("SWC_DEBUG").is_ok() { eprintln!("{k} not inlined: {e}") },
            }
        }
        self.deps.insert(k.to_string());
        let extra = self.db.fns.get(k).map(|c| c.pass.clone()).unwrap_or_default();
        let mut a: Vec<Expr> = args.into_iter().map(|a| self.arg(a)).collect();
        if !extra.is_empty() {
            a.push(Expr::Verbatim(ts(&extra)));
        }
        let m = &fi.sig.ident;
        if let Some(n) = self.free_fn(&fi) {
            if let Some(r) = recv {
                let r = self.ex(r);
                a.insert(0, self.adj(r, rty, radj));
            }
            return parse_quote!(#n(#(#a),*));
        }
        match (recv, path) {
            (Some(r), _) => {
                let r = self.ex(r);
                parse_quote!(#r.#m(#(#a),*))
            }
            (None, Some(p)) => {
                let f = self.path(p, true);
                parse_quote!(#f(#(#a),*))
            }
            _ => unreachable!(),
        }
    }
    /// Where a trait method of a primitive type is emitted.
    fn free_fn(&self, fi: &FnInfo) -> Option<Path> {
        let c = fi.ctx.as_ref()?;
        let t = c.trait_.as_ref()?;
        let st = tstr(&c.self_ty);
        if !matches!(st.as_str(), "u128" | "u64" | "u32" | "usize" | "bool" | "String") {
            return None;
        }
        let n = crate::emit::free_name(&tstr(t.segments.last().unwrap()), &fi.sig.ident.to_string(), &st);
        parse_str(&if fi.module == "crate" { format!("crate::{n}") } else { format!("crate::{}::{n}", fi.module) }).ok()
    }
    /// Calls a function without a contract by putting its body in place.
    fn inline(&mut self, fi: &FnInfo, recv: Option<Expr>, args: Vec<Expr>, rty: &str, radj: &str) -> R<Expr> {
        if !fi.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return Err("generic callee".into());
        }
        let saved = (self.file.clone(), self.module.clone(), self.errs.len(), self.n, self.loops.clone());
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut vals = vec![];
        if let Some(r) = recv {
            let r = self.ex(r);
            vals.push(self.adj(r, rty, radj));
        }
        for a in args {
            vals.push(self.arg(a));
        }
        let mut selfname = None;
        for (inp, v) in fi.sig.inputs.iter().zip(vals) {
            let t = self.fresh("a");
            match inp {
                FnArg::Receiver(_) => {
                    pre.push(parse_quote!(let #t = #v;));
                    selfname = Some(t);
                }
                FnArg::Typed(pt) => {
                    let ty = &pt.ty;
                    if matches!(**ty, Type::ImplTrait(_)) {
                        return Err("impl Trait parameter".into());
                    }
                    // a reference to a named type: the call site may have relied on a deref coercion
                    let named = match &**ty {
                        Type::Reference(r) => matches!(&*r.elem, Type::Path(q) if q.path.segments.len() == 1 && q.path.segments[0].arguments.is_none() && plain_name(&q.path.segments[0].ident.to_string())),
                        // the call site may convert into it
                        Type::Path(q) => q.path.is_ident("String"),
                        _ => false,
                    };
                    if named {
                        let mut ty = (**ty).clone();
                        if let Type::Reference(r) = &mut ty {
                            r.lifetime = None;
                        }
                        crate::emit::TyRw { db: self.db, map: self.mono.clone() }.visit_type_mut(&mut ty);
                        pre.push(parse_quote!(let #t: #ty = #v;));
                    } else {
                        pre.push(parse_quote!(let #t = #v;));
                    }
                    let p = &pt.pat;
                    post.push(parse_quote!(let #p = #t;));
                }
            }
        }
        self.file = fi.file.clone();
        self.module = fi.module.clone();
        self.inlined.push(fi.key.clone());
        let facts = self.facts;
        let file = self.file.clone();
        let is_opt = move |e: &Expr| facts.at("try", &file, e.span()).map_or(false, |f| head(f.get("ty")) == "Option");
        let mut body = fi.block.clone();
        rename_self(&mut body, &selfname.clone().unwrap_or(id("self")), fi);
        let res = Flow { mode: Mode::Return, is_opt: &is_opt, n: &mut self.n }.block(body);
        let out = match res {
            Ok(b) => {
                let b = self.block(b);
                let st = b.stmts;
                match self.result_type(fi) {
                    Some(t) => Ok(parse_quote!({ #(#pre)* #(#post)* let __inl: #t = { #(#st)* }; __inl })),
                    None => Ok(parse_quote!({ #(#pre)* #(#post)* #(#st)* })),
                }
            }
            Err(e) => Err(e),
        };
        self.inlined.pop();
        self.file = saved.0;
        self.module = saved.1;
        if out.is_err() || self.errs.len() > saved.2 {
            if std::env::var("SWC_DEBUG").is_ok() { eprintln!("{:?}", &self.errs[saved.2..]) }
            self.errs.truncate(saved.2);
            self.n = saved.3;
            self.loops = saved.4;
            return Err(out.err().unwrap_or("inlining failed".into()));
        }
        out
    }
    /// The `Result` type an inlined function returns: its error type is not evident from its body.
    fn result_type(&self, fi: &FnInfo) -> Option<Type> {
        let ReturnType::Type(_, t) = &fi.sig.output else { return None };
        let s = tstr(t);
        if head(&s) != "Result" {
            return None;
        }
        let mut a = generic_args(&s);
        if let (2, Type::Path(q)) = (a.len(), &**t) {
            // as written, with the standard name
            if !a.iter().any(|x| x.contains("Self") || x.contains("Weight") || x.contains("impl") || x.contains('\'')) {
                let args = q.path.segments.last().unwrap().arguments.clone();
                let mut r: Path = parse_quote!(std::result::Result);
                r.segments.last_mut().unwrap().arguments = args;
                let mut t: Type = parse_quote!(#r);
                crate::emit::TyRw { db: self.db, map: self.mono.clone() }.visit_type_mut(&mut t);
                return Some(t);
            }
        }
        if a.len() == 1 {
            let al = self.ix.types.iter().find(|x| x.name == "Result" && x.module == fi.module)?;
            let Item::Type(al) = &al.item else { return None };
            let b = generic_args(&tstr(&al.ty));
            a.push(b.get(1)?.clone());
        }
        if a.len() != 2 || a.iter().any(|x| x.contains("Self") || x.contains("Weight") || x.contains("impl") || x.contains("'")) {
            return None;
        }
        let mut t: Type = parse_str(&format!("std::result::Result<{},{}>", a[0], a[1])).ok()?;
        crate::emit::TyRw { db: self.db, map: self.mono.clone() }.visit_type_mut(&mut t);
        Some(t)
    }
    fn specialise(&mut self, fi: &FnInfo, recv: Option<Expr>, args: Vec<Expr>, ci: usize, rty: &str) -> Expr {
        self.hit("closure specialisation");
        let clo = closure_lit(&args[ci]).unwrap();
        let cf = self.facts.at("closure", &self.file, clo.span()).cloned().unwrap_or_default();
        let caller = self.key.rsplit("::").next().unwrap().split('@').next().unwrap().to_string();
        let name = format!("{}__{}", fi.sig.ident, caller);
        let mut caps = vec![];
        for c in cf.get("caps").split(" ;; ").filter(|x| !x.is_empty()) {
            if let Some((a, b)) = c.split_once(": ") {
                let t = tyn(b);
                let t = if t.starts_with('&') || self.is_copy(&t) { t } else { format!("&{t}") };
                caps.push((a.to_string(), t));
            }
        }
        let mut tymap = BTreeMap::new();
        // generics of the callee from the closure's return type
        for p in &fi.sig.generics.params {
            if let GenericParam::Type(t) = p {
                tymap.insert(t.ident.to_string(), String::new());
            }
        }
        let bound = fn_bound(fi);
        if let Some((bret, _)) = &bound {
            unify(&tyn(&tstr(bret)), &tyn(cf.get("ret")), &mut tymap);
        }
        let mut self_ty = None;
        if let Some(c) = &fi.ctx {
            if !c.generics.params.is_empty() {
                let st = tyn(&tstr(&c.self_ty));
                let conc = unref(rty);
                for p in &c.generics.params {
                    if let GenericParam::Type(t) = p {
                        tymap.insert(t.ident.to_string(), String::new());
                    }
                }
                unify(&st, &conc, &mut tymap);
                for v in tymap.values_mut() {
                    if let Some(m) = self.mono.get(v) {
                        *v = m.clone();
                    }
                }
                let conc = subst_words(&conc, &self.mono);
                self_ty = Some(conc);
            }
        }
        let key = format!("{}@{}", fi.key, caller);
        let rq = SpecReq { key, callee: fi.key.clone(), name: name.clone(), closure: clo, file: self.file.clone(), module: self.module.clone(), caps: caps.clone(), self_ty, tymap };
        if !self.specs.iter().any(|s| s.key == rq.key && tstr(&s.closure) == tstr(&rq.closure)) {
            if self.specs.iter().any(|s| s.key == rq.key && tstr(&s.closure) != tstr(&rq.closure)) {
                self.err("two different closures passed to one higher-order function");
            }
            self.specs.push(rq);
        }
        let keep: Vec<Expr> = args.iter().enumerate().filter(|(i, _)| *i != ci).map(|(_, a)| self.ex(a.clone())).collect();
        let caps: Vec<Expr> = caps
            .iter()
            .map(|(n, t)| {
                let i = id(n);
                let vt = cf.get("caps").split(" ;; ").find_map(|c| c.split_once(": ").filter(|x| x.0 == n).map(|x| tyn(x.1))).unwrap_or_default();
                if t.starts_with('&') && !vt.starts_with('&') {
                    parse_quote!(&#i)
                } else {
                    parse_quote!(#i)
                }
            })
            .collect();
        let n = id(&name);
        match recv {
            Some(r) => {
                let r = self.ex(r);
                parse_quote!(#r.#n(#(#keep,)* #(#caps),*))
            }
            None => parse_quote!(#n(#(#keep,)* #(#caps),*)),
        }
    }
    fn is_copy(&self, t: &str) -> bool {
        matches!(t, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "bool" | "f64" | "char") || self.ix.types.iter().any(|x| x.name == t && x.derives.iter().any(|d| d == "Copy"))
    }
    fn beta_in(&mut self, rq: &SpecReq, args: Vec<Expr>) -> Expr {
        let saved = (std::mem::replace(&mut self.file, rq.file.clone()), std::mem::replace(&mut self.module, rq.module.clone()), self.fparam.take());
        let e = self.beta(&Expr::Closure(rq.closure.clone()), args);
        self.file = saved.0;
        self.module = saved.1;
        self.fparam = saved.2;
        e
    }

    // ---- closures as expressions ---------------------------------------------
    /// `f(args)` for a closure literal (beta reduced) or a function path. `args` are already rewritten.
    fn beta(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        match strip_paren(f) {
            Expr::Closure(c) => {
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    let (p, a) = peel(strip_pat_type(p), a);
                    match &p {
                        Pat::Wild(_) => {}
                        Pat::Ident(i) if matches!(&a, Expr::Path(q) if q.path.is_ident(&i.ident)) => {}
                        _ => lets.push(parse_quote!(let #p = #a;)),
                    }
                }
                let body = block_of((*c.body).clone());
                let sc = scan_b(&body);
                let body = if sc.ret || sc.tryy {
                    let facts = self.facts;
                    let file = self.file.clone();
                    let is_opt = move |e: &Expr| facts.at("try", &file, e.span()).map_or(false, |f| head(f.get("ty")) == "Option");
                    match (Flow { mode: Mode::Return, is_opt: &is_opt, n: &mut self.n }).block(body.clone()) {
                        Ok(b) => {
                            self.hit("return elimination");
                            b
                        }
                        Err(e) => {
                            self.err(e);
                            body
                        }
                    }
                } else {
                    body
                };
                let b = self.block(body);
                // the type of `Ok(..)`/`Err(..)` is known from the closure's type
                if sc.ret || sc.tryy {
                    let ret = self.facts.at("closure", &self.file, c.span()).map(|f| subst_words(&tyn(f.get("ret")), &self.mono)).unwrap_or_default();
                    if let (true, Ok(t)) = (head(&ret) == "Result", parse2::<Type>(self.fact_ty(&ret))) {
                        let v = self.fresh("b");
                        let st = b.stmts;
                        return parse_quote!({ #(#lets)* let #v: #t = { #(#st)* }; #v });
                    }
                }
                if lets.is_empty() {
                    return expr_of(b);
                }
                let st = b.stmts;
                parse_quote!({ #(#lets)* #(#st)* })
            }
            Expr::Path(p) => {
                if let Some(fc) = self.facts.at("path", &self.file, p.span()).cloned() {
                    if let Some(k) = self.key_of(fc.get("local")) {
                        // a function without a contract: its body in place
                        if (self.can_inline)(&k) && args.iter().all(|a| matches!(strip_ref(a), Expr::Path(_))) && self.ix.fns[&k].sig.receiver().is_none() {
                            return self.local_call(&k, None, args, Some(p.clone()), "", "");
                        }
                        self.deps.insert(k.clone());
                        let fp = self.path(p.clone(), true);
                        return parse_quote!(#fp(#(#args),*));
                    }
                    let cn = canon(fc.get("path"));
                    if matches!(cn.as_str(), "Into::into" | "From::from" | "String::from" | "Box::from") {
                        let a = &args[0];
                        return parse_quote!((#a).vinto());
                    }
                    let keys: Vec<String> = vec![cn.clone()];
                    if let Some(t) = keys.iter().find_map(|k| self.db.calls.get(k).cloned()) {
                        let t: Path = parse_str(&t).unwrap();
                        return parse_quote!(#t(#(#args),*));
                    }
                }
                parse_quote!(#p(#(#args),*))
            }
            f => {
                let f = self.ex(f.clone());
                parse_quote!((#f)(#(#args),*))
            }
        }
    }

    // ---- Option / Result -------------------------------------------------------
    fn opt(&mut self, m: &ExprMethodCall, name: &str, args: &[Expr]) -> Option<Expr> {
        self.hit("Option combinator");
        let v = self.fresh("o");
        let x = self.ex((*m.receiver).clone());
        let vv: Expr = parse_quote!(#v);
        Some(match name {
            "map" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Some(#v) => Some(#b), None => None })) }
            "and_then" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Some(#v) => #b, None => None })) }
            "unwrap_or_else" => { let b = self.beta(&args[0], vec![]); parse_quote!((match #x { Some(#v) => #v, None => #b })) }
            "ok_or" => { let b = self.ex(args[0].clone()); parse_quote!((match #x { Some(#v) => Ok(#v), None => Err(#b) })) }
            "ok_or_else" => { let b = self.beta(&args[0], vec![]); parse_quote!((match #x { Some(#v) => Ok(#v), None => Err(#b) })) }
            "map_or" => { let d = self.ex(args[0].clone()); let b = self.beta(&args[1], vec![vv]); parse_quote!((match #x { Some(#v) => #b, None => #d })) }
            "map_or_else" => { let d = self.beta(&args[0], vec![]); let b = self.beta(&args[1], vec![vv]); parse_quote!((match #x { Some(#v) => #b, None => #d })) }
            "or_else" => { let b = self.beta(&args[0], vec![]); parse_quote!((match #x { Some(#v) => Some(#v), None => #b })) }
            "or" => { let b = self.ex(args[0].clone()); parse_quote!((match (#x, #b) { (Some(#v), _) => Some(#v), (None, __w) => __w })) }
            "filter" => { let b = self.beta(&args[0], vec![parse_quote!(&#v)]); parse_quote!((match #x { Some(#v) => if #b { Some(#v) } else { None }, None => None })) }
            "is_some_and" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Some(#v) => #b, None => false })) }
            "is_none_or" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Some(#v) => #b, None => true })) }
            "unwrap_or_default" => parse_quote!((match #x { Some(#v) => #v, None => crate::vx::VDefault::vdefault() })),
            "zip" => { let b = self.ex(args[0].clone()); parse_quote!((match (#x, #b) { (Some(#v), Some(__w)) => Some((#v, __w)), _ => None })) }
            "flatten" => parse_quote!((match #x { Some(#v) => #v, None => None })),
            "and" => { let b = self.ex(args[0].clone()); parse_quote!((match (#x, #b) { (Some(_), __w) => __w, (None, _) => None })) }
            "xor" => { let b = self.ex(args[0].clone()); parse_quote!((match (#x, #b) { (Some(#v), None) => Some(#v), (None, Some(__w)) => Some(__w), _ => None })) }
            _ => return None,
        })
    }
    fn res(&mut self, m: &ExprMethodCall, name: &str, args: &[Expr]) -> Option<Expr> {
        self.hit("Result combinator");
        let v = self.fresh("o");
        let x = self.ex((*m.receiver).clone());
        let vv: Expr = parse_quote!(#v);
        Some(match name {
            "map" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(#v) => Ok(#b), Err(__e) => Err(__e) })) }
            "map_err" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(__r) => Ok(__r), Err(#v) => Err(#b) })) }
            "and_then" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(#v) => #b, Err(__e) => Err(__e) })) }
            "or_else" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(__r) => Ok(__r), Err(#v) => #b })) }
            "unwrap_or_else" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(__r) => __r, Err(#v) => #b })) }
            "unwrap_or_default" => parse_quote!((match #x { Ok(#v) => #v, Err(_) => crate::vx::VDefault::vdefault() })),
            "map_or" => { let d = self.ex(args[0].clone()); let b = self.beta(&args[1], vec![vv]); parse_quote!((match #x { Ok(#v) => #b, Err(_) => #d })) }
            "map_or_else" => { let d = self.beta(&args[0], vec![parse_quote!(__e)]); let b = self.beta(&args[1], vec![vv]); parse_quote!((match #x { Ok(#v) => #b, Err(__e) => #d })) }
            "is_ok_and" => { let b = self.beta(&args[0], vec![vv]); parse_quote!((match #x { Ok(#v) => #b, Err(_) => false })) }
            _ => return None,
        })
    }

    // ---- iterator pipelines ------------------------------------------------------
    fn pipe(&mut self, e: &Expr) -> Option<Pipe> {
        if let Expr::MethodCall(m) = strip_paren(e) {
            if let Some(f) = self.call_fact(m) {
                let c = canon(f.get("path"));
                let (own, meth) = c.split_once("::").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default();
                let rty = tyn(f.get("recv"));
                if own == "Iterator" && ADAPT.contains(&meth.as_str()) {
                    match meth.as_str() {
                        "chain" | "zip" => {
                            let a = { let p = self.pipe(&m.receiver)?; self.materialise(p) };
                            let at = f.get("args").to_string();
                            let b = self.vec_of(&m.args[0], &at);
                            let n = id(&format!("vec_{meth}"));
                            return Some(Pipe { src: parse_quote!(crate::vx::#n(#a, #b)), by_ref: false, range: false, ads: vec![] });
                        }
                        "rev" => {
                            let a = { let p = self.pipe(&m.receiver)?; self.materialise(p) };
                            return Some(Pipe { src: parse_quote!(crate::vx::vec_rev(#a)), by_ref: false, range: false, ads: vec![] });
                        }
                        _ => {}
                    }
                    let mut p = self.pipe(&m.receiver)?;
                    p.ads.push(match meth.as_str() {
                        "map" => Ad::Map(m.args[0].clone()),
                        "filter" => Ad::Filter(m.args[0].clone()),
                        "filter_map" => Ad::FilterMap(m.args[0].clone()),
                        "cloned" | "copied" => Ad::Cloned,
                        "enumerate" => Ad::Enumerate,
                        "flatten" => Ad::Flatten,
                        "skip" => Ad::Skip(m.args[0].clone()),
                        _ => return Some(p),
                    });
                    return Some(p);
                }
                if c == "slice::iter" || c == "Vec::iter" {
                    let r = self.ex((*m.receiver).clone());
                    let src = if rty.starts_with('&') { r } else { parse_quote!(&#r) };
                    return Some(Pipe { src, by_ref: true, range: false, ads: vec![] });
                }
                if c == "IntoIterator::into_iter" {
                    return self.source(&m.receiver, &rty);
                }
            }
        }
        if let Expr::Range(r) = strip_paren(e) {
            return self.range(r);
        }
        let x = self.ex(e.clone());
        Some(Pipe { src: x, by_ref: false, range: false, ads: vec![] })
    }
    fn range(&mut self, r: &ExprRange) -> Option<Pipe> {
        let a = self.ex((**r.start.as_ref()?).clone());
        let b = self.ex((**r.end.as_ref()?).clone());
        let src: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(#a..(#b + 1)) } else { parse_quote!(#a..#b) };
        Some(Pipe { src, by_ref: false, range: true, ads: vec![] })
    }
    /// An expression of type `ty` used as a source of items.
    fn source(&mut self, e: &Expr, ty: &str) -> Option<Pipe> {
        let t = tyn(ty);
        let h = head(&t);
        if let Expr::Range(r) = strip_paren(e) {
            return self.range(r);
        }
        if t.starts_with("Vec<") {
            let x = self.ex(e.clone());
            return Some(Pipe { src: x, by_ref: false, range: false, ads: vec![] });
        }
        if (h == "Vec" || h == "slice") && t.starts_with('&') {
            let x = self.ex(e.clone());
            return Some(Pipe { src: x, by_ref: true, range: false, ads: vec![] });
        }
        for k in [format!("source[{t}]"), format!("source[{}{h}]", if t.starts_with('&') { "&" } else { "" })] {
            if let Some(f) = self.db.calls.get(&k).cloned() {
                let f: Path = parse_str(&f).unwrap();
                let x = self.ex(e.clone());
                return Some(Pipe { src: parse_quote!(#f(#x)), by_ref: false, range: false, ads: vec![] });
            }
        }
        // an iterator
        self.pipe(e)
    }
    fn vec_of(&mut self, e: &Expr, ty: &str) -> Expr {
        match self.source(e, ty) {
            Some(p) => self.materialise(p),
            None => {
                self.err("iterator source");
                e.clone()
            }
        }
    }
    fn materialise(&mut self, p: Pipe) -> Expr {
        if p.ads.is_empty() && !p.range {
            let s = p.src;
            return if p.by_ref { parse_quote!(crate::vx::vec_refs(#s)) } else { s };
        }
        if matches!(p.ads[..], [Ad::Cloned]) && !p.range && !p.by_ref {
            let s = p.src;
            return parse_quote!(crate::vx::vec_cloned(#s));
        }
        self.run(p, |_, acc, x| parse_quote!({ #acc.push(#x); }), parse_quote!(Vec::new()), |acc| parse_quote!(#acc))
    }
    /// The loop: binds the item, applies the adaptors, runs `step`.
    fn run(&mut self, p: Pipe, step: impl FnOnce(&mut Self, &Ident, Expr) -> Block, init: Expr, fin: impl FnOnce(&Ident) -> Expr) -> Expr {
        self.hit("iterator pipeline");
        let shape = format!("chain.{}", std::mem::take(&mut self.sink_name));
        let uid = self.uid(&shape);
        let acc = id(&format!("__acc{uid}"));
        let item = id(&format!("__x{uid}"));
        let (mut pre, head, bind) = self.header(&p, uid, &parse_quote!(#item));
        let body = self.adapt(p.ads, 0, parse_quote!(#item), uid, &mut pre, |s, x| step(s, &acc, x));
        self.loops.get_mut(&uid).unwrap().acc = acc.to_string();
        let (bf, bm, af) = markers(uid);
        let f = fin(&acc);
        let st = body.stmts;
        parse_quote!({ #(#pre)* let mut #acc = #init; #bf while #head { #bm #bind #(#st)* } #af #f })
    }
    fn header(&mut self, p: &Pipe, uid: usize, pat: &Pat) -> (Vec<Stmt>, TokenStream, TokenStream) {
        let i = id(&format!("__i{uid}"));
        let src = &p.src;
        if p.range {
            let name = match pat {
                Pat::Ident(x) => x.ident.to_string(),
                _ => i.to_string(),
            };
            let li = self.loops.get_mut(&uid).unwrap();
            li.i = name.clone();
            li.src = "()".into();
            // bounds are evaluated once, in order
            let n = id(&format!("__n{uid}"));
            let lo = id(&format!("__lo{uid}"));
            let Expr::Range(r) = src else { unreachable!() };
            let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
            li.n = n.to_string();
            let nm = id(&name);
            li.lo = lo.to_string();
            return (vec![parse_quote!(let #lo = #a;), parse_quote!(let #n = #b;), parse_quote!(let mut #nm = #lo;)], quote!(#nm < #n), quote!());
        }
        let s = id(&format!("__src{uid}"));
        let n = id(&format!("__n{uid}"));
        let li = self.loops.get_mut(&uid).unwrap();
        li.i = i.to_string();
        li.src = s.to_string();
        li.n = n.to_string();
        li.lo = "0".into();
        let pre = vec![parse_quote!(let #s = #src;), parse_quote!(let #n = #s.len();), parse_quote!(let mut #i: usize = 0;)];
        let get: TokenStream = if p.by_ref { quote!(&#s[#i]) } else { quote!(crate::vx::item(&#s, #i)) };
        let (pat, get) = match pat {
            Pat::Reference(r) if p.by_ref => (r.pat.to_token_stream(), quote!(#s[#i])),
            p => (p.to_token_stream(), get),
        };
        (pre, quote!(#i < #n), quote!(let #pat = #get;))
    }
    fn adapt(&mut self, ads: Vec<Ad>, k: usize, x: Expr, uid: usize, pre: &mut Vec<Stmt>, inner: impl FnOnce(&mut Self, Expr) -> Block) -> Block {
        let mut ads = ads.into_iter();
        let Some(a) = ads.next() else { return inner(self, x) };
        let rest: Vec<Ad> = ads.collect();
        match a {
            Ad::Map(f) => {
                let y = self.fresh("y");
                let v = self.beta(&f, vec![x]);
                let b = self.adapt(rest, k + 1, parse_quote!(#y), uid, pre, inner).stmts;
                parse_quote!({ let #y = #v; #(#b)* })
            }
            Ad::Cloned => {
                let y = self.fresh("y");
                let b = self.adapt(rest, k + 1, parse_quote!(#y), uid, pre, inner).stmts;
                parse_quote!({ let #y = crate::vx::clone(#x); #(#b)* })
            }
            Ad::Filter(f) => {
                let c = self.beta(&f, vec![parse_quote!(&#x)]);
                let b = self.adapt(rest, k + 1, x, uid, pre, inner);
                parse_quote!({ if #c #b })
            }
            Ad::FilterMap(f) => {
                let y = self.fresh("y");
                let v = self.beta(&f, vec![x]);
                let b = self.adapt(rest, k + 1, parse_quote!(#y), uid, pre, inner).stmts;
                parse_quote!({ if let Some(#y) = #v { #(#b)* } })
            }
            Ad::Flatten => {
                let y = self.fresh("y");
                let b = self.adapt(rest, k + 1, parse_quote!(#y), uid, pre, inner).stmts;
                parse_quote!({ if let Some(#y) = #x { #(#b)* } })
            }
            Ad::Enumerate => {
                if k == 0 {
                    let i = id(&self.loops[&uid].i);
                    self.adapt(rest, k + 1, parse_quote!((#i, #x)), uid, pre, inner)
                } else {
                    let c = self.fresh("c");
                    pre.push(parse_quote!(let mut #c: usize = 0;));
                    let b = self.adapt(rest, k + 1, parse_quote!((#c, #x)), uid, pre, inner).stmts;
                    parse_quote!({ #(#b)* #c = #c + 1; })
                }
            }
            Ad::Skip(n) => {
                let i = id(&self.loops[&uid].i);
                let n = self.ex(n);
                let b = self.adapt(rest, k + 1, x, uid, pre, inner);
                if k != 0 {
                    self.err("skip after another adaptor");
                }
                parse_quote!({ if #i >= #n #b })
            }
        }
    }
    fn sink(&mut self, m: &ExprMethodCall, name: &str, f: &Fact) -> Expr {
        let Some(p) = self.pipe(&m.receiver) else {
            self.err("iterator source");
            return Expr::MethodCall(m.clone());
        };
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let rt = f.get("ty").to_string();
        self.sink_name = name.to_string();
        match name {
            "collect" => {
                let h = head(&rt);
                let g = generic_args(&rt);
                match h.as_str() {
                    "Vec" => self.materialise_owned(p),
                    "Result" | "Option" => {
                        let gh = head(&g[0]);
                        if gh != "Vec" {
                            self.err("collect into Result of a non-Vec");
                        }
                        if h == "Result" && p.ads.is_empty() && !p.range && !p.by_ref {
                            self.hit("collect into Result");
                            let src = p.src;
                            parse_quote!(crate::vx::collect_results(#src))
                        } else if h == "Result" {
                            let er = self.fresh("err");
                            let e2 = er.clone();
                            let e = self.run(p, move |_, acc, x| parse_quote!({ if #er.is_none() { match #x { Ok(__v) => { #acc.push(__v); } Err(__e) => { #er = Some(__e); } } } }), parse_quote!(Vec::new()), |acc| parse_quote!(match #e2 { None => Ok(#acc), Some(__e) => Err(__e) }));
                            parse_quote!({ let mut #e2 = None; #e })
                        } else {
                            self.err("collect into Option");
                            e_unit()
                        }
                    }
                    h => {
                        // the collection built from the list of its items
                        let f = id(&format!("{}_from", h.to_lowercase()));
                        let v = self.materialise_owned(p);
                        parse_quote!(crate::vx::#f(#v))
                    }
                }
            }
            "all" => self.run(p, |s, acc, x| { let c = s.beta(&args[0], vec![x]); parse_quote!({ if #acc { #acc = #c; } }) }, parse_quote!(true), |a| parse_quote!(#a)),
            "any" => self.run(p, |s, acc, x| { let c = s.beta(&args[0], vec![x]); parse_quote!({ if !#acc { #acc = #c; } }) }, parse_quote!(false), |a| parse_quote!(#a)),
            "find" => self.run(p, |s, acc, x| { let c = s.beta(&args[0], vec![parse_quote!(&#x)]); parse_quote!({ if #acc.is_none() { if #c { #acc = Some(#x); } } }) }, parse_quote!(None), |a| parse_quote!(#a)),
            "find_map" => self.run(p, |s, acc, x| { let c = s.beta(&args[0], vec![x]); parse_quote!({ if #acc.is_none() { #acc = #c; } }) }, parse_quote!(None), |a| parse_quote!(#a)),
            "next" => self.run(p, |_, acc, x| parse_quote!({ if #acc.is_none() { #acc = Some(#x); } }), parse_quote!(None), |a| parse_quote!(#a)),
            "last" => self.run(p, |_, acc, x| parse_quote!({ #acc = Some(#x); }), parse_quote!(None), |a| parse_quote!(#a)),
            "count" => self.run(p, |_, acc, x| parse_quote!({ let _ = #x; #acc = #acc + 1; }), parse_quote!(0usize), |a| parse_quote!(#a)),
            "for_each" => self.run(p, |s, _acc, x| { let c = s.beta(&args[0], vec![x]); parse_quote!({ #c; }) }, parse_quote!(()), |_| parse_quote!(())),
            "fold" => {
                let i = self.ex(args[0].clone());
                self.run(p, |s, acc, x| { let c = s.beta(&args[1], vec![parse_quote!(#acc), x]); parse_quote!({ #acc = #c; }) }, i, |a| parse_quote!(#a))
            }
            "max" | "min" => {
                let t = generic_args(&rt).first().cloned().unwrap_or_default();
                let n = id(&format!("{name}_{}", ident_of(&t)));
                self.run(p, |_, acc, x| parse_quote!({ #acc = Some(match #acc { None => #x, Some(__a) => crate::vx::#n(__a, #x) }); }), parse_quote!(None), |a| parse_quote!(#a))
            }
            "max_by" => self.run(
                p,
                |s, acc, x| {
                    let c = s.beta(&args[0], vec![parse_quote!(&__a), parse_quote!(&#x)]);
                    parse_quote!({ #acc = Some(match #acc { None => #x, Some(__a) => match #c { std::cmp::Ordering::Greater => __a, _ => #x } }); })
                },
                self.none_of(&rt),
                |a| parse_quote!(#a),
            ),
            "min_by" => self.run(
                p,
                |s, acc, x| {
                    let c = s.beta(&args[0], vec![parse_quote!(&__a), parse_quote!(&#x)]);
                    parse_quote!({ #acc = Some(match #acc { None => #x, Some(__a) => match #c { std::cmp::Ordering::Greater => #x, _ => __a } }); })
                },
                self.none_of(&rt),
                |a| parse_quote!(#a),
            ),
            _ => {
                self.err(format!("iterator sink {name}"));
                e_unit()
            }
        }
    }
    fn materialise_owned(&mut self, p: Pipe) -> Expr {
        self.materialise(p)
    }
    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        if f.label.is_some() {
            self.err("labelled loop");
        }
        let ty = self.facts.at("for", &self.file, f.expr.span()).map(|x| x.get("ty").to_string()).unwrap_or_default();
        let Some(p) = self.source(&f.expr, &ty) else {
            self.err("loop source");
            return Expr::ForLoop(f);
        };
        let mut body = f.body.clone();
        if scan_b(&body).cont {
            let no = |_: &Expr| false;
            match (Flow { mode: Mode::Continue, is_opt: &no, n: &mut self.n }).block(body.clone()) {
                Ok(b) => {
                    self.hit("continue elimination");
                    body = b
                }
                Err(e) => self.err(e),
            }
        }
        let uid = self.uid("for");
        self.loops.get_mut(&uid).unwrap().acc = acc_of(&f.body);
        let (bf, bm, af) = markers(uid);
        if p.ads.is_empty() {
            let (pre, head, bind) = self.header(&p, uid, &f.pat);
            let st = self.block(body).stmts;
            let uses: Vec<Stmt> = vec![];
            let _ = uses;
            parse_quote!({ #(#pre)* #bf while #head { #bm #bind #(#st)* } #af })
        } else {
            let item = id(&format!("__x{uid}"));
            let (mut pre, head, bind) = self.header(&p, uid, &parse_quote!(#item));
            let pat = f.pat.clone();
            let b = self.adapt(p.ads, 0, parse_quote!(#item), uid, &mut pre, |s, x| {
                let st = s.block(body).stmts;
                let lets = tuple_lets(&pat, &x);
                parse_quote!({ #(#lets)* #(#st)* })
            });
            let st = b.stmts;
            parse_quote!({ #(#pre)* #bf while #head { #bm #bind #(#st)* } #af })
        }
    }

    // ---- match ----------------------------------------------------------------
    fn mtch(&mut self, m: ExprMatch) -> Expr {
        let ty = self.facts.at("match", &self.file, m.expr.span()).map(|x| tyn(x.get("ty"))).unwrap_or_default();
        let has_str = m.arms.iter().any(|a| pat_strs(&a.pat).map_or(false, |v| !v.is_empty()));
        if has_str {
            self.hit("match on string literals");
            let s = self.fresh("s");
            let x = self.ex(*m.expr);
            let mut out: Option<Expr> = None;
            for a in m.arms.into_iter().rev() {
                let body = self.ex(*a.body);
                let g = a.guard.map(|g| self.ex(*g.1));
                match pat_strs(&a.pat) {
                    Some(v) if !v.is_empty() => {
                        let mut c: Option<Expr> = None;
                        for l in v {
                            let t: Expr = parse_quote!(crate::vx::str_is(#s, #l));
                            c = Some(match c { None => t, Some(o) => parse_quote!(#o || #t) });
                        }
                        let mut c = c.unwrap();
                        if let Some(g) = g {
                            c = parse_quote!((#c) && #g);
                        }
                        let e = out.take().unwrap_or_else(|| parse_quote!(crate::vx::never()));
                        out = Some(parse_quote!(if #c { #body } else { #e }));
                    }
                    _ => {
                        let bind: Option<Stmt> = match &a.pat {
                            Pat::Ident(i) => {
                                let n = &i.ident;
                                Some(parse_quote!(let #n = #s;))
                            }
                            _ => None,
                        };
                        out = Some(match (g, out.take()) {
                            (Some(g), Some(e)) => parse_quote!({ #bind if #g { #body } else { #e } }),
                            _ => parse_quote!({ #bind #body }),
                        });
                    }
                }
            }
            let o = out.unwrap();
            return parse_quote!({ let #s = #x; #o });
        }
        let mutref = ty.starts_with("&mut ") || is_mut_scrut(&m.expr);
        let mut m = m;
        if mutref {
            // the verifier takes neither guards nor or-patterns together with `&mut` bindings
            let mut arms = vec![];
            for a in m.arms {
                match &a.pat {
                    Pat::Or(o) if !pat_names(&a.pat).is_empty() => {
                        self.hit("or-pattern split");
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            b.comma = Some(Default::default());
                            arms.push(b);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
            if let Some(i) = m.arms.iter().position(|a| a.guard.is_some() && !pat_names(&a.pat).is_empty()) {
                self.hit("guard to if");
                let mut restm = m.clone();
                restm.arms = m.arms[i + 1..].to_vec();
                restm.arms.push(parse_quote!(_ => crate::vx::never(),));
                let mut a = m.arms[i].clone();
                let g = a.guard.take().unwrap().1;
                let b = &a.body;
                let rest = Expr::Match(restm);
                a.body = parse_quote!({ if #g { #b } else { #rest } });
                a.comma = Some(Default::default());
                m.arms[i] = a;
            }
        }
        *m.expr = self.ex(*m.expr);
        m.attrs.clear();
        for a in &mut m.arms {
            a.attrs.clear();
            if let Some(g) = &mut a.guard {
                *g.1 = self.ex((*g.1).clone());
            }
            *a.body = self.ex((*a.body).clone());
            a.comma = Some(Default::default());
        }
        Expr::Match(m)
    }

    // ---- operators ---------------------------------------------------------------
    fn binary(&mut self, b: ExprBinary) -> Expr {
        let f = self.facts.at("binop", &self.file, b.op.span()).cloned();
        let op = b.op;
        let (l, r) = (self.ex(*b.left), self.ex(*b.right));
        if let (BinOp::Shl(_), Some(x), Some(k)) = (&op, int_lit(&l), int_lit(&r)) {
            // 1 << 10 is the number 1024
            if k < 100 && x < (1 << 20) {
                self.hit("shifted literal");
                let n = proc_macro2::Literal::u128_unsuffixed(x << k);
                return parse_quote!(#n);
            }
        }
        if let Some(f) = f {
            let (lt, rt) = (tyn(f.get("lhs")), tyn(f.get("rhs")));
            if lt == "f64" && rt == "f64" {
                let n = match op {
                    BinOp::Add(_) => "add", BinOp::Sub(_) => "sub", BinOp::Mul(_) => "mul", BinOp::Div(_) => "div",
                    BinOp::Lt(_) => "lt", BinOp::Le(_) => "le", BinOp::Gt(_) => "gt", BinOp::Ge(_) => "ge",
                    BinOp::Eq(_) => "eq", BinOp::Ne(_) => "ne", _ => "",
                };
                if !n.is_empty() {
                    self.hit("float operator");
                    let n = id(&format!("f64_{n}"));
                    return parse_quote!(crate::vx::#n(#l, #r));
                }
            }
            if lt == "String" && matches!(unref(&rt).trim_start_matches('&'), "str" | "String") {
                if let BinOp::Add(_) = op {
                    self.hit("string sum");
                    return parse_quote!(crate::vx::concat(#l, crate::vx::VDisplay::vdisplay(#r)));
                }
            }
            if matches!(op, BinOp::Eq(_) | BinOp::Ne(_)) {
                let strl = |t: &str| matches!(unref(t).trim_start_matches('&'), "str" | "String");
                let e: Option<Expr> = if strl(&lt) && strl(&rt) {
                    self.hit("string comparison");
                    Some(parse_quote!(crate::vx::str_eq(&(#l), &(#r))))
                } else {
                    let u = unref(&lt);
                    let u = u.trim_start_matches('&');
                    let k = [format!("PartialEq::eq[{u}]"), format!("PartialEq::eq[{}]", head(u))];
                    for (t, tr) in &self.db.own_derive {
                        if tr == "PartialEq" && u.contains(t.as_str()) && !self.ix.types.iter().any(|x| x.name == *t && x.derives.iter().any(|d| d == tr)) {
                            self.err(format!("`{t}` no longer derives {tr}"));
                        }
                    }
                    k.iter().find_map(|k| self.db.calls.get(k).cloned()).map(|t| {
                        let t: Path = parse_str(&t).unwrap();
                        let refs = |e: &Expr, t: &str| -> Expr { match t.chars().take_while(|c| *c == '&').count() { 0 => parse_quote!(&(#e)), 1 => parse_quote!(#e), _ => parse_quote!(*#e) } };
                        let (a, b) = (refs(&l, &lt), refs(&r, &rt));
                        parse_quote!(#t(#a, #b))
                    }).or_else(|| {
                        // structural equality derived by the compiler
                        let prim = matches!(u, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "bool" | "char") || u.starts_with('{');
                        if prim && !lt.starts_with('&') { return None }
                        if let Some(w) = self.ix.hand_written("PartialEq", u) {
                            self.err(format!("`==` on `{u}`: equality of `{w}` is not structural"));
                        }
                        let refs = |e: &Expr, t: &str| -> Expr { match t.chars().take_while(|c| *c == '&').count() { 0 => parse_quote!(&(#e)), 1 => parse_quote!(#e), _ => parse_quote!(*#e) } };
                        let (a, b) = (refs(&l, &lt), refs(&r, &rt));
                        Some(parse_quote!(crate::vx::eq(#a, #b)))
                    })
                };
                if let Some(e) = e {
                    return if matches!(op, BinOp::Ne(_)) { parse_quote!((!#e)) } else { e };
                }
            }
            if !f.get("local").is_empty() && matches!(op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                self.err("ordering operator on a crate type");
            }
        }
        parse_quote!(#l #op #r)
    }

    // ---- macros ------------------------------------------------------------------
    fn mac(&mut self, m: &Macro) -> Expr {
        let segs: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last().unwrap().as_str();
        if segs[0] == "log" {
            self.hit("log statement dropped");
            return e_unit();
        }
        match name {
            // the conversion of an error that `?` passes on
            "__vx_into" => {
                let e = ts(&m.tokens.to_string());
                parse_quote!(#e.vinto())
            }
            "format" | "write" | "writeln" | "println" | "eprintln" | "print" => self.fmt(m, name),
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.hit("panic as obligation");
                parse_quote!(crate::vx::never())
            }
            "assert" | "debug_assert" => {
                self.hit("panic as obligation");
                let a: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap_or_default();
                let c = self.ex(a[0].clone());
                parse_quote!(crate::vx::must(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                self.err("assert_eq");
                e_unit()
            }
            "matches" => {
                struct MM(Expr, Pat, Option<Expr>);
                impl parse::Parse for MM {
                    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(MM(e, p, g))
                    }
                }
                match m.parse_body::<MM>() {
                    Ok(MM(e, p, g)) => {
                        let g = g.map(|g| quote!(if #g));
                        let e: ExprMatch = parse_quote!(match #e { #p #g => true, _ => false });
                        let x = self.mtch(e);
                        parse_quote!((#x))
                    }
                    Err(_) => {
                        self.err("matches!");
                        e_unit()
                    }
                }
            }
            "vec" => {
                if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let a: Vec<Expr> = a.into_iter().map(|x| self.ex(x)).collect();
                    if a.is_empty() {
                        return parse_quote!(Vec::new());
                    }
                    return Expr::Verbatim(quote!(vec![#(#a),*]));
                }
                self.err("vec![x; n]");
                e_unit()
            }
            _ => {
                if let Some(e) = self.expand(name, m) {
                    self.hit("macro expanded");
                    let e = self.ex(e);
                    return parse_quote!((#e));
                }
                self.err(format!("macro {name}!"));
                e_unit()
            }
        }
    }
    /// A one-rule `macro_rules!` of the crate with `$x:expr` parameters.
    fn expand(&mut self, name: &str, m: &Macro) -> Option<Expr> {
        let d = self.ix.macros.iter().find(|x| x.2.ident.as_ref().map_or(false, |i| i == name))?.2.clone();
        let toks: Vec<TokenTree> = d.mac.tokens.clone().into_iter().collect();
        let (TokenTree::Group(par), TokenTree::Group(body)) = (&toks[0], &toks[3]) else { return None };
        let mut names = vec![];
        let pt: Vec<TokenTree> = par.stream().into_iter().collect();
        for w in pt.windows(2) {
            if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                if p.as_char() == '$' {
                    names.push(i.to_string());
                }
            }
        }
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        if args.len() != names.len() {
            return None;
        }
        let map: HashMap<String, TokenStream> = names.into_iter().zip(args.iter().map(|a| { quote!((#a)) })).collect();
        fn sub(t: TokenStream, map: &HashMap<String, TokenStream>) -> TokenStream {
            let v: Vec<TokenTree> = t.into_iter().collect();
            let mut out = TokenStream::new();
            let mut i = 0;
            while i < v.len() {
                if let TokenTree::Punct(p) = &v[i] {
                    if p.as_char() == '$' && i + 1 < v.len() {
                        if let TokenTree::Ident(n) = &v[i + 1] {
                            if n == "crate" {
                                out.extend(quote!(crate));
                            } else if let Some(e) = map.get(&n.to_string()) {
                                out.extend(e.clone());
                            }
                            i += 2;
                            continue;
                        }
                    }
                }
                match &v[i] {
                    TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), map)))]),
                    x => {
                        let mut x = x.clone();
                        x.set_span(proc_macro2::Span::call_site());
                        out.extend([x])
                    }
                }
                i += 1;
            }
            out
        }
        parse2::<Expr>(sub(body.stream(), &map)).ok()
    }
    fn fmt(&mut self, m: &Macro, name: &str) -> Expr {
        self.hit("format model");
        let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else {
            self.err("format arguments");
            return e_unit();
        };
        let mut it = a.into_iter();
        let dst = if name.starts_with("write") { it.next() } else { None };
        let lit = it.next();
        let args: Vec<Expr> = it.collect();
        let s: Expr = if self.fmt_model || name == "write" || name.starts_with("print") || name == "eprintln" {
            self.fmt_model_expr(lit, args)
        } else {
            // the text is an unspecified string; arguments are still evaluated when they call something
            let mut ev: Vec<Stmt> = vec![];
            for x in args {
                if matches!(strip_ref(&x), Expr::Path(_) | Expr::Lit(_) | Expr::Field(_)) || is_display_call(&x) {
                    continue;
                }
                let x = self.ex(x);
                ev.push(parse_quote!(let _ = #x;));
            }
            if ev.is_empty() { parse_quote!(crate::vx::any_string()) } else { parse_quote!({ #(#ev)* crate::vx::any_string() }) }
        };
        match name {
            "format" => s,
            "write" | "writeln" => {
                let d = self.ex(dst.unwrap());
                let s: Expr = if name == "writeln" { parse_quote!(crate::vx::concat(#s, crate::vx::str_lit("\n"))) } else { s };
                parse_quote!((#d).fmt_write(#s))
            }
            "println" | "print" => {
                let s: Expr = if name == "println" { parse_quote!(crate::vx::concat(#s, crate::vx::str_lit("\n"))) } else { s };
                // the ghost standard output, when the contracts follow it
                match self.db.calls.get("println").map(|f| (f.clone(), self.db.call_pass.get(f).cloned().unwrap_or_default())) {
                    Some((f, x)) => {
                        let f: Expr = parse_str(&f).unwrap();
                        let x: Option<Expr> = parse_str(&x).ok();
                        let x = x.into_iter();
                        parse_quote!(#f(#s #(, #x)*))
                    }
                    None => parse_quote!(crate::vx::print(#s)),
                }
            }
            _ => parse_quote!({ let _ = #s; }),
        }
    }
    /// Concatenation of the literal pieces and the displayed arguments.
    fn fmt_model_expr(&mut self, lit: Option<Expr>, args: Vec<Expr>) -> Expr {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = lit else {
            if lit.is_none() {
                return parse_quote!(crate::vx::str_lit(""));
            }
            self.err("format string");
            return e_unit();
        };
        let s = l.value();
        let cs: Vec<char> = s.chars().collect();
        let mut parts: Vec<Expr> = vec![];
        let mut cur = String::new();
        let mut i = 0;
        let mut next = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let mut spec = String::new();
                    i += 1;
                    while i < cs.len() && cs[i] != '}' {
                        spec.push(cs[i]);
                        i += 1;
                    }
                    i += 1;
                    if !cur.is_empty() {
                        parts.push(parse_quote!(crate::vx::str_lit(#cur)));
                        cur.clear();
                    }
                    let (nm, sp) = spec.split_once(':').unwrap_or((&spec, ""));
                    let e = if nm.is_empty() {
                        let e = args.get(next).cloned();
                        next += 1;
                        e
                    } else if let Ok(k) = nm.parse::<usize>() {
                        args.get(k).cloned()
                    } else {
                        let n = id(nm);
                        Some(parse_quote!(#n))
                    };
                    let Some(e) = e else {
                        self.err("format argument");
                        return e_unit();
                    };
                    let e = self.ex(e);
                    parts.push(if sp.is_empty() {
                        parse_quote!(crate::vx::VDisplay::vdisplay(&(#e)))
                    } else {
                        parse_quote!(crate::vx::fmt_spec(&(#e), #sp))
                    });
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            parts.push(parse_quote!(crate::vx::str_lit(#cur)));
        }
        let mut it = parts.into_iter();
        let Some(mut e) = it.next() else { return parse_quote!(crate::vx::str_lit("")) };
        for p in it {
            e = parse_quote!(crate::vx::concat(#e, #p));
        }
        e
    }
}

pub fn markers(uid: usize) -> (TokenStream, TokenStream, TokenStream) {
    let l = proc_macro2::Literal::usize_unsuffixed(uid);
    (quote!(__vx_before!(#l);), quote!(__vx_body!(#l);), quote!(__vx_after!(#l);))
}
pub fn subst_words(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        out.push_str(m.get(&w).unwrap_or(&w));
        w.clear();
        if c != '\0' {
            out.push(c);
        }
    }
    out
}
fn int_lit(e: &Expr) -> Option<u128> {
    match strip_paren(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        _ => None,
    }
}
fn e_unit() -> Expr {
    parse_quote!(())
}
fn ident_of(t: &str) -> String {
    t.chars().filter(|c| c.is_alphanumeric()).collect()
}
pub fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}
fn strip_ref(e: &Expr) -> &Expr {
    match e {
        Expr::Reference(r) => strip_ref(&r.expr),
        Expr::Paren(p) => strip_ref(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip_ref(&u.expr),
        e => e,
    }
}
/// Argument expressions of messages that cannot fail and have no effect.
fn plain_name(n: &str) -> bool {
    n.len() > 1 && n != "Self" && n.chars().next().unwrap().is_uppercase()
}
fn is_display_call(e: &Expr) -> bool {
    match strip_ref(e) {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "deref" | "display" | "into_token_stream" | "to_token_stream" | "to_string") && is_display_call(&m.receiver),
        Expr::Call(c) => tstr(&c.func).ends_with("from_utf8_lossy"),
        Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) => true,
        _ => false,
    }
}
struct ClosureUses<'a> {
    name: &'a Ident,
    c: &'a ExprClosure,
}
impl syn::visit_mut::VisitMut for ClosureUses<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = strip_ref(strip_paren(e));
        if matches!(p, Expr::Path(p) if p.path.is_ident(self.name)) {
            *e = Expr::Closure(self.c.clone());
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = calls_in_tokens(m.tokens.clone(), self.name, Some(self.c)).0;
    }
}
/// Calls of `name` in a macro's arguments, with the closure put in; and whether these are all its uses.
fn calls_in_tokens(t: TokenStream, name: &Ident, c: Option<&ExprClosure>) -> (TokenStream, bool) {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let v: Vec<TokenTree> = t.into_iter().collect();
    let (mut out, mut all) = (TokenStream::new(), true);
    for (i, x) in v.iter().enumerate() {
        match x {
            TokenTree::Ident(n) if n == name => {
                let called = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                let part = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if matches!(p.as_char(), '.' | ':' | '&'));
                match c {
                    Some(c) if called && !part => out.extend(quote!((#c))),
                    _ => {
                        all &= called && !part;
                        out.extend([x.clone()]);
                    }
                }
            }
            TokenTree::Group(g) => {
                let (s, a) = calls_in_tokens(g.stream(), name, c);
                all &= a;
                let mut n = Group::new(g.delimiter(), s);
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            // named in the text of a message
            TokenTree::Literal(l) => {
                all &= !l.to_string().contains(&format!("{{{name}"));
                out.extend([x.clone()]);
            }
            x => out.extend([x.clone()]),
        }
    }
    (out, all)
}
/// No name that the closure reads is bound anew after it, the closure itself is only called or passed on,
/// and no macro's tokens mention it.
fn closure_can_move(name: &Ident, c: &ExprClosure, rest: &[Stmt]) -> bool {
    use syn::visit::Visit;
    #[derive(Default)]
    struct Free(BTreeSet<String>);
    impl<'a> Visit<'a> for Free {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.insert(i.to_string());
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            idents(m.tokens.clone(), &mut self.0);
            // named in the text of a message
            for x in m.tokens.to_string().split('{').skip(1) {
                self.0.insert(x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            let mut f = Free::default();
            f.visit_expr(&c.body);
            let own: BTreeSet<String> = c.inputs.iter().flat_map(pat_names).collect();
            self.0.extend(f.0.difference(&own).cloned());
        }
        fn visit_arm(&mut self, a: &'a Arm) {
            let mut f = Free::default();
            syn::visit::visit_arm(&mut f, a);
            let own = pat_names(&a.pat);
            self.0.extend(f.0.difference(&own).cloned());
        }
    }
    struct Rest<'n> {
        name: &'n Ident,
        bound: BTreeSet<String>,
        ok: bool,
        uses: usize,
    }
    impl<'a> Visit<'a> for Rest<'_> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.bound.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            let last = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            let plain = matches!(last.as_str(), "format" | "write" | "writeln" | "print" | "println" | "eprint" | "eprintln" | "panic" | "assert" | "assert_eq" | "debug_assert" | "vec" | "trace" | "debug" | "info" | "warn" | "error");
            let mut s = BTreeSet::new();
            idents(m.tokens.clone(), &mut s);
            if s.contains(&self.name.to_string()) && !(plain && calls_in_tokens(m.tokens.clone(), self.name, None).1) {
                self.ok = false;
            }
        }
        fn visit_item(&mut self, i: &'a Item) {
            if let Item::Const(c) = i {
                self.bound.insert(c.ident.to_string());
            }
        }
        fn visit_expr(&mut self, e: &'a Expr) {
            let used = |x: &Expr| matches!(strip_ref(strip_paren(x)), Expr::Path(p) if p.path.is_ident(self.name));
            match e {
                Expr::Call(k) => {
                    self.uses += k.args.iter().chain([&*k.func]).filter(|x| used(x)).count();
                }
                Expr::MethodCall(k) => self.uses += k.args.iter().filter(|x| used(x)).count(),
                Expr::Path(p) if p.path.is_ident(self.name) => {
                    // reached once for every use counted above
                    self.uses = match self.uses.checked_sub(1) {
                        Some(n) => n,
                        None => {
                            self.ok = false;
                            0
                        }
                    };
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut f = Free::default();
    f.visit_expr(&c.body);
    for p in &c.inputs {
        for n in pat_names(p) {
            f.0.remove(&n);
        }
    }
    let mut r = Rest { name, bound: BTreeSet::new(), ok: true, uses: 0 };
    for s in rest {
        r.visit_stmt(s);
    }
    r.ok && !r.bound.contains(&name.to_string()) && r.bound.is_disjoint(&f.0)
}
fn closure_lit(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Reference(r) => closure_lit(&r.expr),
        Expr::Paren(r) => closure_lit(&r.expr),
        _ => None,
    }
}
fn mentions(e: &Expr, n: &str) -> bool {
    let mut s = BTreeSet::new();
    idents(quote!(#e), &mut s);
    s.contains(n)
}
/// The bound of the closure parameter: (return type, parameter index).
pub fn fn_bound(fi: &FnInfo) -> Option<(Type, usize)> {
    let mut gens: HashMap<String, Type> = HashMap::new();
    let mut add = |n: String, b: &TypeParamBound| {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if l.ident.to_string().starts_with("Fn") {
                if let PathArguments::Parenthesized(p) = &l.arguments {
                    let r: Type = match &p.output {
                        ReturnType::Type(_, t) => (**t).clone(),
                        _ => parse_quote!(()),
                    };
                    gens.insert(n, r);
                }
            }
        }
    };
    for p in &fi.sig.generics.params {
        if let GenericParam::Type(t) = p {
            for b in &t.bounds {
                add(t.ident.to_string(), b);
            }
        }
    }
    if let Some(w) = &fi.sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    add(tstr(&t.bounded_ty), b);
                }
            }
        }
    }
    for (i, a) in fi.sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Type::ImplTrait(it) = &*t.ty {
                let mut g2: HashMap<String, Type> = HashMap::new();
                for b in &it.bounds {
                    if let TypeParamBound::Trait(t) = b {
                        let l = t.path.segments.last().unwrap();
                        if l.ident.to_string().starts_with("Fn") {
                            if let PathArguments::Parenthesized(p) = &l.arguments {
                                g2.insert("x".into(), match &p.output { ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) });
                            }
                        }
                    }
                }
                if let Some(r) = g2.remove("x") {
                    return Some((r, i));
                }
            }
            let n = tyn(&tstr(&t.ty));
            let n = n.trim_start_matches('&').trim_start_matches("mut ").trim();
            if let Some(r) = gens.get(n) {
                return Some((r.clone(), i));
            }
        }
    }
    None
}
pub fn is_higher_order(fi: &FnInfo) -> bool {
    fn_bound(fi).is_some()
}
/// Textual first-order unification of `pat` (with type parameters) against a concrete type.
pub fn unify(pat: &str, conc: &str, m: &mut BTreeMap<String, String>) {
    let (p, c) = (tyn(pat), tyn(conc));
    if let Some(x) = m.get_mut(&p) {
        if x.is_empty() {
            *x = c;
        }
        return;
    }
    if head(&p) == head(&c) {
        for (a, b) in generic_args(&p).iter().zip(generic_args(&c)) {
            unify(a, &b, m);
        }
    }
}
fn pat_strs(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(pat_strs(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}
fn is_mut_scrut(_e: &Expr) -> bool {
    false
}
/// `let (a, b) = (x, y)` as separate bindings; `&p` against `&e` peeled.
fn tuple_lets(p: &Pat, x: &Expr) -> Vec<Stmt> {
    let (p, x) = peel(strip_pat_type(p), x.clone());
    if let (Pat::Tuple(t), Expr::Tuple(e)) = (&p, &x) {
        if t.elems.len() == e.elems.len() {
            return t.elems.iter().zip(e.elems.iter()).flat_map(|(a, b)| tuple_lets(a, b)).collect();
        }
    }
    if matches!(p, Pat::Wild(_)) {
        return vec![];
    }
    if let (Pat::Ident(a), Expr::Path(b)) = (&p, &x) {
        if b.path.is_ident(&a.ident) {
            return vec![];
        }
    }
    vec![parse_quote!(let #p = #x;)]
}
fn peel(p: Pat, a: Expr) -> (Pat, Expr) {
    match (p, a) {
        (Pat::Reference(r), Expr::Reference(x)) => peel(*r.pat, *x.expr),
        (Pat::Reference(r), a) => peel(*r.pat, parse_quote!(*#a)),
        (Pat::Paren(r), a) => peel(*r.pat, a),
        x => x,
    }
}
/// The single outer collection a loop pushes to.
fn acc_of(b: &Block) -> String {
    struct A {
        got: BTreeSet<String>,
        own: BTreeSet<String>,
    }
    impl<'x> visit::Visit<'x> for A {
        fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "push" | "insert" | "extend" | "append") {
                if let Expr::Path(p) = strip_paren(&m.receiver) {
                    if let Some(i) = p.path.get_ident() {
                        self.got.insert(i.to_string());
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_local(&mut self, l: &'x Local) {
            self.own.extend(pat_names(&l.pat));
            visit::visit_local(self, l);
        }
    }
    let mut a = A { got: BTreeSet::new(), own: BTreeSet::new() };
    visit::Visit::visit_block(&mut a, b);
    let v: Vec<_> = a.got.difference(&a.own).cloned().collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        String::new()
    }
}
fn rename_self(b: &mut Block, to: &Ident, fi: &FnInfo) {
    struct S<'x>(&'x Ident, Option<Type>);
    impl<'x> VisitMut for S<'x> {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
            if i == "self" {
                let sp = i.span();
                *i = self.0.clone();
                i.set_span(sp);
            }
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
                if let Some(Type::Path(t)) = &self.1 {
                    if t.path.segments.last().map_or(false, |s| s.arguments.is_none()) {
                        let mut n: Path = t.path.clone();
                        for s in p.segments.iter().skip(1) {
                            n.segments.push(s.clone());
                        }
                        *p = n;
                    }
                }
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    S(to, fi.ctx.as_ref().map(|c| c.self_ty.clone())).visit_block_mut(b);
}

/// `static ref NAME: TYPE = EXPR;`, repeated.
struct LazyStatics(Vec<(Ident, Type, Expr)>);
impl syn::parse::Parse for LazyStatics {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            i.call(Attribute::parse_outer)?;
            i.parse::<Visibility>()?;
            i.parse::<Token![static]>()?;
            i.parse::<Token![ref]>()?;
            let n: Ident = i.parse()?;
            i.parse::<Token![:]>()?;
            let t: Type = i.parse()?;
            i.parse::<Token![=]>()?;
            let e: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            v.push((n, t, e));
        }
        Ok(LazyStatics(v))
    }
}
