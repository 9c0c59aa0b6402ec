//! Assembles the verified crate: contracts + the rewritten bodies of /repo's functions.
use crate::{contracts::*, desugar::*, facts::Facts, index::*, util::*};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{visit_mut::VisitMut, *};

pub struct Item_ {
    pub module: String,
    pub header: String, // impl header or ""
    pub sig: Signature,
    pub body: Option<Block>,
    pub key: String,
    pub loops: BTreeMap<usize, LoopInfo>,
    pub file: String,
    pub line: usize,
    pub end: usize,
    pub role: &'static str, // proved | stub | plain
    pub errs: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub assoc: String,
    pub is_trait: bool,
}

pub struct Emit<'a> {
    pub ix: &'a crate::index::Index,
    pub facts: &'a Facts,
    pub db: &'a Db,
    pub items: BTreeMap<String, Item_>,
    pub prove: BTreeSet<String>,
    pub used: BTreeSet<String>,
    pub sel: (BTreeSet<usize>, BTreeSet<usize>),
    pub extra: BTreeSet<String>,
}

/// Rewrites types: database substitutions, type parameters.
pub struct TyRw<'a> {
    pub db: &'a Db,
    pub map: BTreeMap<String, String>,
}
impl<'a> VisitMut for TyRw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = tstr(t);
        for (a, b) in &self.db.tysubst {
            let a = a.replace(' ', "");
            if s == a {
                *t = parse2(ts(b)).unwrap();
                return;
            }
            if let Some(m) = match_ty(&a, &s) {
                let mut n: Type = parse2(ts(&crate::desugar::subst_words(b, &m))).unwrap();
                visit_mut::visit_type_mut(self, &mut n);
                *t = n;
                return;
            }
        }
        if let Type::Macro(m) = t {
            if m.mac.path.is_ident("Token") && m.mac.tokens.to_string() == "," {
                *t = parse_quote!(Comma);
                return;
            }
        }
        if let Some(x) = self.map.get(&s) {
            if !x.is_empty() {
                *t = parse2(ts(x)).unwrap();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // `T::zero()`
        if p.segments.len() > 1 {
            let s = p.segments[0].ident.to_string();
            if let Some(x) = self.map.get(&s) {
                if let Ok(t) = parse_str::<Path>(x) {
                    if t.segments.last().unwrap().arguments.is_none() {
                        let sp = p.segments[0].ident.span();
                        let mut i = t.segments.last().unwrap().ident.clone();
                        i.set_span(sp);
                        p.segments[0].ident = i;
                    }
                }
            }
        }
        // `syn::Meta::NameValue`: the longest prefix that names a substituted type
        for n in (2..=p.segments.len()).rev() {
            if p.segments.iter().take(n).any(|s| !s.arguments.is_none()) {
                continue;
            }
            let a: Vec<String> = p.segments.iter().take(n).map(|s| s.ident.to_string()).collect();
            let a = a.join("::");
            if let Some((_, b)) = self.db.tysubst.iter().find(|(x, _)| x.replace(' ', "") == a) {
                if let Ok(mut q) = parse_str::<Path>(b) {
                    // facts are found by position
                    let sp = p.segments[0].ident.span();
                    q.segments[0].ident.set_span(sp);
                    q.segments.extend(p.segments.iter().skip(n).cloned());
                    *p = q;
                }
                break;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        if let Some(l) = b.path.segments.last() {
            if l.ident == "Into" {
                let a = &l.arguments;
                b.path = parse2(quote::quote!(crate::vx::VInto #a)).unwrap();
            }
        }
        visit_mut::visit_trait_bound_mut(self, b);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // types inside macro arguments stay as they are, but for lists of expressions
        if m.path.is_ident("vec") {
            if let Ok(mut l) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for e in l.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = l.to_token_stream();
            }
        }
    }
}

/// Matches `Map<String,T>` against `Map<String,Vec<u8>>`: single capital letters stand for any type.
fn match_ty(pat: &str, t: &str) -> Option<BTreeMap<String, String>> {
    if t.starts_with('&') || head(pat) != head(t) || !pat.starts_with(&head(pat)) || !t.starts_with(&head(t)) {
        return None;
    }
    let (a, b) = (generic_args(pat), generic_args(t));
    if a.is_empty() || a.len() != b.len() {
        return None;
    }
    let mut m = BTreeMap::new();
    for (x, y) in a.iter().zip(&b) {
        if x.len() == 1 && x.chars().all(|c| c.is_uppercase()) {
            m.insert(x.clone(), y.clone());
        } else if x != y {
            return None;
        }
    }
    if m.is_empty() { None } else { Some(m) }
}

fn to_pub(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

pub fn flat(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}

impl<'a> Emit<'a> {
    pub fn run(&mut self, keys: &[String]) -> R<()> {
        let mut work: Vec<(String, Option<SpecReq>)> = vec![];
        for k in keys {
            if k.contains('@') {
                continue; // reached through its caller
            }
            if !self.ix.fns.contains_key(k) {
                return Err(format!("anchor lost: {k}"));
            }
            work.push((k.clone(), None));
        }
        self.prove = keys.iter().cloned().collect();
        loop {
            while let Some((k, rq)) = work.pop() {
                if self.items.contains_key(&k) {
                    continue;
                }
                let (it, deps, specs) = self.one(&k, rq.as_ref());
                self.items.insert(k, it);
                for d in deps {
                    if self.ix.fns.contains_key(&d) {
                        work.push((d, None));
                    }
                }
                for s in specs {
                    work.push((s.key.clone(), Some(s)));
                }
            }
            self.close();
            let mut more = false;
            for (k, c) in &self.db.fns {
                if !c.auto.is_empty() && self.used.contains(&c.auto) && !self.items.contains_key(k) && self.ix.fns.contains_key(k) {
                    work.push((k.clone(), None));
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        Ok(())
    }

    fn one(&self, key: &str, rq: Option<&SpecReq>) -> (Item_, BTreeSet<String>, Vec<SpecReq>) {
        let base = rq.map_or(key, |r| &r.callee);
        let fi = &self.ix.fns[base];
        let contract = self.db.fns.get(key);
        let role = if self.prove.contains(key) {
            "proved"
        } else if contract.is_some() {
            "stub"
        } else {
            "plain"
        };
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut self_ty = fi.ctx.as_ref().map(|c| c.self_ty.clone());
        let mut generics_dropped = rq.is_some();
        if let Some(c) = &fi.ctx {
            let st = tstr(&c.self_ty);
            if let Some(m) = self.db.mono.get(&st) {
                if !c.generics.params.is_empty() {
                    let (a, b) = m.split_once('=').unwrap();
                    map.insert(a.into(), b.into());
                    generics_dropped = true;
                }
            }
        }
        if let Some(r) = rq {
            for (a, b) in &r.tymap {
                map.insert(a.clone(), b.clone());
            }
        }
        let mut rw = TyRw { db: self.db, map: map.clone() };
        if let Some(t) = &mut self_ty {
            rw.visit_type_mut(t);
        }
        let mut sig = fi.sig.clone();
        let mut fparam = None;
        if let Some(r) = rq {
            let (_, i) = fn_bound(fi).unwrap();
            let mut ins: Vec<FnArg> = sig.inputs.iter().cloned().collect();
            if let FnArg::Typed(t) = ins.remove(i) {
                let n = tstr(&t.pat).replace("mut", "");
                fparam = Some((n, r.clone()));
            }
            for (n, t) in &r.caps {
                let n = id(n);
                let t: Type = parse2(ts(t)).unwrap();
                ins.push(parse_quote!(#n: #t));
            }
            sig.inputs = ins.into_iter().collect();
            sig.ident = id(&r.name);
            sig.generics = Default::default();
        }
        if generics_dropped {
            sig.generics.where_clause = None;
        }
        // reference self types: `impl X for &T { fn f(self) }`
        let mut refself = false;
        if let Some(Type::Reference(r)) = self_ty.clone() {
            refself = true;
            self_ty = Some((*r.elem).clone());
        }
        rw.visit_signature_mut(&mut sig);
        if refself {
            if let Some(FnArg::Receiver(_)) = sig.inputs.first() {
                sig.inputs[0] = parse_quote!(&self);
            }
        }
        // associated types
        let mut assoc = String::new();
        if let Some(c) = &fi.ctx {
            struct A<'x>(&'x [ImplItemType]);
            impl<'x> VisitMut for A<'x> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    let s = tstr(t);
                    for a in self.0 {
                        if s == format!("Self::{}", a.ident) {
                            *t = a.ty.clone();
                            return;
                        }
                    }
                    visit_mut::visit_type_mut(self, t);
                }
            }
            if contract.map_or(false, |c| c.traitimpl) {
                for a in &c.assoc_types {
                    let (n, mut t) = (&a.ident, a.ty.clone());
                    rw.visit_type_mut(&mut t);
                    assoc.push_str(&format!("type {} = {};\n", n, t.to_token_stream()));
                }
            } else {
                A(&c.assoc_types).visit_signature_mut(&mut sig);
                rw.visit_signature_mut(&mut sig);
            }
        }
        if let (Some(c), false) = (contract, contract.map_or(true, |c| c.extra_params.is_empty())) {
            let p: punctuated::Punctuated<FnArg, Token![,]> = {
                use syn::parse::Parser;
                punctuated::Punctuated::parse_terminated.parse_str(&c.extra_params).unwrap()
            };
            for a in p {
                sig.inputs.push(a);
            }
        }
        let mut deps = BTreeSet::new();
        let mut specs = vec![];
        let mut errs = vec![];
        let mut loops = BTreeMap::new();
        let mut rewrites = BTreeMap::new();
        let mut body = if role == "stub" {
            None
        } else {
            let mut block = fi.block.clone();
            rw.visit_block_mut(&mut block);
            let can_inline = |k: &str| !self.db.fns.contains_key(k) && !self.prove.contains(k) && self.ix.fns.get(k).map_or(false, |f| !calls_itself(f, k, self));
            let mut ds = Ds {
                ix: self.ix, facts: self.facts, db: self.db, key: key.into(), file: fi.file.clone(), module: fi.module.clone(), n: 0,
                deps: BTreeSet::new(), specs: vec![], loops: BTreeMap::new(), rewrites: BTreeMap::new(), fparam, errs: vec![], nclo: 0, paren: None,
                fmt_model: contract.map_or(false, |c| c.fmt_model), inlined: vec![key.to_string()], can_inline: &can_inline, tail_fmt: false, sink_name: String::new(), mono: map.clone(),
            };
            let b = ds.body(&block);
            deps = ds.deps;
            specs = ds.specs;
            errs = ds.errs;
            loops = ds.loops;
            rewrites = ds.rewrites;
            Some(b)
        };
        // parameters that are patterns
        let mut lets: Vec<Stmt> = vec![];
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let n = id(&format!("__p{k}"));
                    let p = (*t.pat).clone();
                    lets.push(parse_quote!(let #p = #n;));
                    *t.pat = parse_quote!(#n);
                }
            }
        }
        if let Some(b) = &mut body {
            lets.extend(b.stmts.drain(..));
            b.stmts = lets;
        }
        // where it goes
        let mut header = String::new();
        let mut is_trait = false;
        if let Some(c) = &fi.ctx {
            let st = self_ty.as_ref().unwrap();
            let st_s = rq.and_then(|r| r.self_ty.clone()).unwrap_or_else(|| st.to_token_stream().to_string());
            let g = if generics_dropped { String::new() } else { let g = &c.generics; let p = &g.params; if p.is_empty() { String::new() } else { quote!(<#p>).to_string() } };
            let wh = if generics_dropped { String::new() } else { c.generics.where_clause.as_ref().map(|w| bounds(w)).unwrap_or_default() };
            match &c.trait_ {
                Some(t) if contract.map_or(false, |c| c.traitimpl) => {
                    is_trait = true;
                    header = format!("impl{g} {} for {st_s} {wh}", t.to_token_stream());
                }
                Some(t) => {
                    let tn = tstr(t.segments.last().unwrap());
                    let local = self.ix.types.iter().any(|x| matches!(&x.item, Item::Struct(_) | Item::Enum(_)) && x.name == head(&st_s)) || self.ghost_defines(&head(&st_s));
                    if !local || tn.contains('<') && tn != "TryInto<SimpleTerm>" {
                        // free function
                        sig.ident = id(&free_name(&tn, &fi.sig.ident.to_string(), &st_s));
                        let stt: Type = parse2(ts(&st_s)).unwrap();
                        struct SelfTy(Type);
                        impl VisitMut for SelfTy {
                            fn visit_type_mut(&mut self, t: &mut Type) {
                                if tstr(t) == "Self" {
                                    *t = self.0.clone();
                                }
                                visit_mut::visit_type_mut(self, t);
                            }
                        }
                        if let (Some(b), Type::Path(tp)) = (&mut body, &stt) {
                            struct SelfPath(Path);
                            impl VisitMut for SelfPath {
                                fn visit_path_mut(&mut self, p: &mut Path) {
                                    if p.segments.first().map_or(false, |s| s.ident == "Self") {
                                        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                                        let mut q = self.0.clone();
                                        q.segments.extend(rest);
                                        *p = q;
                                    }
                                    visit_mut::visit_path_mut(self, p);
                                }
                            }
                            SelfPath(tp.path.clone()).visit_block_mut(b);
                        }
                        SelfTy(stt).visit_signature_mut(&mut sig);
                    } else {
                        header = format!("impl{g} {st_s} {wh}");
                    }
                }
                None => header = format!("impl{g} {st_s} {wh}"),
            }
        }
        (
            Item_ { module: fi.module.clone(), header, sig, body, key: key.into(), loops, file: fi.file.clone(), line: fi.line, end: fi.end, role, errs, rewrites, assoc, is_trait },
            deps,
            specs,
        )
    }
    fn ghost_defines(&self, n: &str) -> bool {
        self.db.ghosts.iter().any(|g| g.defines.iter().any(|d| d == n))
    }

    fn used_of(&self) -> BTreeSet<String> {
        let mut u = BTreeSet::new();
        for it in self.items.values() {
            idents(it.sig.to_token_stream(), &mut u);
            if let Some(b) = &it.body {
                idents(b.to_token_stream(), &mut u);
            }
            text_ids(&it.header, &mut u);
            text_ids(&it.assoc, &mut u);
            if let Some(c) = self.db.fns.get(&it.key) {
                for t in [&c.requires, &c.ensures, &c.decreases, &c.extra_params] {
                    text_ids(t, &mut u);
                }
                if it.role == "stub" {
                    text_ids(&c.assumed, &mut u);
                }
                if it.role == "proved" {
                    for m in c.loops.values() {
                        for t in m.values() {
                            text_ids(t, &mut u);
                        }
                    }
                    for t in c.at.values() {
                        text_ids(t, &mut u);
                    }
                    for m in c.closures.values() {
                        for t in m.values() {
                            text_ids(t, &mut u);
                        }
                    }
                }
            }
        }
        u
    }
    /// Types and ghost code reachable by name.
    fn close(&mut self) {
        let mut u = self.used_of();
        u.extend(self.extra.iter().cloned());
        let mut gi: BTreeSet<usize> = BTreeSet::new();
        let mut ti: BTreeSet<usize> = BTreeSet::new();
        loop {
            let mut ch = false;
            for (i, g) in self.db.ghosts.iter().enumerate() {
                if gi.contains(&i) {
                    continue;
                }
                let hit = g.always || (!g.when.is_empty() && g.when.split(|w| w == "|").any(|a| a.iter().all(|w| u.contains(w)))) || (g.when.is_empty() && g.defines.iter().any(|d| u.contains(d)));
                if hit {
                    gi.insert(i);
                    text_ids(&g.text, &mut u);
                    ch = true;
                }
            }
            for (i, t) in self.ix.types.iter().enumerate() {
                if ti.contains(&i) || !u.contains(&t.name) || self.db.ghost_types.contains(&format!("{}::{}", t.module, t.name)) {
                    continue;
                }
                if matches!(t.item, Item::Trait(_)) {
                    continue;
                }
                // types of the web pages only with their functions
                if t.module.starts_with("web_") && !self.items.values().any(|x| x.module.starts_with("web_")) {
                    continue;
                }
                // a `Result` alias only when its module is used
                ti.insert(i);
                let it = clean_item(&t.item, self.db);
                idents(it, &mut u);
                if let Some(x) = self.db.implspec.get(&format!("{}::{}", t.module, t.name)) {
                    text_ids(x, &mut u);
                }
                ch = true;
            }
            if !ch {
                break;
            }
        }
        self.used = u;
        self.sel = (gi, ti);
    }
}

/// Bounds by library traits carry no obligation: their methods are replaced by contracts.
fn bounds(w: &WhereClause) -> String {
    let ps: Vec<String> = w.predicates.iter().filter(|p| tstr(p).contains("Fn")).map(|p| p.to_token_stream().to_string()).collect();
    if ps.is_empty() { String::new() } else { format!("where {}", ps.join(", ")) }
}

pub fn free_name(tr: &str, f: &str, st: &str) -> String {
    format!("x_{}_{}_{}", flat(tr), f, flat(st))
}

fn calls_itself(f: &FnInfo, k: &str, e: &Emit) -> bool {
    // direct or mutual recursion, by name, over uncontracted functions
    let mut seen = BTreeSet::new();
    let mut todo = vec![f.clone()];
    while let Some(x) = todo.pop() {
        let mut u = BTreeSet::new();
        idents(x.block.to_token_stream(), &mut u);
        for g in e.ix.fns.values() {
            if u.contains(&g.sig.ident.to_string()) && !e.db.fns.contains_key(&g.key) && !e.prove.contains(&g.key) {
                if g.key == k {
                    return true;
                }
                if seen.insert(g.key.clone()) {
                    todo.push(g.clone());
                }
            }
        }
    }
    false
}

pub fn text_ids(s: &str, u: &mut BTreeSet<String>) {
    let mut w = String::new();
    // the words of a comment are no references
    for c in s.lines().map(|l| if l.trim_start().starts_with("//") { "" } else { l }).collect::<Vec<_>>().join("\n").chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else if !w.is_empty() {
            u.insert(std::mem::take(&mut w));
        }
    }
    if !w.is_empty() {
        u.insert(w);
    }
}

/// A type definition without attributes, everything public.
pub fn clean_item(it: &Item, db: &Db) -> TokenStream {
    let mut it = it.clone();
    let mut rw = TyRw { db, map: BTreeMap::new() };
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            to_pub(&mut s.vis);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                to_pub(&mut f.vis);
            }
            rw.visit_item_struct_mut(s);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            to_pub(&mut s.vis);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
            rw.visit_item_enum_mut(s);
        }
        Item::Type(s) => {
            s.attrs.clear();
            to_pub(&mut s.vis);
            rw.visit_item_type_mut(s);
        }
        Item::Const(s) => {
            s.attrs.clear();
            to_pub(&mut s.vis);
            if let Type::Reference(r) = &mut *s.ty {
                if r.lifetime.is_none() {
                    r.lifetime = Some(parse_quote!('static));
                }
            }
        }
        _ => {}
    }
    it.to_token_stream()
}

// ---------------------------------------------------------------------------- printing
pub struct Printer<'a> {
    pub out: String,
    ind: usize,
    c: Option<&'a FnContract>,
    loops: Option<&'a BTreeMap<usize, LoopInfo>>,
    order: Vec<usize>,
    anchors: BTreeSet<String>,
    /// ghost code of `@at end`, when it can stand at every exit
    exit: Option<String>,
}
impl<'a> Printer<'a> {
    pub fn new(c: Option<&'a FnContract>, loops: Option<&'a BTreeMap<usize, LoopInfo>>) -> Self {
        Printer { out: String::new(), ind: 0, c, loops, order: vec![], anchors: BTreeSet::new(), exit: None }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
    }
    fn collect(&mut self, t: TokenStream) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Ident(n) if n == "__vx_before" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        self.order.push(g.stream().to_string().parse().unwrap());
                    }
                }
                TokenTree::Group(g) => self.collect(g.stream()),
                _ => {}
            }
        }
    }
    /// A counting loop: its counter stays in range, and it ends.
    fn counted(&self, uid: usize, t: String) -> String {
        let Some(l) = self.loops.and_then(|l| l.get(&uid)).filter(|l| !l.lo.is_empty()) else { return t };
        let (i, n, lo) = (&l.i, &l.n, &l.lo);
        let own = format!("{lo} <= {i} && ({i} <= {n} || {i} == {lo}),");
        let t = if t.is_empty() { format!("            invariant\n                {own}") } else { t.replacen("invariant", &format!("invariant {own}"), 1) };
        if t.contains("decreases") { t } else { format!("{}\n            decreases {n} - {i},", t.trim_end()) }
    }
    fn text(&self, uid: usize, pos: &str) -> String {
        let Some(ord) = self.order.iter().position(|x| *x == uid) else { return String::new() };
        let Some(m) = self.c.and_then(|c| c.loops.get(&ord)) else { return String::new() };
        // the same search as an iterator chain, which runs to the end with its result in an accumulator
        let found = pos == "inv" && self.loops.and_then(|l| l.get(&uid)).is_some_and(|l| l.shape == "chain.find_map");
        let Some(t) = m.get("found").filter(|_| found).or_else(|| m.get(pos)) else { return String::new() };
        let mut t = t.clone();
        let Some(loops) = self.loops else { return t };
        for (k, u) in self.order.iter().enumerate().rev() {
            let l = &loops[u];
            for (n, v) in [("src", &l.src), ("acc", &l.acc), ("i", &l.i), ("n", &l.n)] {
                t = t.replace(&format!("${n}{k}"), v);
            }
        }
        let l = &loops[&uid];
        for (n, v) in [("src", &l.src), ("acc", &l.acc), ("i", &l.i), ("n", &l.n)] {
            t = t.replace(&format!("${n}"), v);
        }
        t
    }
    fn at_text(&self, t: &str) -> String {
        let mut t = t.to_string();
        let Some(loops) = self.loops else { return t };
        for (k, u) in self.order.iter().enumerate().rev() {
            let l = &loops[u];
            for (n, v) in [("src", &l.src), ("acc", &l.acc), ("i", &l.i), ("n", &l.n)] {
                t = t.replace(&format!("${n}{k}"), v);
            }
        }
        t
    }
    fn raw(&mut self, t: &str) {
        for l in t.lines() {
            self.nl();
            self.out.push_str(l.trim_end());
        }
        self.nl();
    }
    pub fn body(&mut self, b: &Block) {
        self.collect(b.to_token_stream());
        self.out.push('{');
        self.ind += 1;
        self.nl();
        if let Some(t) = self.c.and_then(|c| c.at.get("start")) {
            let t = self.at_text(t);
            self.raw(&t);
        }
        let end = self.c.and_then(|c| c.at.get("end")).cloned();
        if let Some(t) = &end {
            // the same ghost code at every other exit, unless it speaks of locals
            let mut bound = BTreeSet::new();
            struct V<'x>(&'x mut BTreeSet<String>);
            impl<'x, 'a> visit::Visit<'a> for V<'x> {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    self.0.insert(p.ident.to_string());
                    visit::visit_pat_ident(self, p);
                }
            }
            visit::Visit::visit_block(&mut V(&mut bound), b);
            let words: BTreeSet<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
            let ghosts = self.c.and_then(|c| c.at.get("start")).map_or(String::new(), |t| t.clone());
            if !t.contains('$') && !bound.iter().any(|n| words.contains(n.as_str()) && !ghosts.contains(n.as_str())) {
                self.exit = Some(t.clone());
            }
        }
        match end {
            None => {
                for s in &b.stmts {
                    self.toks(s.to_token_stream());
                    self.after_let(s);
                }
            }
            Some(t) => {
                let t = self.at_text(&t);
                let n = b.stmts.len();
                for (i, s) in b.stmts.iter().enumerate() {
                    if i + 1 == n {
                        if let Stmt::Expr(e, None) = s {
                            self.out.push_str("let __ret = ");
                            self.toks(e.to_token_stream());
                            self.out.push(';');
                            self.raw(&t);
                            self.out.push_str("__ret");
                            continue;
                        }
                        self.toks(s.to_token_stream());
                        self.raw(&t);
                        continue;
                    }
                    self.toks(s.to_token_stream());
                    self.after_let(s);
                }
            }
        }
        self.ind -= 1;
        self.nl();
        self.out.push('}');
    }
    /// Ghost code behind the statement that binds a name.
    fn after_let(&mut self, s: &Stmt) {
        let Stmt::Local(l) = s else { return };
        let Some(c) = self.c else { return };
        for n in pat_names(&l.pat) {
            if let Some(t) = c.at.get(&format!("let {n}")) {
                let t = self.at_text(t);
                self.raw(&t);
                self.anchors.insert(n);
            }
        }
    }
    pub fn missing_anchors(&self) -> Vec<String> {
        self.c.map_or(vec![], |c| c.at.keys().filter_map(|k| k.strip_prefix("let ")).filter(|n| !self.anchors.contains(*n)).map(|n| n.to_string()).collect())
    }
    pub fn toks(&mut self, t: TokenStream) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(n) if n == "__vx_before" || n == "__vx_after" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let uid: usize = g.stream().to_string().parse().unwrap();
                        let t = self.text(uid, if n == "__vx_before" { "before" } else { "after" });
                        if !t.is_empty() {
                            self.raw(&t);
                        }
                        i += 4;
                        continue;
                    }
                }
                TokenTree::Ident(n) if n == "return" && self.exit.is_some() => {
                    let mut j = i + 1;
                    while j < v.len() && !matches!(&v[j], TokenTree::Punct(p) if matches!(p.as_char(), ';' | ',')) {
                        j += 1;
                    }
                    let x = &v[i + 1..j];
                    self.out.push_str("return ");
                    if x.is_empty() || matches!(&x[0], TokenTree::Ident(n) if n == "Err") {
                        self.toks(x.iter().cloned().collect());
                    } else {
                        let t = self.exit.clone().unwrap();
                        self.out.push_str("{ let __ret = ");
                        self.toks(x.iter().cloned().collect());
                        self.out.push(';');
                        self.raw(&t);
                        self.out.push_str("__ret }");
                    }
                    i = j;
                    continue;
                }
                TokenTree::Ident(n) if n == "__vx_clo" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let p: Vec<TokenTree> = g.stream().into_iter().collect();
                        let k: usize = p[0].to_string().parse().unwrap();
                        let (TokenTree::Group(ps), TokenTree::Group(ret), TokenTree::Group(b)) = (&p[2], &p[4], &p[6]) else { unreachable!() };
                        let m = self.c.and_then(|c| c.closures.get(&k)).cloned().unwrap_or_default();
                        self.out.push('|');
                        self.toks(ps.stream());
                        self.out.push_str("| -> (r: ");
                        self.toks(ret.stream());
                        self.out.push(')');
                        if let Some(t) = m.get("ens") {
                            self.raw(t);
                        }
                        self.toks(TokenTree::Group(b.clone()).into());
                        if let Some(t) = m.get("ghost") {
                            self.out.push_str(", ");
                            self.raw(t);
                        }
                        i += 3;
                        continue;
                    }
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut start = 0;
                    let mut uid = None;
                    if let (Some(TokenTree::Ident(n)), Some(TokenTree::Group(a))) = (inner.first(), inner.get(2)) {
                        if n == "__vx_body" {
                            uid = Some(a.stream().to_string().parse::<usize>().unwrap());
                            start = 4;
                        }
                    }
                    if let Some(u) = uid {
                        let t = self.counted(u, self.text(u, "inv"));
                        if !t.is_empty() {
                            self.ind += 1;
                            self.raw(&t);
                            self.ind -= 1;
                        }
                    }
                    self.out.push_str("{");
                    self.ind += 1;
                    self.nl();
                    if let Some(u) = uid {
                        let t = self.text(u, "start");
                        if !t.is_empty() {
                            self.raw(&t);
                        }
                    }
                    self.toks(inner[start..].iter().cloned().collect());
                    if let Some(u) = uid {
                        let t = self.text(u, "end");
                        if !t.is_empty() {
                            self.raw(&t);
                        }
                        if let Some(l) = self.loops.and_then(|l| l.get(&u)).filter(|l| !l.lo.is_empty()) {
                            let t = format!("{} += 1;", l.i);
                            self.raw(&t);
                        }
                    }
                    self.ind -= 1;
                    self.nl();
                    self.out.push('}');
                    // statement-like
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(p)) if matches!(p.as_char(), ',' | ';' | '.' | ')' | '?') => {}
                        Some(TokenTree::Ident(n)) if n == "else" => self.out.push(' '),
                        Some(_) => self.nl(),
                        None => {}
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    self.out.push_str(a);
                    self.toks(g.stream());
                    while self.out.ends_with(' ') {
                        self.out.pop();
                    }
                    self.out.push_str(b);
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') || (c == ':' && p.spacing() == Spacing::Joint) {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    self.out.push(c);
                    if c == ';' {
                        self.nl();
                    } else if c == ',' && self.ind > 0 && matches!(v.get(i.wrapping_sub(1)), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && !matches!(c, '.' | '\'' | '&' | '!' | '#' | ':') {
                        self.out.push(' ');
                    } else if c == ':' && p.spacing() == Spacing::Alone {
                        // `a: T` versus the second half of `::`
                        if !matches!(v.get(i.wrapping_sub(1)), Some(TokenTree::Punct(q)) if q.as_char() == ':' && q.spacing() == Spacing::Joint) {
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Ident(n) => {
                    self.out.push_str(&n.to_string());
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
