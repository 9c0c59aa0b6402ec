//! Structured control flow: removal of `return`/`?` (closure bodies, inlined callees) and `continue` (loop bodies)
//! by pushing the remaining statements into the branches.
use crate::util::*;
use std::collections::BTreeSet;
use syn::{visit::Visit, visit_mut::VisitMut, *};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Return,
    Continue,
}
pub struct Flow<'a> {
    pub mode: Mode,
    /// is the operand of this `?` an Option
    pub is_opt: &'a dyn Fn(&Expr) -> bool,
    pub n: &'a mut usize,
}

fn declared(b: &Block) -> BTreeSet<String> {
    struct D(BTreeSet<String>);
    impl<'a> Visit<'a> for D {
        fn visit_local(&mut self, l: &'a Local) {
            self.0.extend(pat_names(&l.pat));
            visit::visit_local(self, l);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut d = D(BTreeSet::new());
    d.visit_block(b);
    d.0
}
fn used(stmts: &[Stmt]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for x in stmts {
        idents(quote::quote!(#x), &mut s);
    }
    s
}

impl<'a> Flow<'a> {
    fn hit(&self, s: &Scan) -> bool {
        match self.mode {
            Mode::Return => s.ret || s.tryy,
            Mode::Continue => s.cont,
        }
    }
    fn fresh(&mut self, p: &str) -> syn::Ident {
        *self.n += 1;
        id(&format!("__{p}{}", self.n))
    }
    pub fn block(&mut self, b: Block) -> R<Block> {
        let stmts = self.stmts(b.stmts)?;
        Ok(Block { brace_token: b.brace_token, stmts })
    }
    /// `inner` (a branch), then `rest`, as one statement list.
    fn join(&self, inner: Block, rest: &[Stmt], tail_is_value: bool) -> R<Vec<Stmt>> {
        let sc = scan_b(&inner);
        let mut out;
        if rest.is_empty() && tail_is_value {
            return Ok(inner.stmts);
        }
        if !self.hit(&sc) {
            out = vec![Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: semi_tail(inner) }), Some(Default::default()))];
        } else {
            let d = declared(&inner);
            if d.intersection(&used(rest)).next().is_some() {
                return Err("control flow: a name declared in a branch is used after it".into());
            }
            out = semi_tail(inner).stmts;
        }
        out.extend(rest.to_vec());
        Ok(out)
    }
    pub fn stmts(&mut self, stmts: Vec<Stmt>) -> R<Vec<Stmt>> {
        let Some(i) = stmts.iter().position(|s| self.hit(&scan_s(s))) else { return Ok(stmts) };
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let s = stmts[i].clone();
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        match s {
            Stmt::Expr(e, semi) => {
                let value = semi.is_none() && rest.is_empty();
                out.extend(self.stmt_expr(e, rest, value)?);
            }
            Stmt::Local(l) => {
                let Some(init) = l.init.clone() else { return Err("control flow: let without initialiser".into()) };
                if let Some((_, els)) = init.diverge {
                    let (p, e) = (&l.pat, &init.expr);
                    let div = self.branch(block_of(*els), &[], true)?;
                    let cont = Block { brace_token: Default::default(), stmts: self.stmts(rest)? };
                    out.push(Stmt::Expr(parse_quote!(match #e { #p => #cont, _ => #div }), None));
                    return Ok(out);
                }
                let pat = l.pat.clone();
                out.extend(self.bind(&pat, *init.expr, rest)?);
            }
            _ => return Err("control flow: unsupported statement".into()),
        }
        Ok(out)
    }
    fn branch(&mut self, b: Block, rest: &[Stmt], value: bool) -> R<Block> {
        let j = self.join(b, rest, value)?;
        Ok(Block { brace_token: Default::default(), stmts: self.stmts(j)? })
    }
    /// let pat = e; rest
    fn bind(&mut self, pat: &Pat, e: Expr, rest: Vec<Stmt>) -> R<Vec<Stmt>> {
        let tail = |b: Block| -> Block {
            let mut b = b;
            if let Some(Stmt::Expr(x, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                if matches!(x, Expr::Return(_) | Expr::Continue(_)) {
                    b.stmts.push(Stmt::Expr(x, Some(Default::default())));
                } else {
                    b.stmts.push(parse_quote!(let #pat = #x;));
                }
            }
            b
        };
        match e {
            Expr::If(i) if !self.hit(&scan_e(&i.cond)) && i.else_branch.is_some() => {
                let c = i.cond;
                let mut a = tail(i.then_branch).stmts;
                a.extend(rest.clone());
                let mut b = tail(block_of(*i.else_branch.unwrap().1)).stmts;
                b.extend(rest);
                let (a, b) = (self.stmts(a)?, self.stmts(b)?);
                Ok(vec![Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None)])
            }
            Expr::Match(mut m) if !self.hit(&scan_e(&m.expr)) => {
                for arm in &mut m.arms {
                    let mut b = tail(block_of((*arm.body).clone())).stmts;
                    let names = pat_names(&arm.pat);
                    let d = if matches!(b.last(), Some(Stmt::Expr(Expr::Return(_), _))) { vec![] } else { rest.clone() };
                    let mut own = pat_names(pat);
                    own.extend(names.clone());
                    if !d.is_empty() && names.intersection(&used(&d)).any(|n| !pat_names(pat).contains(n)) {
                        return Err("control flow: a name bound by a match arm is used after it".into());
                    }
                    b.extend(d);
                    let b = self.stmts(b)?;
                    *arm.body = parse_quote!({ #(#b)* });
                }
                Ok(vec![Stmt::Expr(Expr::Match(m), None)])
            }
            Expr::Paren(p) => self.bind(pat, *p.expr, rest),
            Expr::Block(b) if b.label.is_none() => {
                let d = declared(&b.block);
                if d.intersection(&used(&rest)).any(|n| !pat_names(pat).contains(n)) {
                    return Err("control flow: a name declared in a block is used after it".into());
                }
                let mut s = tail(b.block).stmts;
                s.extend(rest);
                self.stmts(s)
            }
            e => {
                let l: Stmt = parse_quote!(let #pat = #e;);
                self.hoist(l, rest)
            }
        }
    }
    fn stmt_expr(&mut self, e: Expr, rest: Vec<Stmt>, value: bool) -> R<Vec<Stmt>> {
        match e {
            Expr::Return(r) if self.mode == Mode::Return => {
                let v = r.expr.map(|x| *x).unwrap_or_else(|| parse_quote!(()));
                if self.hit(&scan_e(&v)) {
                    return self.stmt_expr(v, vec![], true);
                }
                Ok(vec![Stmt::Expr(v, None)])
            }
            Expr::Continue(_) if self.mode == Mode::Continue => Ok(vec![]),
            Expr::Paren(p) => self.stmt_expr(*p.expr, rest, value),
            Expr::Block(b) if b.label.is_none() => {
                let j = self.join(b.block, &rest, value)?;
                self.stmts(j)
            }
            Expr::If(i) if !self.hit(&scan_e(&i.cond)) => {
                let c = i.cond;
                let a = self.branch(i.then_branch, &rest, value)?;
                let b = match i.else_branch {
                    Some((_, x)) => self.branch(block_of(*x), &rest, value)?,
                    None => self.branch(Block { brace_token: Default::default(), stmts: vec![] }, &rest, value)?,
                };
                Ok(vec![Stmt::Expr(parse_quote!(if #c #a else #b), None)])
            }
            Expr::Match(mut m) if !self.hit(&scan_e(&m.expr)) => {
                for arm in &mut m.arms {
                    if arm.guard.as_ref().map_or(false, |g| self.hit(&scan_e(&g.1))) {
                        return Err("control flow: `?` in a match guard".into());
                    }
                    if pat_names(&arm.pat).intersection(&used(&rest)).next().is_some() {
                        return Err("control flow: a name bound by a match arm is used after it".into());
                    }
                    let b = self.branch(block_of((*arm.body).clone()), &rest, value)?;
                    *arm.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    arm.comma = Some(Default::default());
                }
                Ok(vec![Stmt::Expr(Expr::Match(m), None)])
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => Err("control flow: return inside a loop of an inlined body".into()),
            e => {
                if value {
                    let v = self.fresh("v");
                    let _ = v;
                    self.hoist(Stmt::Expr(e, None), rest)
                } else {
                    self.hoist(Stmt::Expr(e, Some(Default::default())), rest)
                }
            }
        }
    }
    /// Takes the first `?` (in evaluation order) out of a statement.
    fn hoist(&mut self, mut s: Stmt, rest: Vec<Stmt>) -> R<Vec<Stmt>> {
        struct H {
            found: Option<Expr>,
            var: Ident,
            bad: bool,
        }
        impl VisitMut for H {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if self.found.is_some() {
                    return;
                }
                match e {
                    Expr::Closure(_) => return,
                    Expr::Return(_) | Expr::Continue(_) => {
                        self.bad = true;
                        return;
                    }
                    Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                        if scan_e(&b.right).tryy {
                            self.bad = true;
                        }
                        self.visit_expr_mut(&mut b.left);
                        return;
                    }
                    Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if scan_e(e).tryy || scan_e(e).ret => {
                        // the scrutinee may still be hoisted
                        match e {
                            Expr::If(i) => self.visit_expr_mut(&mut i.cond),
                            Expr::Match(m) => self.visit_expr_mut(&mut m.expr),
                            _ => {}
                        }
                        if self.found.is_none() {
                            self.bad = true;
                        }
                        return;
                    }
                    _ => {}
                }
                if let Expr::Try(t) = e {
                    self.visit_expr_mut(&mut t.expr);
                    if self.found.is_none() {
                        self.found = Some((*t.expr).clone());
                        let v = &self.var;
                        *e = parse_quote!(#v);
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let var = self.fresh("q");
        let mut h = H { found: None, var: var.clone(), bad: false };
        h.visit_stmt_mut(&mut s);
        let Some(x) = h.found else { return Err("control flow: return in an unsupported position".into()) };
        if h.bad {
            return Err("control flow: conditional `?`".into());
        }
        let mut st = vec![s];
        st.extend(rest);
        let k = self.stmts(st)?;
        let e: Expr = if (self.is_opt)(&x) {
            parse_quote!(match #x { Some(#var) => { #(#k)* }, None => None })
        } else {
            parse_quote!(match #x { Ok(#var) => { #(#k)* }, Err(__e) => Err(__vx_into!(__e)) })
        };
        Ok(vec![Stmt::Expr(e, None)])
    }
}

fn semi_tail(mut b: Block) -> Block {
    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
        *semi = Some(Default::default());
    }
    b
}
