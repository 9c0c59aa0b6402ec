//! Small helpers over types-as-text, tokens and patterns.
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use std::collections::BTreeSet;
use syn::{visit::Visit, *};

pub type R<T> = std::result::Result<T, String>;

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn px(s: &str) -> Expr {
    reset_e(parse_str::<Expr>(s).unwrap_or_else(|e| panic!("bad generated expr `{s}`: {e}")))
}
pub fn ts(s: &str) -> TokenStream {
    reset(s.parse().unwrap())
}
/// All spans moved to the call site, so that no compiler fact is looked up for generated tokens.
pub fn reset(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|mut x| {
            match &mut x {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), reset(g.stream()));
                    n.set_span(Span::call_site());
                    return TokenTree::Group(n);
                }
                y => y.set_span(Span::call_site()),
            }
            x
        })
        .collect()
}
pub fn reset_e(e: Expr) -> Expr {
    parse2(reset(quote::quote!(#e))).unwrap()
}

/// `std::option::Option::<T>::map` -> `Option::map`
pub fn canon(p: &str) -> String {
    let mut segs: Vec<String> = vec![];
    let mut cur = String::new();
    let mut depth = 0usize;
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            '<' => depth += 1,
            '>' if i > 0 && b[i - 1] == '-' => {}
            '>' => depth -= 1,
            ':' if depth == 0 && i + 1 < b.len() && b[i + 1] == ':' => {
                segs.push(std::mem::take(&mut cur));
                i += 2;
                continue;
            }
            _ if depth == 0 => cur.push(c),
            _ => {}
        }
        i += 1;
    }
    segs.push(cur);
    let segs: Vec<String> = segs.into_iter().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let n = segs.len();
    if n >= 2 {
        format!("{}::{}", segs[n - 2], segs[n - 1])
    } else {
        segs.join("::")
    }
}

/// Type text without lifetimes and module paths: `&'a std::vec::Vec<u32>` -> `&Vec<u32>`
pub fn tyn(t: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut word = String::new();
    while i < b.len() {
        let c = b[i];
        if c == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            while i < b.len() && (b[i] == ' ' || (b[i] == ',' && out.ends_with('<'))) {
                i += 1;
            }
            continue;
        }
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' && i + 1 < b.len() && b[i + 1] == ':' {
            word.clear();
            i += 1;
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
        i += 1;
    }
    out.push_str(&word);
    out.replace("<>", "").replace(" ", "").replace("&mut", "&mut ").replace("dyn", "dyn ")
}
/// Outermost type constructor below references: `&mut Vec<u32>` -> `Vec`
pub fn head(t: &str) -> String {
    let t = tyn(t);
    let t = t.trim_start_matches(|c| c == '&').trim_start_matches("mut ").trim_start_matches('&');
    if t.starts_with('[') {
        return "slice".into();
    }
    t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
pub fn unref(t: &str) -> String {
    tyn(t).trim_start_matches('&').trim_start_matches("mut ").to_string()
}
pub fn generic_args(t: &str) -> Vec<String> {
    let t = unref(t);
    let Some(i) = t.find('<') else { return vec![] };
    let inner = &t[i + 1..t.rfind('>').unwrap_or(t.len())];
    split_top(inner)
}
pub fn split_top(s: &str) -> Vec<String> {
    let mut r = vec![];
    let mut d = 0i32;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => {
                r.push(std::mem::take(&mut cur).trim().to_string());
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        r.push(cur.trim().to_string());
    }
    r
}

#[derive(Default)]
pub struct Scan {
    pub ret: bool,
    pub tryy: bool,
    pub brk: bool,
    pub cont: bool,
    depth: usize,
}
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, _e: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.tryy = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_break(&mut self, _e: &'a ExprBreak) {
        if self.depth == 0 {
            self.brk = true;
        }
    }
    fn visit_expr_continue(&mut self, _e: &'a ExprContinue) {
        if self.depth == 0 {
            self.cont = true;
        }
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, e);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, _e: &'a ExprClosure) {}
    fn visit_item(&mut self, _e: &'a Item) {}
}
pub fn scan_e(e: &Expr) -> Scan {
    let mut s = Scan::default();
    s.visit_expr(e);
    s
}
pub fn scan_b(b: &Block) -> Scan {
    let mut s = Scan::default();
    s.visit_block(b);
    s
}
pub fn scan_s(x: &Stmt) -> Scan {
    let mut s = Scan::default();
    s.visit_stmt(x);
    s
}

/// Names bound by a pattern.
pub fn pat_names(p: &Pat) -> BTreeSet<String> {
    struct P(BTreeSet<String>);
    impl<'a> Visit<'a> for P {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = P(BTreeSet::new());
    v.visit_pat(p);
    v.0
}

/// Every identifier in a token stream.
pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

pub fn strip_pat_type(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => strip_pat_type(&t.pat),
        p => p.clone(),
    }
}

pub fn block_of(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] },
    }
}
pub fn expr_of(mut b: Block) -> Expr {
    if b.stmts.len() == 1 {
        if let Stmt::Expr(_, None) = &b.stmts[0] {
            if let Stmt::Expr(e, None) = b.stmts.remove(0) {
                return e;
            }
        }
    }
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}
