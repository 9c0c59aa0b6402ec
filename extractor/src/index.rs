//! Index of the items of /repo's sources.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{spanned::Spanned, *};

#[derive(Clone)]
pub struct ImplCtx {
    pub generics: Generics,
    pub self_ty: Type,
    pub trait_: Option<Path>,
    pub assoc_types: Vec<ImplItemType>,
}
#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub module: String,
    pub ctx: Option<ImplCtx>,
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
    pub end: usize,
    pub trait_decl: Option<String>,
}
#[derive(Clone)]
pub struct TyInfo {
    pub name: String,
    pub module: String,
    pub file: String,
    pub item: Item,
    pub derives: Vec<String>,
}
#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, FnInfo>,
    /// definition position "file:line:col" -> key
    pub pos: BTreeMap<String, String>,
    pub types: Vec<TyInfo>,
    pub macros: Vec<(String, String, ItemMacro)>,
    pub uses: BTreeMap<String, Vec<ItemUse>>,
    pub aliases: BTreeMap<String, Type>,
    pub impls: Vec<(String, String, ItemImpl)>,
}

impl Index {
    /// Whether `tr` (`PartialEq`, `Clone`) on `ty` is not the structural one: some type inside has
    /// its own implementation, or floats are compared.
    pub fn hand_written(&self, tr: &str, ty: &str) -> Option<String> {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo: Vec<String> = words(ty);
        while let Some(w) = todo.pop() {
            if !seen.insert(w.clone()) {
                continue;
            }
            if tr == "PartialEq" && (w == "f64" || w == "f32") {
                return Some(w);
            }
            if self.impls.iter().any(|(_, _, i)| i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == tr) && words(&tstr(&i.self_ty)).first() == Some(&w)) {
                return Some(w);
            }
            for t in self.types.iter().filter(|t| t.name == w) {
                todo.extend(words(&t.item.to_token_stream().to_string()));
            }
        }
        None
    }
}
fn words(t: &str) -> Vec<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

pub fn tstr<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = tstr(a);
        s.contains("cfg(test)") || s == "#[test]"
    })
}

pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut r = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = tstr(&a.meta);
            let s = s.trim_start_matches("derive(").trim_end_matches(')');
            r.extend(s.split(',').map(|x| x.rsplit("::").next().unwrap().to_string()));
        }
    }
    r
}

impl Index {
    pub fn add_file(&mut self, repo: &str, file: &str, module: &str) -> std::result::Result<(), String> {
        let src = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("{file}: {e}"))?;
        let ast = syn::parse_file(&src).map_err(|e| format!("{file}: {e}"))?;
        self.add_items(file, module, &ast.items);
        Ok(())
    }
    fn add_items(&mut self, file: &str, module: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Use(u) => {
                    if !is_test(&u.attrs) {
                        self.uses.entry(module.into()).or_default().push(u.clone());
                    }
                }
                Item::Type(t) => {
                    self.aliases.insert(format!("{module}::{}", t.ident), (*t.ty).clone());
                    self.types.push(TyInfo { name: t.ident.to_string(), module: module.into(), file: file.into(), item: it.clone(), derives: vec![] });
                }
                Item::Struct(t) => self.types.push(TyInfo { name: t.ident.to_string(), module: module.into(), file: file.into(), item: it.clone(), derives: derives(&t.attrs) }),
                Item::Enum(t) => self.types.push(TyInfo { name: t.ident.to_string(), module: module.into(), file: file.into(), item: it.clone(), derives: derives(&t.attrs) }),
                Item::Const(t) => self.types.push(TyInfo { name: t.ident.to_string(), module: module.into(), file: file.into(), item: it.clone(), derives: vec![] }),
                Item::Trait(t) => self.types.push(TyInfo { name: t.ident.to_string(), module: module.into(), file: file.into(), item: it.clone(), derives: vec![] }),
                Item::Macro(m) => {
                    if m.mac.path.is_ident("macro_rules") {
                        self.macros.push((module.into(), file.into(), m.clone()));
                    }
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let key = format!("{module}::{}", f.sig.ident);
                    self.put(FnInfo { key, file: file.into(), module: module.into(), ctx: None, sig: f.sig.clone(), block: (*f.block).clone(), line: f.span().start().line, end: f.span().end().line, trait_decl: None });
                }
                Item::Impl(i) => {
                    if !is_test(&i.attrs) {
                        self.impls.push((module.into(), file.into(), i.clone()));
                    }
                }
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, items)) = &m.content {
                        let sub = if module == "crate" { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                        self.add_items(file, &sub, items);
                    }
                }
                _ => {}
            }
        }
    }
    fn put(&mut self, f: FnInfo) {
        let lc = f.sig.ident.span().start();
        self.pos.insert(format!("{}:{}:{}", f.file, lc.line, lc.column), f.key.clone());
        self.fns.insert(f.key.clone(), f);
    }
    /// Canonical name of an impl's self type: type aliases of the same crate resolved.
    pub fn canon(&self, t: &Type) -> String {
        if let Type::Path(p) = t {
            if let Some(l) = p.path.segments.last() {
                let n = l.ident.to_string();
                if l.arguments.is_none() {
                    for (k, v) in &self.aliases {
                        if k.rsplit("::").next() == Some(&n) && n != "Result" {
                            if let Type::Path(_) = v {
                                return self.canon(v);
                            }
                        }
                    }
                }
                return tstr(l);
            }
        }
        tstr(t)
    }
    pub fn finish(&mut self) {
        let impls = std::mem::take(&mut self.impls);
        for (module, file, i) in &impls {
            let st = self.canon(&i.self_ty);
            let tn = i.trait_.as_ref().map(|(_, p, _)| tstr(p.segments.last().unwrap()));
            let assoc: Vec<ImplItemType> = i.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some(t.clone()) } else { None }).collect();
            for it in &i.items {
                if let ImplItem::Fn(f) = it {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let key = match &tn {
                        Some(t) => format!("{module}::{st}::{t}::{}", f.sig.ident),
                        None => format!("{module}::{st}::{}", f.sig.ident),
                    };
                    self.put(FnInfo {
                        key,
                        file: file.clone(),
                        module: module.clone(),
                        ctx: Some(ImplCtx { generics: i.generics.clone(), self_ty: (*i.self_ty).clone(), trait_: i.trait_.as_ref().map(|x| x.1.clone()), assoc_types: assoc.clone() }),
                        sig: f.sig.clone(),
                        block: f.block.clone(),
                        line: f.span().start().line,
                        end: f.span().end().line,
                        trait_decl: None,
                    });
                }
            }
        }
        self.impls = impls;
    }
}
