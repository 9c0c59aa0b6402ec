//! Copies named functions of one source file, with everything of that file they mention, unchanged.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::*;

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Literal(l) => {
                // names used inside format strings
                let s = l.to_string();
                let mut w = String::new();
                for c in s.chars() {
                    if c.is_alphanumeric() || c == '_' {
                        w.push(c)
                    } else {
                        if !w.is_empty() {
                            out.insert(std::mem::take(&mut w));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
fn name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Const(c) => c.ident.to_string(),
        Item::Static(c) => c.ident.to_string(),
        Item::Struct(c) => c.ident.to_string(),
        Item::Enum(c) => c.ident.to_string(),
        Item::Type(c) => c.ident.to_string(),
        Item::Trait(c) => c.ident.to_string(),
        Item::Macro(m) => m.ident.as_ref()?.to_string(),
        _ => return None,
    })
}

pub fn run(file: &str, out: &str, fns: &[String]) -> std::result::Result<(), String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let ast = parse_file(&src).map_err(|e| format!("{file}: {e}"))?;
    let items: Vec<&Item> = ast.items.iter().collect();
    let is_test = |a: &[Attribute]| a.iter().any(|a| a.to_token_stream().to_string().contains("test"));
    let mut take: BTreeSet<usize> = BTreeSet::new();
    let mut mentioned: BTreeSet<String> = fns.iter().cloned().collect();
    loop {
        let before = take.len();
        for (k, i) in items.iter().enumerate() {
            if take.contains(&k) {
                continue;
            }
            let wanted = match i {
                Item::Impl(im) => {
                    let mut s = BTreeSet::new();
                    idents(im.self_ty.to_token_stream(), &mut s);
                    // only impls of types that are copied, or of local traits for other types
                    items.iter().enumerate().any(|(j, x)| take.contains(&j) && matches!(x, Item::Struct(_) | Item::Enum(_) | Item::Trait(_)) && name(x).map_or(false, |n| s.contains(&n) || im.trait_.as_ref().map_or(false, |t| t.1.is_ident(&n))))
                }
                x => name(x).map_or(false, |n| mentioned.contains(&n)),
            };
            let attrs: &[Attribute] = match i {
                Item::Fn(f) => &f.attrs,
                Item::Impl(f) => &f.attrs,
                Item::Mod(f) => &f.attrs,
                _ => &[],
            };
            if wanted && !is_test(attrs) {
                take.insert(k);
                idents(i.to_token_stream(), &mut mentioned);
            }
        }
        if take.len() == before {
            break;
        }
    }
    for f in fns {
        if !take.iter().any(|k| name(items[*k]).as_ref() == Some(f)) {
            return Err(format!("{file}: no item {f}"));
        }
    }
    let mut o = String::new();
    let copied: BTreeSet<String> = take.iter().filter_map(|k| name(items[*k])).collect();
    for i in &items {
        if let Item::Use(u) = i {
            let mut ls = vec![];
            crate::leaves(&u.tree, vec![], &mut ls);
            for (p, alias) in ls {
                let n = alias.clone().unwrap_or(p.last().cloned().unwrap_or_default());
                let root = p[0].as_str();
                let lib = ["std", "core", "subweight_core", "log", "glob", "lazy_static"].contains(&root);
                if lib && (mentioned.contains(&n) || n == "_" || n == "*") && !copied.contains(&n) {
                    o.push_str(&format!("#[allow(unused_imports)] use {}{};\n", p.join("::"), alias.map(|a| format!(" as {a}")).unwrap_or_default()));
                }
            }
        }
    }
    for k in &take {
        let mut i = items[*k].clone();
        // the harness calls it
        match &mut i {
            Item::Fn(f) => f.vis = parse_quote!(pub),
            Item::Enum(f) => f.vis = parse_quote!(pub),
            Item::Struct(f) => {
                f.vis = parse_quote!(pub);
                for x in f.fields.iter_mut() {
                    x.vis = parse_quote!(pub);
                }
            }
            _ => {}
        }
        o.push_str(&format!("#[allow(dead_code)]\n{}\n", i.to_token_stream()));
    }
    std::fs::write(out, o).map_err(|e| e.to_string())
}
