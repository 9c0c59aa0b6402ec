//! swc-extract REPO FACTS CONTRACTS UNIT OUT.rs META.json
//! Takes the functions a unit names out of /repo's current source, rewrites their bodies into the verifier's
//! subset of Rust and joins them with the contracts. Everything dropped or rewritten is counted in META.json.
mod contracts;
mod desugar;
mod emit;
mod facts;
mod flow;
mod index;
mod items;
mod util;

use emit::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;
use util::*;

fn modules(repo: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    fn walk(repo: &str, dir: &str, pre: &str, r: &mut Vec<(String, String)>) {
        let mut es: Vec<_> = std::fs::read_dir(format!("{repo}/{dir}")).map(|d| d.filter_map(|e| e.ok()).collect()).unwrap_or_default();
        es.sort_by_key(|e: &std::fs::DirEntry| e.file_name());
        for e in es {
            let n = e.file_name().to_string_lossy().to_string();
            if e.path().is_dir() {
                if n != "test" && n != "tests" {
                    let m = if pre == "crate" { n.clone() } else { format!("{pre}::{n}") };
                    walk(repo, &format!("{dir}/{n}"), &m, r);
                }
            } else if let Some(s) = n.strip_suffix(".rs") {
                if s == "testing" {
                    continue;
                }
                let m = match s {
                    "lib" | "mod" => pre.to_string(),
                    s if pre == "crate" => s.to_string(),
                    s => format!("{pre}::{s}"),
                };
                r.push((format!("{dir}/{n}"), m));
            }
        }
    }
    walk(repo, "core/src", "crate", &mut r);
    for (f, m) in [("cli/src/main.rs", "cli"), ("web/src/html.rs", "web_html"), ("web/src/git.rs", "web_git")] {
        if std::path::Path::new(&format!("{repo}/{f}")).exists() {
            r.push((f.to_string(), m.to_string()));
        }
    }
    r
}

fn leaves(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            leaves(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, None))
        }
        UseTree::Rename(n) => {
            let mut q = pre;
            q.push(n.ident.to_string());
            out.push((q, Some(n.rename.to_string())))
        }
        UseTree::Glob(_) => {
            let mut q = pre;
            q.push("*".into());
            out.push((q, None))
        }
        UseTree::Group(g) => {
            for i in &g.items {
                leaves(i, pre.clone(), out)
            }
        }
    }
}

fn absolute(p: &[String], module: &str) -> Vec<String> {
    let m: Vec<String> = if module == "crate" { vec![] } else { module.split("::").map(|x| x.to_string()).collect() };
    match p.first().map(|s| s.as_str()) {
        Some("crate") | Some("subweight_core") => p[1..].to_vec(),
        Some("self") => [m, p[1..].to_vec()].concat(),
        Some("super") => {
            let mut m = m;
            let mut p = p.to_vec();
            while p.first().map(|s| s.as_str()) == Some("super") {
                m.pop();
                p.remove(0);
            }
            [m, p].concat()
        }
        _ => [m, p.to_vec()].concat(),
    }
}

#[derive(Default)]
struct Mod {
    pieces: Vec<(String, Option<String>)>, // text, function key
    uses: BTreeSet<String>,
}

fn run(a: &[String]) -> std::result::Result<(), String> {
    let (repo, factdir, cdir, unit) = (&a[1], &a[2], &a[3], &a[4]);
    let db = contracts::Db::load(cdir, &std::path::Path::new(unit).file_stem().map_or(String::new(), |s| s.to_string_lossy().to_string()))?;
    let facts = facts::Facts::load(factdir)?;
    let mut ix = index::Index::default();
    for (f, m) in modules(repo) {
        ix.add_file(repo, &f, &m)?;
    }
    ix.finish();
    if unit == "--list" {
        for k in ix.fns.keys() {
            println!("{k}");
        }
        return Ok(());
    }
    let (out, meta) = (&a[5], &a[6]);
    let mut keys = vec![];
    let mut extra_used: BTreeSet<String> = BTreeSet::new();
    let mut terminates = false;
    for l in std::fs::read_to_string(unit).map_err(|e| e.to_string())?.lines() {
        let l = l.split('#').next().unwrap().trim();
        if let Some(k) = l.strip_prefix("prove ") {
            keys.push(k.trim().to_string());
        } else if let Some(k) = l.strip_prefix("lemma ") {
            extra_used.insert(k.trim().to_string());
        } else if l == "terminates" {
            // every recursive function of the unit must name a measure
            terminates = true;
        } else if !l.is_empty() {
            return Err(format!("{unit}: {l}"));
        }
    }
    let mut em = Emit { ix: &ix, facts: &facts, db: &db, items: BTreeMap::new(), prove: BTreeSet::new(), used: BTreeSet::new(), sel: Default::default(), extra: extra_used };
    em.run(&keys)?;

    // ---- assemble
    let mut mods: BTreeMap<String, Mod> = BTreeMap::new();
    for m in ["crate", "sp", "vx"] {
        mods.entry(m.into()).or_default();
    }
    let mut names: BTreeMap<String, Vec<String>> = BTreeMap::new(); // name -> modules
    let (gi, ti) = em.sel.clone();
    for i in &ti {
        let t = &ix.types[*i];
        let mut s = clean_item(&t.item, &db).to_string();
        if t.derives.iter().any(|d| d == "Copy") {
            s = format!("#[derive(Clone, Copy)]\n{s}");
        }
        if let Item::Enum(e) = &t.item {
            if e.variants.iter().all(|v| v.fields.is_empty()) && t.derives.iter().any(|d| d == "Ord") && !ix.impls.iter().any(|(_, _, im)| tstr(&im.self_ty) == t.name && im.trait_.as_ref().map_or(false, |x| matches!(tstr(x.1.segments.last().unwrap()).as_str(), "Ord" | "PartialOrd"))) {
                let arms: Vec<String> = e.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}", t.name, v.ident, i)).collect();
                s.push_str(&format!("\n// derived Ord: declaration order\nimpl crate::vx::DeclOrd for {} {{ open spec fn drank(&self) -> int {{ match self {{ {} }} }} }}", t.name, arms.join(", ")));
            }
        }
        names.entry(t.name.clone()).or_default().push(t.module.clone());
        mods.entry(t.module.clone()).or_default().pieces.push((s, None));
        if let Some(x) = db.implspec.get(&format!("{}::{}", t.module, t.name)) {
            mods.entry(t.module.clone()).or_default().pieces.push((x.clone(), None));
        }
    }
    for i in &gi {
        let g = &db.ghosts[*i];
        let m = mods.entry(g.module.clone()).or_default();
        for u in &g.uses {
            m.uses.insert(u.clone());
        }
        m.pieces.push((format!("// contract text {}:{}\n{}", g.file, g.line, g.text), None));
        if g.module != "sp" && g.module != "vx" {
            for l in g.text.lines() {
                for kw in ["pub struct ", "pub enum ", "pub type "] {
                    if let Some(r) = l.strip_prefix(kw) {
                        let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        names.entry(n).or_default().push(g.module.clone());
                    }
                }
            }
        }
    }
    // functions grouped by impl header
    let mut groups: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
    for (k, it) in &em.items {
        let h = if it.header.is_empty() { format!("\u{1}{k}") } else { it.header.clone() };
        groups.entry((it.module.clone(), h)).or_default().push(k.clone());
    }
    let mut fmeta: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    for ((m, h), ks) in groups {
        let md = mods.entry(m.clone()).or_default();
        if !h.starts_with('\u{1}') {
            md.pieces.push((format!("{h} {{"), None));
        }
        for k in &ks {
            let it = &em.items[k];
            let c = db.fns.get(k);
            let mut s = String::new();
            if it.role == "stub" {
                s.push_str("#[verifier::external_body]\n");
            }
            let mut attrs: Vec<String> = c.map(|c| c.attrs.clone()).unwrap_or_default();
            attrs.push("verifier::loop_isolation(false)".into());
            if !(terminates && it.role == "proved") && c.map_or(true, |c| c.decreases.trim().is_empty()) {
                attrs.push("verifier::exec_allows_no_decreases_clause".into());
            }
            for x in attrs {
                if it.role == "stub" && (x.contains("spinoff") || x.contains("rlimit") || x.contains("loop_isolation")) {
                    continue;
                }
                s.push_str(&format!("#[{x}]\n"));
            }
            let mut sig = it.sig.clone();
            let ret = match &sig.output {
                ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
                ReturnType::Default => None,
            };
            sig.output = ReturnType::Default;
            let wh = sig.generics.where_clause.take();
            let vis = if it.is_trait { "" } else { "pub " };
            // constness is irrelevant to the proof
            sig.constness = None;
            let mut p = Printer::new(c, Some(&it.loops));
            p.toks(sig.to_token_stream());
            s.push_str(&format!("{vis}{}", p.out.trim_end()));
            let rn = c.and_then(|c| c.ret.clone()).unwrap_or("r".into());
            if let Some(r) = ret {
                s.push_str(&format!(" -> ({rn}: {r})"));
            }
            if let Some(w) = wh {
                s.push_str(&format!("\n{}", w.to_token_stream()));
            }
            if let Some(c) = c {
                let actual: Vec<String> = sig.inputs.iter().map(|a| match a {
                    FnArg::Receiver(_) => "self".to_string(),
                    FnArg::Typed(t) => tstr(&t.pat).trim_start_matches("mut").to_string(),
                }).collect();
                let sub = |t: &str| -> String {
                    let mut t = t.to_string();
                    for (a, b) in c.args.iter().zip(&actual) {
                        if a != b && a != "self" {
                            t = replace_word(&t, a, b);
                        }
                    }
                    t
                };
                if !c.requires.trim().is_empty() {
                    s.push_str(&format!("\n    requires\n{}", sub(&c.requires).trim_end()));
                }
                let mut ens = c.ensures.clone();
                if it.role == "stub" {
                    ens.push_str(&c.assumed);
                }
                if !ens.trim().is_empty() {
                    s.push_str(&format!("\n    ensures\n{}", sub(&ens).trim_end()));
                }
                if !c.decreases.trim().is_empty() && it.role != "stub" {
                    s.push_str(&format!("\n    decreases {}", sub(&c.decreases).trim()));
                }
            }
            s.push('\n');
            let mut lost_anchors: Vec<String> = vec![];
            match &it.body {
                None => s.push_str("{ unimplemented!() }"),
                Some(b) => {
                    // the contract's names for the parameters, at the start of the body
                    let mut renamed = c.cloned();
                    if let Some(rc) = &mut renamed {
                        let args = rc.args.clone();
                        if let Some(t) = rc.at.get_mut("start") {
                            for (a, f) in args.iter().zip(&it.sig.inputs) {
                                if let FnArg::Typed(f) = f {
                                    let b = tstr(&f.pat).trim_start_matches("mut").to_string();
                                    if *a != b {
                                        *t = replace_word(t, a, &b);
                                    }
                                }
                            }
                        }
                    }
                    if let Some(rc) = &mut renamed {
                        let mut locals = std::collections::BTreeSet::new();
                        let text = b.to_token_stream().to_string();
                        let words: Vec<&str> = text.split_whitespace().collect();
                        for w in words.windows(3).filter(|w| w[0] == "let") {
                            locals.insert(if w[1] == "mut" { w[2] } else { w[1] }.to_string());
                        }
                        let hidden = db.spec_fns(&locals);
                        if !hidden.is_empty() {
                            rc.at.values_mut().chain(rc.loops.values_mut().flat_map(|m| m.values_mut())).for_each(|t| *t = contracts::qualify(t, &hidden));
                        }
                    }
                    let mut p = Printer::new(renamed.as_ref(), Some(&it.loops));
                    p.body(b);
                    if it.role == "proved" {
                        lost_anchors = p.missing_anchors();
                    }
                    match p.out.find('{') {
                        Some(i) if it.role == "proved" => {
                            // after the leading `hide` directives, which must come first
                            let mut j = i + 1;
                            for l in p.out[i + 1..].split_inclusive('\n') {
                                let t = l.trim();
                                if !t.is_empty() && !t.starts_with("hide(") {
                                    break;
                                }
                                j += l.len();
                            }
                            if !p.out[i + 1..j].contains("hide(") {
                                j = i + 1;
                            }
                            s.push_str(&p.out[..j]);
                            s.push_str(" /*entry*/ ");
                            s.push_str(&p.out[j..]);
                        }
                        _ => s.push_str(&p.out),
                    }
                }
            }
            md.pieces.push((if it.is_trait { format!("{}{s}", it.assoc) } else { s }, Some(k.clone())));
            let mut errs = it.errs.clone();
            errs.extend(lost_anchors.iter().map(|n| format!("the contract refers to a local `{n}` that is no more")));
            fmeta.insert(k.clone(), serde_json::json!({"role": it.role, "file": it.file, "line": it.line, "end": it.end, "errs": errs, "rewrites": it.rewrites,
                "loops": it.loops.len(), "shapes": it.loops.values().map(|l| l.shape.clone()).collect::<Vec<_>>(), "contracted_loops": c.map_or(0, |c| c.loops.len()), "trusted": c.map_or(false, |c| c.trusted)}));
        }
        if !h.starts_with('\u{1}') {
            md.pieces.push(("}".into(), None));
        }
    }
    // imports
    let emitted_fns: BTreeSet<String> = em.items.values().filter(|i| i.header.is_empty()).map(|i| format!("{}::{}", i.module, i.sig.ident)).collect();
    let emitted_tys: BTreeSet<String> = names.iter().flat_map(|(n, ms)| ms.iter().map(move |m| format!("{m}::{n}"))).collect();
    for (m, us) in &ix.uses {
        if !mods.contains_key(m) {
            continue;
        }
        let mut ls = vec![];
        for u in us {
            leaves(&u.tree, vec![], &mut ls);
        }
        for (p, alias) in ls {
            let raw = p.join("::");
            let al = alias.clone().map(|a| format!(" as {a}")).unwrap_or_default();
            if db.std_uses.contains(&raw) {
                mods.get_mut(m).unwrap().uses.insert(format!("use {raw}{al};"));
                continue;
            }
            let ab = absolute(&p, m);
            if ab.is_empty() {
                continue;
            }
            let md = if ab.len() == 1 { "crate".to_string() } else { ab[..ab.len() - 1].join("::") };
            let n = format!("{md}::{}", ab.last().unwrap());
            if emitted_fns.contains(&n) || emitted_tys.contains(&n) {
                let full = if md == "crate" { ab.join("::") } else { ab.join("::") };
                mods.get_mut(m).unwrap().uses.insert(format!("use crate::{full}{al};"));
            } else if mods.contains_key(&ab.join("::")) && ab.len() <= 2 && p.len() > 0 {
                mods.get_mut(m).unwrap().uses.insert(format!("use crate::{}{al};", ab.join("::")));
            }
        }
    }
    // intermediate modules
    let all: Vec<String> = mods.keys().cloned().collect();
    for m in all {
        let mut p = String::new();
        for s in m.split("::") {
            p = if p.is_empty() { s.to_string() } else { format!("{p}::{s}") };
            mods.entry(p.clone()).or_default();
        }
    }
    let mut o = String::from("// Generated from /repo by swc-extract: contracts joined with the mechanically rewritten source. Do not edit.\n#![allow(unused, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unreachable_code, unreachable_patterns)]\n");
    let mut allnames = String::from("pub mod allnames {\n");
    for (n, ms) in &names {
        let one = if ms.len() == 1 { Some(&ms[0]) } else { db.prefer.get(n).and_then(|p| ms.iter().find(|m| *m == p)) };
        if let (Some(m), true) = (one, n != "Result") {
            let full = if m == "crate" { n.clone() } else { format!("{m}::{n}") };
            allnames.push_str(&format!("    pub use crate::{full};\n"));
        }
    }
    allnames.push_str("}\n");
    o.push_str(&allnames);
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    fn emit_mod(path: &str, mods: &BTreeMap<String, Mod>, o: &mut String, ranges: &mut BTreeMap<String, (usize, usize)>, names: &BTreeMap<String, Vec<String>>) {
        let m = &mods[path];
        o.push_str("use vstd::prelude::*;\n");
        for g in ["vx", "sp"] {
            if path != g {
                o.push_str(&format!("use crate::{g}::*;\n"));
            }
        }
        if path != "crate" {
            o.push_str("use crate::allnames::*;\n");
        } else {
            // root items are in scope; the rest by glob
            o.push_str("use crate::allnames::*;\n");
        }
        let _ = names;
        for u in &m.uses {
            o.push_str(u);
            o.push('\n');
        }
        o.push_str("verus! {\n");
        for (t, k) in &m.pieces {
            let a = o.matches('\n').count() + 1;
            o.push_str(t);
            o.push('\n');
            if let Some(k) = k {
                let b = o.matches('\n').count();
                ranges.insert(k.clone(), (a, b));
            }
        }
        o.push_str("} // verus!\n");
        for (n, _) in mods {
            let parent = n.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or("crate".into());
            if parent == path && n != "crate" {
                o.push_str(&format!("pub mod {} {{\n", n.rsplit("::").next().unwrap()));
                emit_mod(n, mods, o, ranges, names);
                o.push_str("}\n");
            }
        }
    }
    emit_mod("crate", &mods, &mut o, &mut ranges, &names);
    o.push_str("fn main() {}\n");
    std::fs::write(out, &o).map_err(|e| e.to_string())?;
    for (k, r) in &ranges {
        fmeta.get_mut(k).unwrap()["emitted"] = serde_json::json!([r.0, r.1]);
    }
    let missing: Vec<&String> = keys.iter().filter(|k| !em.items.contains_key(*k)).collect();
    let mj = serde_json::json!({"functions": fmeta, "unreached": missing, "ghost": gi.iter().map(|i| format!("{}:{}", db.ghosts[*i].file, db.ghosts[*i].line)).collect::<Vec<_>>()});
    std::fs::write(meta, serde_json::to_string_pretty(&mj).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn replace_word(t: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(['\n']) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            out.push_str(if w == a { b } else { &w });
            w.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}

fn tstr<T: ToTokens>(t: &T) -> String {
    index::tstr(t)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 4 && a[1] == "--items" {
        if let Err(e) = items::run(&a[2], &a[3], &a[4..]) {
            eprintln!("swc-extract: {e}");
            std::process::exit(3);
        }
        return;
    }
    if a.len() < 7 && !(a.len() >= 5 && a[4] == "--list") {
        eprintln!("usage: swc-extract REPO FACTS CONTRACTS UNIT OUT META");
        std::process::exit(2);
    }
    if let Err(e) = run(&a) {
        eprintln!("swc-extract: {e}");
        std::process::exit(3);
    }
}
