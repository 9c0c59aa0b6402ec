//! The contract database: plain-text blocks attached to functions of /repo by key.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub key: String,
    /// the units this version of the contract is for; empty: all others
    pub only: Vec<String>,
    pub ret: Option<String>,
    pub requires: String,
    pub ensures: String,
    /// names the outcome of a call where the function is not itself proven
    pub assumed: String,
    pub decreases: String,
    pub attrs: Vec<String>,
    pub fmt_model: bool,
    /// loop ordinal -> position ("inv", "before", "start", "end", "after") -> text
    pub loops: BTreeMap<usize, BTreeMap<String, String>>,
    /// "start" / "end" -> text
    pub at: BTreeMap<String, String>,
    pub extra_params: String,
    pub file: String,
    pub line: usize,
    /// assumed: never verified by any unit (trusted)
    pub trusted: bool,
    /// identifiers of call arguments appended at every call site
    pub pass: String,
    pub inline: bool,
    /// closure ordinal -> "ens" / "ghost" -> text
    pub closures: BTreeMap<usize, BTreeMap<String, String>>,
    /// parameter names used in the contract text, by position
    pub args: Vec<String>,
    /// emit as an impl of the (external) trait instead of an inherent function
    pub traitimpl: bool,
    /// a dependency of everything that mentions this identifier
    pub auto: String,
    /// constructs of the function this contract relies on, for the report
    pub props: Vec<String>,
}

impl FnContract {
    /// Ghost variables get names no variable of the code has.
    fn own_ghosts(&mut self) {
        let mut names: Vec<String> = vec![];
        for t in self.at.values().chain(self.loops.values().flat_map(|m| m.values())) {
            for x in t.split("let ghost ").skip(1) {
                let p = x.split('=').next().unwrap_or("");
                let p = if p.trim_start().starts_with('(') { p.split(')').next().unwrap_or("") } else { p.split(':').next().unwrap_or("") };
                names.extend(p.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty() && *w != "mut").map(|w| w.to_string()));
            }
        }
        names.sort();
        names.dedup();
        let fix = |t: &mut String| *t = rename_words(t, &names);
        self.at.values_mut().for_each(fix);
        self.loops.values_mut().flat_map(|m| m.values_mut()).for_each(fix);
    }
}
/// Specification functions that a variable of the code hides are called by their full name.
pub fn qualify(t: &str, hidden: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let mut before = ' ';
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' || c == '$' {
            w.push(c);
            continue;
        }
        if !w.is_empty() {
            if let Some(m) = hidden.get(&w).filter(|_| c == '(' && before != '.' && before != ':') {
                out.push_str(&format!("crate::{m}::"));
            }
            out.push_str(&w);
            w.clear();
        }
        if c != '\0' {
            out.push(c);
        }
        before = c;
    }
    out
}
impl Db {
    /// The specification functions among `names`, with the module each is in.
    pub fn spec_fns(&self, names: &std::collections::BTreeSet<String>) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        for g in &self.ghosts {
            for x in g.text.split("spec fn ").skip(1).chain(g.text.split("proof fn ").skip(1)) {
                let n: String = x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if names.contains(&n) {
                    m.insert(n, g.module.clone());
                }
            }
        }
        m
    }
}
/// The names as words of their own, outside string literals and not after a dot, get the prefix `vg_`.
fn rename_words(t: &str, names: &[String]) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let (mut quoted, mut dot) = (false, false);
    for c in t.chars().chain(std::iter::once('\0')) {
        if !quoted && (c.is_alphanumeric() || c == '_' || c == '$') {
            w.push(c);
            continue;
        }
        if !w.is_empty() {
            if !dot && names.contains(&w) {
                out.push_str("vg_");
            }
            out.push_str(&w);
            w.clear();
        }
        if c == '"' {
            quoted = !quoted;
        }
        // `a.b`, not `a..b`
        dot = c == '.' && !out.ends_with('.');
        if c != '\0' {
            out.push(c);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Ghost {
    pub module: String,
    pub when: Vec<String>,
    pub always: bool,
    pub text: String,
    pub defines: Vec<String>,
    pub uses: Vec<String>,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct Db {
    pub fns: BTreeMap<String, FnContract>,
    pub ghosts: Vec<Ghost>,
    /// resolved callee path -> replacement function path
    pub calls: BTreeMap<String, String>,
    /// replacement function path -> further argument
    pub call_pass: BTreeMap<String, String>,
    pub unit: String,
    /// textual type substitution
    pub tysubst: Vec<(String, String)>,
    /// types described by ghost code instead of extraction (key -> reason)
    pub ghost_types: Vec<String>,
    pub mono: BTreeMap<String, String>,
    /// which module an ambiguous type name means in contract text
    pub prefer: BTreeMap<String, String>,
    /// type name -> traits whose derived impl is described by ghost code
    pub own_derive: Vec<(String, String)>,
    /// text inserted in trait / impl bodies: key -> text
    pub implspec: BTreeMap<String, String>,
    pub std_uses: Vec<String>,
}

fn ids(s: &str) -> Vec<String> {
    let mut r = vec![];
    for kw in ["spec fn ", "proof fn ", "struct ", "enum ", "trait ", "exec fn ", "pub fn ", "type ", "broadcast group ", "const "] {
        let mut rest = s;
        while let Some(i) = rest.find(kw) {
            rest = &rest[i + kw.len()..];
            let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !n.is_empty() {
                r.push(n);
            }
        }
    }
    r
}

impl Db {
    pub fn load(dir: &str, unit: &str) -> Result<Db, String> {
        let mut db = Db { unit: unit.into(), ..Default::default() };
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .map_err(|e| format!("{dir}: {e}"))?
            .filter_map(|e| e.ok().map(|e| e.path()))
            .filter(|p| p.extension().map_or(false, |e| e == "vc"))
            .collect();
        files.sort();
        for f in files {
            let fname = f.file_name().unwrap().to_string_lossy().to_string();
            db.load_file(&fname, &std::fs::read_to_string(&f).map_err(|e| e.to_string())?)?;
        }
        Ok(db)
    }

    fn load_file(&mut self, fname: &str, s: &str) -> Result<(), String> {
        enum Cur {
            None,
            Fn(FnContract, String),
            Ghost(Ghost),
            Impl(String, String),
        }
        let mut cur = Cur::None;
        let mut finish = |db: &mut Db, c: Cur| {
            match c {
                Cur::None => {}
                Cur::Fn(mut f, _) => {
                    f.own_ghosts();
                    let here = f.only.contains(&db.unit);
                    let taken = db.fns.get(&f.key).map_or(false, |g| !g.only.is_empty());
                    if here || f.only.is_empty() && !taken {
                        db.fns.insert(f.key.clone(), f);
                    }
                }
                Cur::Ghost(mut g) => {
                    g.defines = ids(&g.text);
                    db.ghosts.push(g);
                }
                Cur::Impl(k, t) => {
                    db.implspec.insert(k, t);
                }
            };
        };
        for (ln, line) in s.lines().enumerate() {
            let t = line.trim_end();
            if t.starts_with("//@") || (matches!(cur, Cur::None) && (t.starts_with('#') || t.is_empty())) {
                continue;
            }
            if t == "@end" {
                let c = std::mem::replace(&mut cur, Cur::None);
                finish(self, c);
                continue;
            }
            if let Some(k) = t.strip_prefix("@fn ") {
                let (k, only) = k.split_once(" for ").unwrap_or((k, ""));
                let only = only.split_whitespace().map(|x| x.to_string()).collect();
                let c = std::mem::replace(&mut cur, Cur::Fn(FnContract { key: k.trim().into(), only, file: fname.into(), line: ln + 1, ..Default::default() }, String::new()));
                finish(self, c);
                continue;
            }
            if let Some(k) = t.strip_prefix("@ghost ") {
                let mut w = k.split_whitespace();
                let module = w.next().unwrap_or("sp").to_string();
                let mut when = vec![];
                let mut always = false;
                let mut inwhen = false;
                for x in w {
                    match x {
                        "when" => inwhen = true,
                        "always" => always = true,
                        x if inwhen => when.push(x.to_string()),
                        _ => return Err(format!("{fname}:{}: bad ghost header", ln + 1)),
                    }
                }
                let c = std::mem::replace(&mut cur, Cur::Ghost(Ghost { module, when, always, text: String::new(), defines: vec![], uses: vec![], file: fname.into(), line: ln + 1 }));
                finish(self, c);
                continue;
            }
            if let Some(k) = t.strip_prefix("@implspec ") {
                let c = std::mem::replace(&mut cur, Cur::Impl(k.trim().into(), String::new()));
                finish(self, c);
                continue;
            }
            match &mut cur {
                Cur::None => {
                    if let Some(r) = t.strip_prefix("@call ") {
                        let (a, b) = r.split_once("=>").ok_or(format!("{fname}:{}: bad @call", ln + 1))?;
                        // `path + x`: the further argument `x` at every call
                        let (b, x) = b.split_once(" + ").map_or((b, None), |(b, x)| (b, Some(x)));
                        if let Some(x) = x {
                            self.call_pass.insert(b.trim().into(), x.trim().into());
                        }
                        self.calls.insert(a.trim().into(), b.trim().into());
                    } else if let Some(r) = t.strip_prefix("@type ") {
                        let (a, b) = r.split_once("=>").ok_or(format!("{fname}:{}: bad @type", ln + 1))?;
                        self.tysubst.push((a.trim().into(), b.trim().into()));
                    } else if let Some(r) = t.strip_prefix("@ghosttype ") {
                        self.ghost_types.push(r.trim().into());
                    } else if let Some(r) = t.strip_prefix("@mono ") {
                        let mut w = r.split_whitespace();
                        self.mono.insert(w.next().unwrap().into(), w.next().unwrap().into());
                    } else if let Some(r) = t.strip_prefix("@prefer ") {
                        let mut w = r.split_whitespace();
                        self.prefer.insert(w.next().unwrap().into(), w.next().unwrap().into());
                    } else if let Some(r) = t.strip_prefix("@ownderive ") {
                        let mut w = r.split_whitespace();
                        self.own_derive.push((w.next().unwrap().into(), w.next().unwrap().into()));
                    } else if let Some(r) = t.strip_prefix("@stduse ") {
                        self.std_uses.push(r.trim().into());
                    } else {
                        return Err(format!("{fname}:{}: stray line `{t}`", ln + 1));
                    }
                }
                Cur::Ghost(g) => {
                    if t.starts_with("use ") {
                        g.uses.push(t.to_string());
                    } else {
                        g.text.push_str(t);
                        g.text.push('\n');
                    }
                }
                Cur::Impl(_, s) => {
                    s.push_str(t);
                    s.push('\n');
                }
                Cur::Fn(f, sec) => {
                    if let Some(r) = t.trim_start().strip_prefix('@') {
                        let r = r.trim();
                        let (h, rest) = match r.split_once(' ') {
                            Some((a, b)) => (a, b.trim()),
                            None => (r, ""),
                        };
                        match h {
                            "ret" => f.ret = Some(rest.into()),
                            "requires" | "ensures" | "assumed" | "decreases" => {
                                *sec = h.into();
                                if !rest.is_empty() {
                                    let t = match h { "requires" => &mut f.requires, "ensures" => &mut f.ensures, "assumed" => &mut f.assumed, _ => &mut f.decreases };
                                    t.push_str(rest);
                                    t.push('\n');
                                }
                            }
                            "attr" => f.attrs.push(rest.into()),
                            "fmt" => f.fmt_model = true,
                            "trusted" => f.trusted = true,
                            "inline" => f.inline = true,
                            "params" => f.extra_params = rest.into(),
                            "pass" => f.pass = rest.into(),
                            "args" => f.args = rest.split_whitespace().map(|x| x.to_string()).collect(),
                            "traitimpl" => f.traitimpl = true,
                            "auto" => f.auto = rest.into(),
                            "props" => f.props = rest.split_whitespace().map(|x| x.to_string()).collect(),
                            "closure" => *sec = format!("closure {rest}"),
                            "loop" => *sec = format!("loop {rest}"),
                            "at" => *sec = format!("at {rest}"),
                            _ => return Err(format!("{fname}:{}: unknown section @{h}", ln + 1)),
                        }
                    } else {
                        let mut w = sec.split_whitespace();
                        let dst: &mut String = match w.next() {
                            Some("requires") => &mut f.requires,
                            Some("ensures") => &mut f.ensures,
                            Some("assumed") => &mut f.assumed,
                            Some("decreases") => &mut f.decreases,
                            Some("loop") => {
                                let k: usize = w.next().and_then(|x| x.parse().ok()).ok_or(format!("{fname}:{}: bad loop", ln + 1))?;
                                let p = w.next().unwrap_or("inv").to_string();
                                f.loops.entry(k).or_default().entry(p).or_default()
                            }
                            Some("closure") => {
                                let k: usize = w.next().and_then(|x| x.parse().ok()).ok_or(format!("{fname}:{}: bad closure", ln + 1))?;
                                let p = w.next().unwrap_or("ens").to_string();
                                f.closures.entry(k).or_default().entry(p).or_default()
                            }
                            Some("at") => {
                                let a = w.next().unwrap_or("start");
                                let k = if a == "let" { format!("let {}", w.next().unwrap_or("")) } else { a.to_string() };
                                f.at.entry(k).or_default()
                            }
                            _ => {
                                if t.trim().is_empty() {
                                    continue;
                                }
                                return Err(format!("{fname}:{}: text outside a section", ln + 1));
                            }
                        };
                        dst.push_str(t);
                        dst.push('\n');
                    }
                }
            }
        }
        finish(self, cur);
        Ok(())
    }
}
