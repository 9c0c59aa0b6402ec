//! Type facts written by the compiler driver, looked up by source position.
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Fact {
    pub f: HashMap<String, String>,
}
impl Fact {
    pub fn get(&self, k: &str) -> &str {
        self.f.get(k).map(|s| s.as_str()).unwrap_or("")
    }
}
#[derive(Default)]
pub struct Facts {
    /// (kind, file, line, col)
    pub map: HashMap<(String, String, usize, usize), Fact>,
}
impl Facts {
    pub fn load(dir: &str) -> Result<Facts, String> {
        let mut r = Facts::default();
        let rd = match std::fs::read_dir(dir) {
            Ok(d) => d,
            Err(_) => return Ok(r),
        };
        let mut files: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        files.sort();
        for p in files {
            let s = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            for l in s.lines() {
                let v: serde_json::Value = serde_json::from_str(l).map_err(|e| e.to_string())?;
                let mut f = HashMap::new();
                for (k, x) in v.as_object().unwrap() {
                    if let Some(s) = x.as_str() {
                        f.insert(k.clone(), s.to_string());
                    }
                }
                let lo = v["lo"].as_array().unwrap();
                let key = (f["kind"].clone(), f["file"].clone(), lo[0].as_u64().unwrap() as usize, lo[1].as_u64().unwrap() as usize);
                r.map.insert(key, Fact { f });
            }
        }
        Ok(r)
    }
    pub fn at(&self, kind: &str, file: &str, sp: proc_macro2::Span) -> Option<&Fact> {
        let lc = sp.start();
        self.map.get(&(kind.to_string(), file.to_string(), lc.line, lc.column))
    }
}
