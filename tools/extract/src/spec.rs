//! Contract files: `=== kind key` starts an item, `--- section` a section of a function item.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub ret: String,
    pub ret_unit: Option<()>,
    pub flags: BTreeSet<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    /// closure index -> (parameter types, return declaration, contract)
    pub closures: BTreeMap<usize, (String, String)>,
    /// (anchor, text)
    pub at: Vec<(String, String)>,
}

fn is_ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn rename_text(s: &str, m: &BTreeMap<String, String>) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if is_ident(cs[i]) && !cs[i].is_numeric() {
            let st = i;
            while i < cs.len() && is_ident(cs[i]) {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            let field = st > 0 && cs[st - 1] == '.' && !(st > 1 && cs[st - 2] == '.');
            match m.get(&w) {
                Some(r) if !field => o.push_str(r),
                _ => o.push_str(&w),
            }
        } else if cs[i].is_numeric() {
            while i < cs.len() && is_ident(cs[i]) {
                o.push(cs[i]);
                i += 1;
            }
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}

impl FnSpec {
    pub fn rename(&mut self, m: &BTreeMap<String, String>) {
        self.spec = rename_text(&self.spec, m);
        for v in self.loops.values_mut() {
            *v = rename_text(v, m);
        }
        for v in self.closures.values_mut() {
            v.0 = rename_text(&v.0, m);
            v.1 = rename_text(&v.1, m);
        }
        for v in self.at.iter_mut() {
            v.1 = rename_text(&v.1, m);
        }
    }
}

pub struct Specs {
    raw: Vec<(String, String, bool)>,
}

impl Specs {
    pub fn load(dir: &str) -> Specs {
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |e| e == "spec"))
            .collect();
        files.sort();
        let mut raw: Vec<(String, String, bool)> = vec![];
        for f in files {
            let t = std::fs::read_to_string(&f).unwrap();
            let mut cur: Option<usize> = None;
            for l in t.lines() {
                if let Some(k) = l.strip_prefix("=== ") {
                    raw.push((k.trim().to_string(), String::new(), false));
                    cur = Some(raw.len() - 1);
                } else if let Some(c) = cur {
                    raw[c].1.push_str(l);
                    raw[c].1.push('\n');
                }
            }
        }
        Specs { raw }
    }

    pub fn take_all(&mut self, key: &str) -> Vec<String> {
        let mut o = vec![];
        for r in self.raw.iter_mut() {
            if r.0 == key {
                r.2 = true;
                o.push(r.1.clone());
            }
        }
        o
    }

    pub fn peek(&self, key: &str) -> String {
        self.raw.iter().filter(|r| r.0 == key).map(|r| r.1.as_str()).collect()
    }

    pub fn take(&mut self, key: &str) -> Option<String> {
        let v = self.take_all(key);
        if v.is_empty() {
            None
        } else {
            Some(v.join("\n"))
        }
    }

    pub fn take_fn(&mut self, key: &str) -> Option<FnSpec> {
        let t = self.take(&format!("fn {}", key))?;
        let mut s = FnSpec::default();
        let mut sec: String = "spec".into();
        let mut buf = String::new();
        let mut secs: Vec<(String, String)> = vec![];
        for l in t.lines() {
            if let Some(k) = l.strip_prefix("--- ") {
                secs.push((std::mem::take(&mut sec), std::mem::take(&mut buf)));
                sec = k.trim().to_string();
            } else if sec == "spec" && l.starts_with("ret: ") {
                s.ret = l[5..].trim().to_string();
            } else if sec == "spec" && l.starts_with("flags: ") {
                s.flags.extend(l[7..].split_whitespace().map(|x| x.to_string()));
            } else if sec == "spec" && l.starts_with("#[") {
                s.attrs.push(l.to_string());
            } else {
                buf.push_str(l);
                buf.push('\n');
            }
        }
        secs.push((sec, buf));
        for (k, v) in secs {
            if k == "spec" {
                s.spec.push_str(v.trim_end());
            } else if let Some(n) = k.strip_prefix("loop ") {
                s.loops.insert(n.parse().expect("loop index"), v);
            } else if let Some(r) = k.strip_prefix("closure ") {
                let (n, sig) = r.split_once(' ').unwrap_or((r, ""));
                s.closures.insert(n.parse().expect("closure index"), (sig.to_string(), v));
            } else if let Some(a) = k.strip_prefix("at ") {
                s.at.push((a.to_string(), v));
            } else {
                panic!("unknown section {}", k);
            }
        }
        Some(s)
    }

    pub fn unused(&self) -> Vec<String> {
        self.raw.iter().filter(|r| !r.2).map(|r| r.0.clone()).collect()
    }
}

pub fn load_names(p: &str) -> BTreeMap<String, (Vec<String>, Vec<String>)> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            let v: Vec<&str> = l.split('|').collect();
            if v.len() == 3 {
                let f = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
                m.insert(v[0].to_string(), (f(v[1]), f(v[2])));
            }
        }
    }
    m
}
