//! Executed source functions and lines of the code under test, from debug metadata.
use crate::ir::Module;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// crude v0 demangling: the identifiers of the path
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            if let Some(k) = s[i + 1..].find('_') {
                if s[i + 1..i + 1 + k].chars().all(|c| c.is_ascii_alphanumeric()) && k < 14 && k > 8 {
                    i += k + 2;
                    continue;
                }
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + n <= b.len() && n > 0 {
                let id = &s[j..j + n];
                if id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    out.push(id);
                }
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

struct Meta<'a> {
    lines: HashMap<u32, &'a str>,
}
impl<'a> Meta<'a> {
    fn field(l: &'a str, k: &str) -> Option<&'a str> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        while let Some(p) = l[from..].find(&pat) {
            let p = from + p;
            let before = l[..p].chars().last();
            if matches!(before, Some('(') | Some(' ')) {
                let v = &l[p + pat.len()..];
                if let Some(q) = v.strip_prefix('"') {
                    return q.find('"').map(|e| &q[..e]);
                }
                let e = v.find([',', ')']).unwrap_or(v.len());
                return Some(&v[..e]);
            }
            from = p + 1;
        }
        None
    }
    fn refer(v: &str) -> Option<u32> {
        v.strip_prefix('!').and_then(|x| x.parse().ok())
    }
    fn get(&self, id: u32) -> &'a str {
        self.lines.get(&id).copied().unwrap_or("")
    }
    fn file(&self, id: u32) -> String {
        let l = self.get(id);
        let f = Self::field(l, "filename").unwrap_or("");
        if f.starts_with('/') {
            return f.to_string();
        }
        format!("{}/{}", Self::field(l, "directory").unwrap_or(""), f)
    }
}

/// (functions, file -> lines) executed in /repo
pub fn executed(m: &Module, cov: *mut u8) -> (Vec<String>, BTreeMap<String, BTreeSet<u32>>) {
    let root = std::env::var("SXE_ROOT").unwrap_or_else(|_| "/repo/".into());
    let mut dbg: HashSet<u32> = HashSet::new();
    for f in &m.funcs {
        if !f.defined {
            continue;
        }
        let hit = |l: u32| unsafe { *cov.add((f.cov_base + l) as usize) != 0 };
        if !(0..f.lines).any(hit) {
            continue;
        }
        let text = std::str::from_utf8(&m.text[f.start..f.end]).unwrap_or("");
        let mut on = false;
        for (n, l) in text.lines().enumerate() {
            let label = !l.starts_with(' ') && !l.is_empty() && !l.starts_with(';') && !l.starts_with('}');
            if n == 0 || label || n == 1 {
                // block starts: label line, or line 1 for an implicit entry block
                if label || hit(n as u32) || n == 0 {
                    on = hit(n as u32);
                }
            }
            if on {
                if let Some(p) = l.rfind("!dbg !") {
                    let d: String = l[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(d) = d.parse() {
                        dbg.insert(d);
                    }
                }
            }
        }
    }
    let mut meta = Meta { lines: HashMap::new() };
    let text = std::str::from_utf8(&m.text[m.meta_start..]).unwrap_or("");
    for l in text.lines() {
        if let Some(r) = l.strip_prefix('!') {
            if let Some(e) = r.find(" = ") {
                if let Ok(id) = r[..e].parse::<u32>() {
                    meta.lines.insert(id, &r[e + 3..]);
                }
            }
        }
    }
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut files: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut seen: HashSet<u32> = HashSet::new();
    let mut work: Vec<u32> = dbg.into_iter().collect();
    while let Some(id) = work.pop() {
        if !seen.insert(id) {
            continue;
        }
        let l = meta.get(id);
        if !l.contains("DILocation(") {
            continue;
        }
        if let Some(i) = Meta::field(l, "inlinedAt").and_then(Meta::refer) {
            work.push(i);
        }
        let line: u32 = Meta::field(l, "line").and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut sc = Meta::field(l, "scope").and_then(Meta::refer);
        let mut file = None;
        let mut guard = 0;
        while let Some(s) = sc {
            guard += 1;
            if guard > 100 {
                break;
            }
            let sl = meta.get(s);
            if file.is_none() {
                file = Meta::field(sl, "file").and_then(Meta::refer).map(|f| meta.file(f));
            }
            if sl.contains("DISubprogram(") {
                if let Some(f) = &file {
                    if f.starts_with(&root) {
                        let short = f[root.len()..].to_string();
                        if line > 0 {
                            files.entry(short.clone()).or_default().insert(line);
                        }
                        // name with its namespace
                        let mut name = Meta::field(sl, "name").unwrap_or("?").to_string();
                        let mut ns = Meta::field(sl, "scope").and_then(Meta::refer);
                        let mut k = 0;
                        while let Some(n) = ns {
                            k += 1;
                            let nl = meta.get(n);
                            match Meta::field(nl, "name") {
                                Some(p) if k < 8 => name = format!("{}::{}", p, name),
                                _ => break,
                            }
                            ns = Meta::field(nl, "scope").and_then(Meta::refer);
                        }
                        // generic instantiations collapse
                        let mut clean = String::new();
                        let mut depth = 0;
                        for c in name.chars() {
                            match c {
                                '<' => depth += 1,
                                '>' => depth -= 1,
                                _ if depth == 0 => clean.push(c),
                                _ => {}
                            }
                        }
                        funcs.insert(format!("{} ({})", clean, short));
                    }
                }
                break;
            }
            sc = Meta::field(sl, "scope").and_then(Meta::refer);
        }
    }
    (funcs.into_iter().collect(), files)
}
