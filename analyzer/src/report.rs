//! Obligations, violations, known findings and evidence for one property.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use crate::interp::Interp;
use crate::model::*;
use crate::val::*;

pub struct Viol {
    pub file: String,
    pub line: usize,
    pub msg: String,
}

pub struct Ck<'m> {
    pub m: &'m Model,
    pub id: String,
    pub viol: BTreeMap<String, Viol>,
    pub kinds: BTreeMap<String, usize>,
    pub failed: usize,
    pub samples: BTreeMap<String, Vec<String>>,
    pub analysed: BTreeSet<usize>,
    pub paths: usize,
    pub steps: usize,
    pub events: usize,
    pub rules: Vec<String>,
    pub dump: bool,
    pub thorough: bool,
}

impl<'m> Ck<'m> {
    pub fn new(m: &'m Model, id: &str) -> Self {
        Ck { m, id: id.into(), viol: BTreeMap::new(), kinds: BTreeMap::new(), failed: 0, samples: BTreeMap::new(), analysed: BTreeSet::new(), paths: 0, steps: 0, events: 0, rules: vec![], dump: false, thorough: false }
    }
    pub fn rule(&mut self, s: &str) {
        if !self.rules.iter().any(|x| x == s) {
            self.rules.push(s.to_string());
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, file: &str, line: usize, msg: impl Into<String>) {
        self.viol.entry(key.into()).or_insert(Viol { file: file.into(), line, msg: msg.into() });
    }
    /// one obligation: decided by `ok`; `key` identifies the construct (never a line number)
    pub fn req(&mut self, kind: &str, ok: bool, key: impl Into<String>, at: (&str, usize), msg: impl Into<String>) -> bool {
        *self.kinds.entry(kind.into()).or_default() += 1;
        let key = key.into();
        let s = self.samples.entry(kind.into()).or_default();
        if s.len() < 4 {
            s.push(format!("{} @ {}:{}", key, at.0, at.1));
        }
        if !ok {
            self.failed += 1;
            let m = msg.into();
            self.fail(key, at.0, at.1, m);
        }
        ok
    }
    /// fewer obligations of a kind than were counted by hand means the rule no longer sees its subject
    pub fn floor(&mut self, kind: &str, n: usize) {
        let have = self.kinds.get(kind).copied().unwrap_or(0);
        if have < n {
            self.fail(format!("floor:{kind}"), "", 0, format!("only {have} obligations of kind '{kind}' found, at least {n} expected: the code this rule anchors to is gone or no longer recognised"));
        }
    }
    pub fn fns_at(&self, path: &str) -> Vec<&'m FnDef> {
        let m = self.m;
        m.fns.iter().filter(|f| f.path == path && f.block.is_some()).collect()
    }
    pub fn func(&mut self, path: &str) -> Option<&'m FnDef> {
        let v = self.fns_at(path);
        match v.first() {
            Some(f) => Some(*f),
            None => {
                self.fail(format!("anchor:{path}"), "", 0, format!("function {path} not found (or has no body)"));
                None
            }
        }
    }
    /// impl `trait_` (last segment) for `self_` : function `name`; `arg` = last segment of the trait's first argument
    pub fn impl_fn(&mut self, krate: &str, self_: &str, trait_: &str, arg: &str, name: &str) -> Option<&'m FnDef> {
        let m = self.m;
        let r = m.fns.iter().find(|f| {
            f.krate == krate
                && f.name == name
                && f.self_name() == self_
                && f.trait_.as_deref().map_or(false, |t| last_seg(t) == trait_)
                && (arg.is_empty() || f.trait_args.first().map_or(false, |a| a.name() == arg))
        });
        if r.is_none() {
            self.fail(format!("anchor:{krate}:impl {trait_}<{arg}> for {self_}"), "", 0, "impl not found".to_string());
        }
        r
    }
    pub fn absorb(&mut self, it: &Interp) {
        self.analysed.extend(it.inlined.iter().copied());
        self.steps += it.steps;
        self.events += it.events.len();
        if it.overflow {
            self.fail("analysis:overflow", "", 0, "the abstract interpreter ran out of its step budget");
        }
    }

    pub fn finish(&self, known_file: &Path, evid_dir: &Path, tier: &str, seed: i64, wall: f64, level_note: &str) -> i32 {
        let mut known: BTreeMap<String, String> = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(known_file) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    if let Some((h, d)) = r.split_once(" -- ") {
                        if let Some((p, k)) = h.trim().split_once(' ') {
                            if p == format!("property={}", self.id) {
                                known.insert(k.trim().strip_prefix("key=").unwrap_or(k.trim()).to_string(), d.to_string());
                            }
                        }
                    }
                }
            }
        }
        let mut bad = vec![];
        for (k, v) in &self.viol {
            if let Some(d) = known.get(k) {
                println!("KNOWN-FINDING: property={} {} -- {}", self.id, k, d);
            } else {
                bad.push((k, v));
            }
        }
        let total: usize = self.kinds.values().sum();
        let kf: Vec<String> = self.viol.keys().filter(|k| known.contains_key(*k)).cloned().collect();
        let mut fns: Vec<String> = self.analysed.iter().map(|i| self.m.fns[*i].path.clone()).collect();
        fns.sort();
        fns.dedup();
        let nf = fns.len();
        fns.truncate(60);
        let ev = serde_json::json!({
            "property": self.id, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": format!("Static analysis of the source of {} files / {} functions parsed from /repo's working tree on this run (cfg(test) code excluded). Each obligation names one construct (function, impl, call site, table entry) and is decided by abstract interpretation of that construct's syntax tree over all its paths; nothing is executed. {}", self.m.files, self.m.fns.len(), level_note),
                "rules_applied": self.rules,
                "obligations": total,
                "discharged": total - self.failed,
                "obligations_by_kind": self.kinds,
                "sample_obligations": self.samples,
                "functions_analysed": nf,
                "functions": fns,
                "abstract_steps": self.steps,
                "call_sites_and_constructions_seen": self.events,
                "known_findings_present": kf,
                "paths_interpreted": self.paths
            },
            "assumptions": ["Rust name resolution as modelled by the analyser's own resolver", "external crates behave as their documentation says", "macros outside the analyser's table are opaque"],
            "wall_s": wall,
            "violations": bad.len()
        });
        let _ = std::fs::create_dir_all(evid_dir);
        let _ = std::fs::write(evid_dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap());
        println!("property {}: {} obligations, {} failed, {} functions analysed, {:.1}s", self.id, total, self.failed, nf, wall);
        if bad.is_empty() {
            return 0;
        }
        let rp = evid_dir.join(format!("{}.violation.json", self.id));
        let items: Vec<_> = bad.iter().map(|(k, v)| serde_json::json!({"key": k, "file": v.file, "line": v.line, "message": v.msg})).collect();
        let _ = std::fs::write(&rp, serde_json::to_string_pretty(&items).unwrap());
        for (k, v) in &bad {
            println!("  {}:{} [{}] {}", v.file, v.line, k, v.msg);
        }
        println!("VIOLATION property={} replay={}", self.id, rp.display());
        1
    }
}

// ------------------------------------------------------------------ term helpers

/// Some(text) if the term is a plain access path (parameter, field, element, payload chain).
pub fn access(a: &Arena, v: Vid) -> Option<String> {
    Some(match a.get(v) {
        Val::Param(p) => p.clone(),
        Val::Field(b, f) => format!("{}.{}", access(a, *b)?, f),
        Val::Elem(b) => format!("{}[]", access(a, *b)?),
        Val::Index(b, _) => format!("{}[]", access(a, *b)?),
        Val::Payload(b, p, f) => format!("{}~{}.{}", access(a, *b)?, last_seg(p), f),
        _ => return None,
    })
}

/// the maximal access paths a term is built from
pub fn roots(a: &Arena, v: Vid) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    let mut seen = BTreeSet::new();
    let mut st = vec![v];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        if let Some(s) = access(a, x) {
            r.insert(s);
            continue;
        }
        match a.get(x) {
            // elements of a mapped collection: the body names its own sources
            Val::Coll { src, body } => {
                let mut b = roots(a, *body);
                if b.is_empty() {
                    b = roots(a, *src);
                } else {
                    st.push(*src);
                }
                r.extend(b);
            }
            Val::Top => {
                r.insert("?".into());
            }
            g => st.extend(a.kids(g)),
        }
    }
    r
}

/// first field segment of each access path rooted at `p`
pub fn first_fields(rs: &BTreeSet<String>, p: &str) -> BTreeSet<String> {
    rs.iter()
        .map(|s| {
            if let Some(r) = s.strip_prefix(p) {
                if r.is_empty() {
                    return "*".to_string();
                }
                if let Some(r) = r.strip_prefix('.') {
                    return r.split(|c| matches!(c, '.' | '[' | '~')).next().unwrap().to_string();
                }
            }
            s.clone()
        })
        .collect()
}

/// strips wrappers that do not change the carried value
pub fn strip(a: &Arena, v: Vid) -> Vid {
    match a.get(v) {
        Val::Cast(x, _) => strip(a, *x),
        Val::Ctor { p, f } if (p == "Ok" || p == "Some") && f.len() == 1 => strip(a, f[0].1),
        Val::Call { f, args } if args.len() == 1 && matches!(f.as_str(), ".into" | ".try_into" | ".to_string" | ".clone" | ".unwrap") => strip(a, args[0]),
        _ => v,
    }
}
pub fn ctor<'a>(a: &'a Arena, v: Vid) -> Option<(&'a str, &'a [(String, Vid)])> {
    match a.get(v) {
        Val::Ctor { p, f } => Some((p, f)),
        _ => None,
    }
}
