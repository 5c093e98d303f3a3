//! One concrete case of a function: its answers and, in order, the calls it makes to the parts it stands on.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use super::tab::*;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// a value as text: constructors by their last two segments, conversions and borrows left out
pub fn txt(a: &Arena, v: Vid) -> String {
    let l = |v: &[Vid]| v.iter().map(|x| txt(a, *x)).collect::<Vec<_>>().join(", ");
    match a.get(v) {
        Val::Cast(x, _) => txt(a, *x),
        Val::Ctor { p, f } => {
            let s = p.split("::").collect::<Vec<_>>();
            let n = if s.len() > 1 && s[s.len() - 2].starts_with(char::is_uppercase) { s[s.len() - 2..].join("::") } else { s[s.len() - 1].to_string() };
            if f.is_empty() {
                return n;
            }
            if let Some((_, t)) = f.iter().find(|x| x.0 == "tag") {
                return txt(a, *t);
            }
            if f[0].0.chars().all(|c| c.is_ascii_digit()) {
                return format!("{n}({})", f.iter().map(|x| txt(a, x.1)).collect::<Vec<_>>().join(", "));
            }
            let mut s: Vec<String> = f.iter().map(|x| format!("{}: {}", x.0, txt(a, x.1))).collect();
            s.sort();
            format!("{n}{{{}}}", s.join(", "))
        }
        Val::Call { f, args } => {
            let n = f.rsplit("::").next().unwrap_or(f).trim_start_matches('.');
            match (n, args.len()) {
                ("clone" | "into" | "from" | "new" | "unwrap" | "to_owned", 1) => txt(a, args[0]),
                ("now", _) => "now()".into(),
                ("timestamp_millis", 1) => format!("ms({})", txt(a, args[0])),
                _ => format!("{n}({})", l(args)),
            }
        }
        Val::Const(c) => {
            let s = c.split("::").collect::<Vec<_>>();
            if s.len() > 1 && s[s.len() - 2].starts_with(char::is_uppercase) { s[s.len() - 2..].join("::") } else { s[s.len() - 1].to_string() }
        }
        Val::List { must, may } if may.is_empty() => format!("[{}]", l(must)),
        Val::Tuple(t) => format!("({})", l(t)),
        Val::Field(b, f) => format!("{}.{f}", txt(a, *b)),
        Val::Index(b, i) => format!("{}[{}]", txt(a, *b), txt(a, *i)),
        Val::Bin(o, x, y) => format!("({} {o} {})", txt(a, *x), txt(a, *y)),
        Val::Join(x) => format!("<{}>", x.iter().map(|v| txt(a, *v)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" | ")),
        Val::Fmt(s, x) if !x.is_empty() && x.iter().all(|v| txt(a, *v).chars().all(|c| c.is_ascii_digit())) && s.matches("{}").count() == x.len() => {
            let mut s = s.clone();
            for v in x {
                s = s.replacen("{}", &txt(a, *v), 1);
            }
            format!("{s:?}")
        }
        Val::Fmt(s, x) => format!("fmt({s:?}, {})", l(x)),
        _ => a.show_d(v, 20),
    }
}

#[derive(Clone)]
pub struct Done {
    pub out: BTreeSet<String>,
    pub log: Vec<String>,
    /// what `self` is afterwards
    pub own: BTreeSet<String>,
    pub at: (String, usize),
    /// the locks held at each entry of the log
    pub held: Vec<Vec<String>>,
    /// what the locks guard afterwards
    pub cells: BTreeMap<String, BTreeSet<String>>,
    pub edges: BTreeSet<(String, String, String, String, usize)>,
    /// what the key-value store holds afterwards
    pub db: BTreeMap<String, String>,
}

/// What the parts a function stands on answer: by label (`receiver field.method`), a term; `#` in it is numbered
/// by call. Unlisted fallible calls succeed with a symbol named after the call.
#[derive(Clone)]
pub struct World {
    pub answers: Vec<(String, String)>,
    /// crates whose functions are parts
    pub parts: Vec<&'static str>,
    /// labels of external or bodiless calls that are parts too
    pub also: Vec<&'static str>,
    /// functions of the parts that are computed with, not called
    pub open: Vec<&'static str>,
    /// functions of the code under analysis that are parts too
    pub shut: Vec<&'static str>,
    /// answers of external methods that are no effects; `@`: what they are called on
    pub pure_: Vec<(&'static str, &'static str)>,
    /// times the body of a `loop` is interpreted
    pub rounds: usize,
    /// constructor functions taken as they are: `Type<type arguments>(arguments)`
    pub build: Vec<&'static str>,
    /// locks are followed
    pub locks: bool,
    /// what a transactional key-value store holds: key to record (`rec(x)`) or number (`le(n)`)
    pub kv: Option<Vec<(String, String)>>,
}

/// a key as text, what is not known in it as `{..}`
pub fn key_text(it: &Arena, m: &Model, v: Vid) -> String {
    let all = |x: &[Vid]| x.iter().map(|v| key_text(it, m, *v)).collect::<String>();
    match it.get(v) {
        Val::Lit(l) => {
            let l = l.strip_prefix('b').unwrap_or(l);
            l.strip_prefix('"').and_then(|x| x.strip_suffix('"')).map(|x| x.replace("\\\"", "\"")).unwrap_or_else(|| l.trim_end_matches(|c: char| c.is_alphabetic()).trim_end_matches("_").to_string())
        }
        Val::Cast(x, _) => key_text(it, m, *x),
        Val::Fmt(t, x) => {
            let mut t = t.clone();
            for v in x {
                if let Some(i) = t.find('{') {
                    if let Some(j) = t[i..].find('}') {
                        t.replace_range(i..i + j + 1, &key_text(it, m, *v).replace('{', "\u{1}"));
                    }
                }
            }
            t.replace('\u{1}', "{")
        }
        Val::List { must, may } if may.is_empty() => all(must),
        Val::Ctor { p, f } if f.len() == 1 && (p == "Some" || p == "Ok") => key_text(it, m, f[0].1),
        Val::Call { f, args } => match (last_seg(f).trim_start_matches('.'), args.len()) {
            ("as_bytes" | "as_slice" | "as_ref" | "to_vec" | "clone" | "as_str" | "to_string" | "to_owned" | "into_bytes" | "concat" | "into" | "from" | "deref" | "borrow", 1) => key_text(it, m, args[0]),
            _ => format!("{{{}}}", txt(it, v)),
        },
        _ => format!("{{{}}}", txt(it, v)),
    }
}

fn builds(build: &[&str], f: &FnDef) -> bool {
    build.contains(&f.name.as_str()) && !f.has_self && f.self_ty.is_some() && !f.path.contains("AggregateFunction")
}

fn recv(a: &Arena, v: Vid) -> String {
    match a.get(v) {
        Val::Field(_, f) => f.clone(),
        Val::Index(b, i) => format!("{}[{}]", recv(a, *b), txt(a, *i)),
        Val::Param(p) => p.clone(),
        Val::Call { args, .. } if args.len() == 1 => recv(a, args[0]),
        Val::Lit(_) | Val::Fmt(..) => txt(a, v),
        _ => String::new(),
    }
}

/// the flags set on a builder: `new().a(true).b(true)`
fn flags(a: &Arena, v: Vid) -> BTreeSet<String> {
    match a.get(v) {
        Val::Call { f, args } if args.len() == 2 => {
            let mut r = flags(a, args[0]);
            let n = f.trim_start_matches('.').to_string();
            if matches!(a.get(args[1]), Val::Lit(l) if l == "true") {
                r.insert(n);
            } else {
                r.remove(&n);
            }
            r
        }
        Val::Mut(n, b, args) if args.len() == 1 => {
            let mut r = flags(a, *b);
            if matches!(a.get(args[0]), Val::Lit(l) if l == "true") {
                r.insert(n.clone());
            }
            r
        }
        _ => BTreeSet::new(),
    }
}

impl World {
    pub fn new(parts: &[&'static str]) -> Self {
        World { answers: vec![], parts: parts.to_vec(), also: vec![], open: vec![], pure_: vec![], shut: vec![], rounds: 2, build: vec![], locks: false, kv: None }
    }
    pub fn with(mut self, l: &str, t: &str) -> Self {
        self.answers.insert(0, (l.into(), t.into()));
        self
    }
    pub fn run<'m>(&self, ck: &mut Ck<'m>, f: &'m FnDef, self_: Option<&str>, args: &[&str]) -> Done {
        let mut it = fresh(ck);
        it.max_states = 4000;
        it.concrete = true;
        it.rounds = self.rounds;
        it.a.fold = true;
        let m = ck.m;
        let parts = self.parts.clone();
        let mut open = self.open.clone();
        open.push("into_iter");
        let shut = self.shut.clone();
        let build = self.build.clone();
        let kv = self.kv.is_some();
        it.opaque = Box::new(move |f| kv && f.krate == "metadata" && (f.name.starts_with("serialize") || f.name.starts_with("deserialize")) || builds(&build, f) || shut.contains(&f.name.as_str()) || parts.contains(&f.krate.as_str()) && !open.contains(&f.name.as_str()));
        let mut kind: BTreeMap<String, (bool, bool)> = BTreeMap::new();
        let mut made: BTreeMap<String, String> = BTreeMap::new();
        for f in &m.fns {
            kind.insert(f.path.clone(), (f.has_self, f.ret.name() == "Result"));
            if builds(&self.build, f) {
                let kin = if f.module.contains("::partitioned") { "Partitioned" } else if f.module.contains("::segmentation") { "Segment" } else { "" };
                let n = last_seg(f.self_name());
                made.insert(f.path.clone(), if n.starts_with(kin) { n.into() } else { format!("{kin}{n}") });
            }
        }
        let log = Rc::new(RefCell::new(Vec::<String>::new()));
        let held = Rc::new(RefCell::new(Vec::<Vec<String>>::new()));
        if self.locks {
            it.locks = true;
            let (lg, hd) = (log.clone(), held.clone());
            it.on_lock = Some(Rc::new(move |a, w, l| {
                lg.borrow_mut().push(format!("{w} {l}"));
                hd.borrow_mut().push(a.held.clone());
            }));
        }
        let had: BTreeMap<String, Vid> = self.kv.iter().flatten().map(|(k, t)| (k.clone(), term_in(&mut it.a, t))).collect();
        let (cached, had): (BTreeMap<String, Vid>, BTreeMap<String, Vid>) = had.into_iter().partition(|x| x.0.starts_with("cache_"));
        let cache = Rc::new(RefCell::new(cached));
        let seen = cache.clone();
        let db = Rc::new(RefCell::new(had));
        let txs = Rc::new(RefCell::new(Vec::<BTreeMap<String, Vid>>::new()));
        if kv {
            it.eval_consts = true;
        }
        let (store, open_tx) = (db.clone(), txs.clone());
        // the answers as terms of this interpreter
        let ans: Vec<(String, String)> = self.answers.clone();
        let (parts, also, locks) = (self.parts.clone(), self.also.clone(), self.locks);
        let shut = self.shut.clone();
        let (mut open, pure_) = (self.open.clone(), self.pure_.clone());
        open.push("into_iter");
        let n = RefCell::new(BTreeMap::<String, usize>::new());
        let lg = log.clone();
        let hd = held.clone();
        it.ext = Some(Rc::new(move |a: &mut Arena, f: &str, args: &[Vid]| {
            let krate = f.split("::").next().unwrap_or("");
            let name = f.rsplit("::").next().unwrap_or(f).trim_start_matches('.');
            if open.contains(&name) {
                return None;
            }
            // a variant of an enum of another library
            if name.starts_with(|c: char| c.is_uppercase()) && f.rsplit("::").nth(1).map_or(false, |p| p.starts_with(|c: char| c.is_uppercase())) && !kind.contains_key(f) {
                let fs = args.iter().enumerate().map(|(i, x)| (i.to_string(), *x)).collect();
                return Some(a.mk(Val::Ctor { p: f.into(), f: fs }));
            }
            let whole = || format!("{name}({})", args.iter().map(|x| txt(a, *x)).collect::<Vec<_>>().join(", "));
            if let Some((_, t)) = pure_.iter().find(|x| x.0 == name || x.0.contains('(') && x.0 == whole()) {
                let own = args.first().copied();
                return match *t {
                    "@" => own,
                    "Some(@)" | "Ok(@)" => own.map(|v| a.mk(Val::Ctor { p: t[..t.len() - 3].into(), f: vec![("0".into(), v)] })),
                    t => Some(term_in(a, t)),
                };
            }
            if locks {
                // a path joined in steps, the flags a file is opened with
                if name == "join" && args.len() == 2 {
                    let (b, x) = (txt(a, args[0]), txt(a, args[1]));
                    let x = if x.chars().all(|c| c.is_ascii_digit()) { format!("{x:?}") } else { x };
                    if x.starts_with('"') {
                        let t = match b.strip_suffix("\")").and_then(|b| b.strip_prefix("join(")) {
                            Some(b) => format!("join({b}/{})", &x[1..]),
                            None => format!("join({b}, {x})"),
                        };
                        return Some(a.mk(Val::Param(t)));
                    }
                }
                if f.ends_with("Field::new") && args.len() == 3 {
                    let f = ["name", "data_type", "is_nullable"].iter().zip(args).map(|(n, v)| (n.to_string(), *v)).collect();
                    return Some(a.mk(Val::Ctor { p: "arrow2::datatypes::Field".into(), f }));
                }
                if args.len() == 2 && f.starts_with('.') && matches!(a.get(args[1]), Val::Lit(l) if l == "true" || l == "false") {
                    return None;
                }
            }
            if kv {
                let wrap = |a: &mut Arena, c: &str, v: Vid| a.mk(Val::Ctor { p: c.into(), f: vec![("0".into(), v)] });
                let of = |a: &Arena, c: &str, v: Vid| match a.get(v) {
                    Val::Ctor { p, f } if p == c => Some(f[0].1),
                    _ => None,
                };
                if name == "to_le_bytes" && args.len() == 1 {
                    return Some(wrap(a, "le", args[0]));
                }
                if name == "from_le_bytes" && args.len() == 1 {
                    return of(a, "le", args[0]);
                }
                if matches!(name, "try_into" | "as_ref" | "as_slice" | "to_vec") && args.len() == 1 && matches!(a.get(args[0]), Val::Ctor { p, .. } if p == "le" || p == "rec") {
                    return Some(if name == "try_into" { wrap(a, "Ok", args[0]) } else { args[0] });
                }
                let says = |l: &str| ans.iter().find(|x| x.0 == l || x.0 == name).map(|x| x.1.clone());
                // what is kept in memory: seen at once
                if let Some(c) = args.first().and_then(|r| match a.get(*r) {
                    Val::Param(p) if p.starts_with("cache_") => Some(p.clone()),
                    _ => None,
                }) {
                    if let (true, Some(k)) = (matches!(name, "get" | "peek" | "put" | "push" | "insert" | "pop" | "remove" | "contains"), args.get(1)) {
                        let key = format!("{c} {}", txt(a, *k));
                        let mut seen = seen.borrow_mut();
                        let had = match name {
                            "put" | "push" | "insert" if args.len() == 3 => seen.insert(key, args[2]),
                            "pop" | "remove" => seen.remove(&key),
                            _ => seen.get(&key).copied(),
                        };
                        return Some(match had {
                            _ if name == "contains" => a.lit(if had.is_some() { "true" } else { "false" }),
                            Some(v) => wrap(a, "Some", v),
                            None => a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                        });
                    }
                }
                if name.starts_with("serialize") && args.len() == 1 || name.starts_with("deserialize") && args.len() == 1 {
                    if let Some(t) = says(name) {
                        return Some(term_in(a, &t));
                    }
                    let v = if name.starts_with("s") { wrap(a, "rec", args[0]) } else { of(a, "rec", args[0]).unwrap_or(args[0]) };
                    return Some(wrap(a, "Ok", v));
                }
                if name == "transaction" && args.len() == 1 {
                    let mut o = open_tx.borrow_mut();
                    o.push(store.borrow().clone());
                    return Some(a.mk(Val::Param(format!("tx{}", o.len()))));
                }
                let n = args.first().and_then(|r| match a.get(*r) {
                    Val::Param(p) => p.strip_prefix("tx").and_then(|n| n.parse::<usize>().ok()),
                    _ => None,
                });
                if let Some(n) = n {
                    let mut o = open_tx.borrow_mut();
                    if n == 0 && o.is_empty() || n > 0 && n > o.len() {
                        o.push(store.borrow().clone());
                    }
                    let i = n.saturating_sub(1);
                    let key = args.get(1).map(|k| key_text(a, m, *k)).unwrap_or_default();
                    let text = match name {
                        "put" => format!("put {key}"),
                        "delete" => format!("delete {key}"),
                        _ => format!("{name} {key}"),
                    };
                    if std::env::var("KV").is_ok() {
                        eprintln!("{text} {}", args.get(2).map(|v| txt(a, *v)).unwrap_or_default());
                    }
                    lg.borrow_mut().push(text.trim_end().to_string());
                    hd.borrow_mut().push(a.held.clone());
                    if let Some(t) = says(text.trim_end()) {
                        return Some(term_in(a, &t));
                    }
                    let unit = |a: &mut Arena| {
                        let u = a.mk(Val::Tuple(vec![]));
                        Some(wrap(a, "Ok", u))
                    };
                    match name {
                        "get" | "get_for_update" => {
                            let v = match o[i].get(&key) {
                                Some(v) => wrap(a, "Some", *v),
                                None => a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                            };
                            return Some(wrap(a, "Ok", v));
                        }
                        "put" if args.len() == 3 => {
                            o[i].insert(key, args[2]);
                            return unit(a);
                        }
                        "delete" => {
                            o[i].remove(&key);
                            return unit(a);
                        }
                        "commit" => {
                            *store.borrow_mut() = o[i].clone();
                            return unit(a);
                        }
                        "rollback" => return unit(a),
                        "prefix_iterator" => {
                            let must: Vec<(String, Vid)> = o[i].range(key..).map(|(k, v)| (k.clone(), *v)).collect();
                            let must = must
                                .into_iter()
                                .map(|(k, v)| {
                                    let k = a.mk(Val::Lit(format!("{k:?}")));
                                    let t = a.mk(Val::Tuple(vec![k, v]));
                                    wrap(a, "Ok", t)
                                })
                                .collect();
                            return Some(a.mk(Val::List { must, may: vec![] }));
                        }
                        _ => {}
                    }
                }
            }
            let k = kind.get(f);
            let tf = if a.tf.is_empty() { String::new() } else { format!("<{}>", a.tf) };
            if let Some(t) = made.get(f) {
                let fs: Vec<(String, Vid)> = args.iter().enumerate().map(|(i, x)| (i.to_string(), *x)).collect();
                let v = a.mk(Val::Ctor { p: format!("{t}{tf}"), f: fs });
                return Some(if k.map_or(false, |k| k.1) { a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), v)] }) } else { v });
            }
            let part = parts.contains(&krate) && k.is_some() || shut.contains(&name);
            if !part && !also.contains(&name) {
                return None;
            }
            let (has_self, fallible) = k.copied().unwrap_or((f.starts_with('.'), true));
            let (label, rest) = if has_self && !args.is_empty() { (format!("{}.{name}", recv(a, args[0])), &args[1..]) } else if k.is_some() && !has_self { (format!("{name}{tf}"), args) } else { (name.to_string(), args) };
            let label = if locks && label == ".open" { format!("open{{{}}}", flags(a, args[0]).into_iter().collect::<Vec<_>>().join(" ")) } else { label };
            let text = format!("{label}({})", rest.iter().map(|x| txt(a, *x)).collect::<Vec<_>>().join(", "));
            let found = ans.iter().find(|(l, _)| *l == label || *l == text || *l == name);
            if !fallible && found.is_none() {
                let t = format!("{name}({})", args.iter().map(|x| txt(a, *x)).collect::<Vec<_>>().join(", "));
                return Some(a.mk(Val::Param(t)));
            }
            if fallible {
                lg.borrow_mut().push(text.clone());
                hd.borrow_mut().push(a.held.clone());
            }
            match found {
                Some((_, t)) => {
                    let mut t = t.clone();
                    if t.contains('#') {
                        let mut n = n.borrow_mut();
                        let k = n.entry(label.clone()).or_default();
                        *k += 1;
                        t = t.replace('#', &k.to_string());
                    }
                    Some(term_in(a, &t))
                }
                None => {
                    let v = a.mk(Val::Param(text));
                    Some(a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), v)] }))
                }
            }
        }));
        let sv = self_.map(|s| term(&mut it, s));
        let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
        let ex = it.run(f.id, Some(av), sv);
        ck.absorb(&it);
        ck.paths += ex.len();
        let mut out = BTreeSet::new();
        let mut own = BTreeSet::new();
        let mut cells: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for e in ex {
            for (k, v) in e.s.cells.iter() {
                for v in it.a.alts(*v) {
                    cells.entry(k.clone()).or_default().insert(txt(&it.a, v));
                }
            }
            if let Some(v) = it.final_of(&e.s, "self") {
                for v in it.a.alts(v) {
                    own.insert(txt(&it.a, v));
                }
            }
            for v in it.a.alts(e.v) {
                out.insert(txt(&it.a, v));
            }
        }
        let log = log.borrow().clone();
        let held = held.borrow().clone();
        EDGES.with(|e| e.borrow_mut().extend(it.lock_edges.iter().cloned()));
        let db = db.borrow().iter().chain(cache.borrow().iter()).map(|(k, v)| (k.clone(), txt(&it.a, *v))).collect();
        Done { out, log, own, held, cells, db, edges: it.lock_edges.clone(), at: (f.file.clone(), f.line) }
    }
}

type Edge = (String, String, String, String, usize);
thread_local! {
    static EDGES: RefCell<BTreeSet<Edge>> = RefCell::new(BTreeSet::new());
}
/// the order in which locks were taken in all runs since the last call
pub fn take_edges() -> BTreeSet<Edge> {
    EDGES.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
