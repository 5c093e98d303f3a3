//! C12: where metadata lives: scoping, separation and completeness of keys.
use std::collections::{BTreeMap, BTreeSet};

use super::meta::*;
use super::tab::*;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tok {
    Lit(String),
    Hole(Vid),
}
type Key = Vec<Tok>;

fn cat(ps: Vec<Vec<Key>>) -> Vec<Key> {
    let mut r: Vec<Key> = vec![vec![]];
    for p in ps {
        let mut n = vec![];
        for x in &r {
            for y in &p {
                let mut z = x.clone();
                z.extend(y.iter().cloned());
                n.push(norm(z));
            }
        }
        n.truncate(64);
        r = n;
    }
    r
}
fn norm(k: Key) -> Key {
    let mut r: Key = vec![];
    for t in k {
        match (r.last_mut(), t) {
            (Some(Tok::Lit(a)), Tok::Lit(b)) => a.push_str(&b),
            (_, Tok::Lit(b)) if b.is_empty() => {}
            (_, t) => r.push(t),
        }
    }
    r
}
/// the texts a key term can be: literal parts and holes
pub fn tpl(a: &Arena, v: Vid) -> Vec<Key> {
    let l = |s: &str| vec![vec![Tok::Lit(s.to_string())]];
    match a.get(v) {
        Val::Lit(s) => l(s.trim_start_matches('b').trim_matches('"')),
        Val::Fmt(t, args) => {
            let mut ps = vec![];
            let mut rest = t.as_str();
            let mut i = 0;
            while let Some(p) = rest.find("{}") {
                ps.push(l(&rest[..p]));
                if let Some(x) = args.get(i) {
                    ps.push(tpl(a, *x));
                }
                i += 1;
                rest = &rest[p + 2..];
            }
            ps.push(l(rest));
            cat(ps)
        }
        Val::List { must, may } if may.is_empty() => cat(must.iter().map(|x| tpl(a, *x)).collect()),
        Val::Join(xs) => {
            let mut r: Vec<Key> = xs.iter().flat_map(|x| tpl(a, *x)).collect();
            r.sort();
            r.dedup();
            r
        }
        Val::Call { f, args } => {
            let p = |i: usize| tpl(a, args[i]);
            match (last_of(f), args.len()) {
                ("project_ns", 2) => cat(vec![l("projects/"), p(0), l("/"), p(1)]),
                ("org_ns", 2) => cat(vec![l("organizations/"), p(0), l("/"), p(1)]),
                ("make_data_value_key", 2) => cat(vec![p(0), l("/data/"), p(1)]),
                ("make_data_key", 1) => cat(vec![p(0), l("/data")]),
                ("make_index_key", 3) => cat(vec![p(0), l("/idx/"), p(1), l("/"), p(2)]),
                ("make_id_seq_key", 1) => cat(vec![p(0), l("id_seq")]),
                ("as_bytes" | "as_slice" | "as_ref" | "to_vec" | "clone" | "as_str" | "to_string" | "to_owned" | "into_bytes" | "concat", 1) => p(0),
                _ => vec![vec![Tok::Hole(v)]],
            }
        }
        Val::Ctor { p, f } if p == "Some" => tpl(a, f[0].1),
        Val::Ctor { p, .. } if p == "None" => vec![],
        _ => vec![vec![Tok::Hole(v)]],
    }
}
/// literal skeleton; numeric holes `#`, text holes `*`
fn skel(it: &Interp, f: &FnDef, k: &Key) -> String {
    k.iter()
        .map(|t| match t {
            Tok::Lit(s) => s.clone(),
            Tok::Hole(v) => (if text_hole(it, f, *v) { "*" } else { "#" }).to_string(),
        })
        .collect()
}
fn text_hole(it: &Interp, f: &FnDef, v: Vid) -> bool {
    match it.a.get(strip(&it.a, v)) {
        Val::Param(p) => f.params.iter().find(|x| pat_name(&x.0) == *p).map_or(true, |x| matches!(x.1.peel().name(), "str" | "String")),
        Val::Field(_, n) => !(n == "id" || n.ends_with("_id") || n == "created_by" || n == "0"),
        Val::Payload(_, c, _) => !(c.ends_with("Custom") || c.ends_with("Regular") || c.ends_with("Group")),
        Val::Call { f, .. } => !matches!(last_of(f), "next_seq" | "next_zero_seq" | "get_index"),
        _ => true,
    }
}
/// `a` is `b` with some holes filled
fn instance(a: &str, b: &str) -> bool {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split('/').collect(), b.split('/').collect());
    x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || *q == "*")
}
/// can some text be both? (`#` = digits, `*` = text without a slash, `>` = anything)
fn unify(a: &str, b: &str) -> bool {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut seen = BTreeSet::new();
    let mut todo = vec![(0usize, 0usize)];
    let cls = |c: char| match c {
        '#' => 1,
        '*' => 2,
        '>' => 3,
        _ => 0,
    };
    while let Some((i, j)) = todo.pop() {
        if !seen.insert((i, j)) {
            continue;
        }
        if i == x.len() && j == y.len() {
            return true;
        }
        // holes may end
        if i < x.len() && cls(x[i]) > 0 {
            todo.push((i + 1, j));
        }
        if j < y.len() && cls(y[j]) > 0 {
            todo.push((i, j + 1));
        }
        if i < x.len() && j < y.len() {
            let ok = match (cls(x[i]), cls(y[j])) {
                (0, 0) => x[i] == y[j],
                (k, 0) => k == 1 && y[j].is_ascii_digit() || k == 2 && y[j] != '/' || k == 3,
                (0, k) => k == 1 && x[i].is_ascii_digit() || k == 2 && x[i] != '/' || k == 3,
                _ => true,
            };
            if ok {
                match (cls(x[i]), cls(y[j])) {
                    (0, 0) => todo.push((i + 1, j + 1)),
                    (_, 0) => todo.push((i, j + 1)),
                    (0, _) => todo.push((i + 1, j)),
                    _ => {}
                }
            }
        }
    }
    false
}

const BY_PROJECT: &[&str] = &["Bookmarks", "CustomEvents", "Dashboards", "Dictionaries", "Events", "Groups", "Properties", "Reports", "Sessions"];
const BY_ORG: &[&str] = &["Teams"];
const GLOBAL: &[&str] = &["Accounts", "Backups", "Organizations", "Projects", "SettingsProvider"];

struct Use {
    store: String,
    op: String,
    at: (String, usize),
    /// what is written or how it is decoded
    kind: BTreeSet<String>,
}

/// what a stored value is: the function that makes or reads it
fn value_kind(a: &Arena, v: Vid) -> Option<String> {
    match a.get(v) {
        Val::Call { f, args } => match last_of(f) {
            n if n.starts_with("serialize") => Some(f.replace("serialize", "")),
            "to_le_bytes" | "as_bytes" | "to_be_bytes" | "to_ne_bytes" => Some(last_of(f).to_string()),
            "as_slice" | "as_ref" | "clone" | "to_vec" if args.len() == 1 => value_kind(a, args[0]),
            "encode_to_vec" => Some("message".into()),
            _ => Some(last_of(f).to_string()),
        },
        Val::Param(_) | Val::Field(..) | Val::Payload(..) => Some("as_bytes".into()),
        _ => None,
    }
}
/// how the value read by `g` is decoded in this operation
fn decoded(it: &Interp, g: Vid) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for e in &it.events {
        let n = last_of(&e.f);
        let dec = n.starts_with("deserialize") || matches!(n, "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" | "from_utf8" | "decode");
        if dec && e.f.matches("decode").count() == 0 && !(n == "from_utf8" && it.events.iter().any(|l| l.val == g && l.name() == "prefix_iterator")) && e.args.iter().any(|x| carries(&it.a, *x, g)) {
            r.insert(match n {
                "from_le_bytes" => "to_le_bytes".into(),
                "from_be_bytes" => "to_be_bytes".into(),
                "from_ne_bytes" => "to_ne_bytes".into(),
                "from_utf8" => "as_bytes".into(),
                _ => e.f.replace("deserialize", ""),
            });
        }
    }
    r
}
fn carries(a: &Arena, v: Vid, g: Vid) -> bool {
    if v == g {
        return true;
    }
    match a.get(v) {
        Val::Call { f, args } if args.len() == 1 && !last_of(f).starts_with("deserialize") => carries(a, args[0], g),
        Val::Field(b, _) | Val::Payload(b, ..) | Val::Elem(b) => carries(a, *b, g),
        Val::Join(xs) => xs.iter().any(|x| carries(a, *x, g)),
        _ => false,
    }
}

pub fn check(ck: &mut Ck) {
    ck.rule("key builders and every database access of every metadata operation reduced to key templates (literal text and holes): each key of a project's (organization's) store carries the operation's own project (organization) as its scope; keys of different kinds can never be equal; what is read or deleted is what some operation writes, decoded as it was encoded");
    ck.rule("the key an operation reads, rewrites and deletes carries the id it was given; a listing reads under a prefix that only its own kind of key has, keeps every entry under it and no other");
    builders(ck);
    let m = ck.m;
    let mut puts_: BTreeMap<String, Vec<Use>> = BTreeMap::new();
    let mut gets_: BTreeMap<String, Vec<Use>> = BTreeMap::new();
    let mut dels_: BTreeMap<String, Vec<Use>> = BTreeMap::new();
    let mut lists_: BTreeMap<String, Vec<Use>> = BTreeMap::new();
    let mut n_ops = 0;
    for f in operations(m) {
        let mut it = store_it(m);
        it.precise = true;
        it.eval_consts = true;
        it.unroll = true;
        it.max_states = 60;
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let st = f.self_name();
        let tag = format!("{st}::{}", f.name);
        let mut any = false;
        let mut data: Vec<(String, Key, String, &Event)> = vec![]; // (what, key, skeleton, event)
        for e in it.events.iter() {
            let n = e.name();
            let direct = matches!(n, "get" | "get_for_update" | "put" | "delete" | "prefix_iterator" | "get_pinned") && e.f.starts_with('.') && db_like(&it.a, e);
            let prim = e.f.starts_with("metadata::index::");
            if !direct && !prim || e.args.len() < 2 {
                continue;
            }
            any = true;
            let mut ks: Vec<Key> = vec![];
            match it.a.get(e.args[1]) {
                Val::List { must, may } if prim => must.iter().chain(may).for_each(|k| ks.extend(tpl(&it.a, *k))),
                _ => ks.extend(tpl(&it.a, e.args[1])),
            }
            for k in ks {
                let mut sk = skel(&it, f, &k);
                if let Some(p) = sk.find("/idx/") {
                    // what is indexed is text
                    let q = sk[p + 5..].find('/').map_or(sk.len(), |x| p + 6 + x);
                    sk = format!("{}*", &sk[..q]);
                }
                scope(ck, &it, f, st, &tag, n, &k, &sk, e);
                let mut what = match n {
                    "put" | "insert_index" | "update_index" => "put",
                    "next_seq" | "next_zero_seq" => "seq",
                    "delete" | "delete_index" => "del",
                    "prefix_iterator" => "list",
                    _ => "get",
                };
                if what == "list" && sk.contains("id_seq") {
                    what = "get";
                }
                let kind = match n {
                    "put" => value_kind(&it.a, e.args[2]).into_iter().collect(),
                    "insert_index" | "update_index" | "get_index" => BTreeSet::from(["to_le_bytes".to_string()]),
                    "next_seq" | "next_zero_seq" => BTreeSet::from(["seq".to_string()]),
                    "get" | "prefix_iterator" => decoded(&it, e.val),
                    _ => BTreeSet::new(),
                };
                let u = |k: BTreeSet<String>| Use { store: st.to_string(), op: f.name.clone(), at: (e.file.clone(), e.line), kind: k };
                match what {
                    "put" => puts_.entry(sk.clone()).or_default().push(u(kind)),
                    "seq" => puts_.entry(sk.clone()).or_default().push(u(kind)),
                    "del" => dels_.entry(sk.clone()).or_default().push(u(kind)),
                    "list" => lists_.entry(sk.clone()).or_default().push(u(kind)),
                    _ => gets_.entry(sk.clone()).or_default().push(u(kind)),
                }
                data.push((what.to_string(), k, sk, e));
            }
        }
        n_ops += any as usize;
        ids(ck, &it, f, &tag, &data);
        listing(ck, &it, f, &tag, &ex, &data);
    }
    // reads and deletions meet writes
    for (what, mp) in [("read", &gets_), ("deleted", &dels_)] {
        for (sk, us) in mp {
            for u in us {
                let w = puts_.get(sk);
                let key = format!("{}::{}:{what}:{sk}", u.store, u.op);
                ck.req("key-family", w.is_some(), key.clone(), (&u.at.0, u.at.1), format!("{}::{}: {what} key {sk} is never written", u.store, u.op));
                if let (Some(w), false) = (w, u.kind.is_empty()) {
                    let wk: BTreeSet<String> = w.iter().flat_map(|x| x.kind.iter().cloned()).collect();
                    ck.req("key-decode", u.kind.is_subset(&wk), key, (&u.at.0, u.at.1), format!("{}::{}: value of {sk} is written by {wk:?} but read by {:?}", u.store, u.op, u.kind));
                }
            }
        }
    }
    for (sk, us) in &puts_ {
        let kinds: BTreeSet<&String> = us.iter().flat_map(|x| &x.kind).collect();
        let u = &us[0];
        ck.req("key-kind", kinds.len() <= 1, format!("{sk}:kind"), (&u.at.0, u.at.1), format!("{sk} holds values of different kinds: {kinds:?}"));
        let read = gets_.keys().any(|g| g == sk || instance(sk, g)) || kinds.iter().all(|k| *k == "seq") || sk.contains("/idx/");
        ck.req("key-family", read, format!("{}:unread:{sk}", u.store), (&u.at.0, u.at.1), format!("{}::{} writes {sk}, which nothing reads", u.store, u.op));
    }
    let all: Vec<&String> = puts_.keys().collect();
    for (i, a) in all.iter().enumerate() {
        for b in &all[i + 1..] {
            let u = &puts_[*a][0];
            let kinds = |k: &str| -> BTreeSet<String> { puts_[k].iter().flat_map(|x| x.kind.iter().cloned()).collect() };
            if kinds(a) == kinds(b) && (instance(a, b) || instance(b, a)) {
                continue; // one kind of key with a fixed part
            }
            ck.req("key-apart", !unify(a, b), format!("{a}|{b}"), (&u.at.0, u.at.1), format!("keys of {a} and {b} can be equal"));
        }
    }
    for (p, us) in &lists_ {
        let pat = format!("{p}>");
        let hit: Vec<&String> = all.iter().filter(|k| unify(&pat, k)).copied().collect();
        for u in us {
            let key = format!("{}::{}:prefix", u.store, u.op);
            ck.req("key-list", hit.len() == 1, key.clone(), (&u.at.0, u.at.1), format!("{}::{}: keys under {p} are {hit:?}, must be one kind", u.store, u.op));
            if let [h] = hit[..] {
                let wk: BTreeSet<String> = puts_[h].iter().flat_map(|x| x.kind.iter().cloned()).collect();
                ck.req("key-decode", u.kind.is_subset(&wk) && !u.kind.is_empty(), key.clone(), (&u.at.0, u.at.1), format!("{}::{}: entries under {p} are written by {wk:?} but read by {:?}", u.store, u.op, u.kind));
                // nothing but the entry's own name follows the prefix
                ck.req("key-list", h[p.len().min(h.len())..].trim_start_matches('/').len() == 1 && h.starts_with(p.as_str()), format!("{}::{}:whole", u.store, u.op), (&u.at.0, u.at.1), format!("{}::{}: prefix {p} does not cover all of {h}", u.store, u.op));
            }
        }
    }
    ck.req("key-ops", n_ops >= 70, "operations", ("src/metadata/src", 0), format!("only {n_ops} operations touch the database"));
    ck.floor("key-scope", 150);
    ck.floor("key-family", 80);
    ck.floor("key-list", 18);
    ck.floor("key-id", 60);
    ck.floor("key-apart", 300);
}

fn builders(ck: &mut Ck) {
    for (n, args, want) in [
        ("project_ns", vec!["a", "b"], "projects/{a}/{b}"),
        ("org_ns", vec!["a", "b"], "organizations/{a}/{b}"),
        ("make_data_value_key", vec!["a", "b"], "{a}/data/{b}"),
        ("make_data_key", vec!["a"], "{a}/data"),
        ("make_index_key", vec!["a", "b", "c"], "{a}/idx/{b}/{c}"),
        ("make_id_seq_key", vec!["a"], "{a}id_seq"),
    ] {
        let Some(f) = ck.func(&format!("metadata::{n}")) else { continue };
        let mut it = fresh(ck);
        let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
        let ex = it.run(f.id, Some(av), None);
        ck.absorb(&it);
        let got: BTreeSet<String> = ex
            .iter()
            .flat_map(|e| tpl(&it.a, e.v))
            .map(|k| k.iter().map(|t| match t { Tok::Lit(s) => s.clone(), Tok::Hole(v) => format!("{{{}}}", it.a.show(*v)) }).collect::<String>())
            .collect();
        ck.req("key-builder", got == BTreeSet::from([want.to_string()]), n, (&f.file, f.line), format!("{n} builds {got:?}, must build {want}"));
    }
}

#[allow(clippy::too_many_arguments)]
fn scope<'m>(ck: &mut Ck<'m>, it: &Interp, f: &FnDef, st: &str, tag: &str, n: &str, k: &Key, sk: &str, e: &Event) {
    let root = if BY_PROJECT.contains(&st) { "projects/" } else if BY_ORG.contains(&st) { "organizations/" } else { "" };
    let at = (e.file.as_str(), e.line);
    let key = format!("{tag}:{n}:{sk}");
    if root.is_empty() {
        ck.req("key-scope", GLOBAL.contains(&st), format!("{st}:unknown"), at, format!("{st} is a store this rule does not know"));
        ck.req("key-scope", !sk.starts_with("projects/#") && !sk.starts_with("organizations/#"), key, at, format!("{tag}: {n} of a global store uses the scoped key {sk}"));
        return;
    }
    let own = f.params.first().map(|p| pat_name(&p.0)).unwrap_or_default();
    let ok = matches!((k.first(), k.get(1), k.get(2)), (Some(Tok::Lit(a)), Some(Tok::Hole(h)), Some(Tok::Lit(b))) if a == root && b.starts_with('/') && matches!(it.a.get(*h), Val::Param(p) if *p == own));
    ck.req("key-scope", ok, key, at, format!("{tag}: {n} uses the key {sk}, which is not scoped by the operation's {}", root.trim_end_matches('/')));
    if st == "Dictionaries" {
        let miss: Vec<String> = f.params.iter().map(|p| pat_name(&p.0)).filter(|n| matches!(n.as_str(), "table" | "dict") && !k.iter().any(|t| matches!(t, Tok::Hole(h) if matches!(it.a.get(*h), Val::Param(p) if p == n)))).collect();
        ck.req("key-scope", miss.is_empty(), format!("{tag}:{n}:dict:{sk}"), at, format!("{tag}: {n} uses the key {sk}, which leaves out {miss:?}"));
    }
    if st == "Bookmarks" {
        let acct = k.windows(2).any(|w| matches!((&w[0], &w[1]), (Tok::Lit(a), Tok::Hole(h)) if a.ends_with("/accounts/") && matches!(access(&it.a, *h).as_deref(), Some("account_id") | Some("req.created_by"))));
        ck.req("key-scope", acct, format!("{tag}:{n}:account"), at, format!("{tag}: bookmarks belong to one account, key is {sk}"));
    }
}

/// rewriting and deleting touch the entry that was read; reading uses the id given
fn ids<'m>(ck: &mut Ck<'m>, it: &Interp, f: &FnDef, tag: &str, data: &[(String, Key, String, &Event)]) {
    let own = |h: Vid| -> bool { matches!(it.a.get(strip(&it.a, h)), Val::Param(p) if f.params.iter().any(|x| pat_name(&x.0) == *p)) };
    for (what, k, sk, e) in data {
        if e.f.contains("index::") || sk.contains("/idx/") {
            continue;
        }
        let at = (e.file.as_str(), e.line);
        let same: Vec<&Key> = data.iter().filter(|d| d.0 == "get" && d.2 == *sk).map(|d| &d.1).collect();
        let Some(Tok::Hole(h)) = k.last() else { continue };
        // the entity read by an id carries this id
        let via = matches!(it.a.get(*h), Val::Field(b, n) if n == "id" && same.iter().any(|g| g[..g.len() - 1] == k[..k.len() - 1] && (g.last().map_or(false, |t| matches!(t, Tok::Hole(x) if it.a.contains(*b, *x))))));
        match what.as_str() {
            "put" if !same.is_empty() => {
                ck.req("key-id", same.contains(&k) || via || created(it, *h), format!("{tag}:put"), at, format!("{tag}: writes back under another key than it read"));
            }
            "del" => {
                let listed = data.iter().any(|d| d.0 == "list") && it.a.show_d(*h, 20).contains("elem(");
                ck.req("key-id", same.contains(&k) || via || listed || own(*h) && same.is_empty(), format!("{tag}:delete"), at, format!("{tag}: deletes another entry than it read"));
            }
            "get" => {
                let n = f.name.as_str();
                if n == "get_by_id" || n == "delete" || n.starts_with("update") {
                    let want = f.params.iter().filter(|p| p.1.peel().name() != "Transaction" && !ck.m.structs.contains_key(p.1.path()) && !ck.m.enums.contains_key(p.1.path())).last().map(|p| pat_name(&p.0)).unwrap_or_default();
                    let st = f.self_name();
                    // records of another kind the entity refers to
                    let d = it.a.show_d(*h, 20);
                    let foreign = st == "CustomEvents" && d.contains("EventRef") || d.contains("elem(") && d.contains(".members");
                    if !foreign && !it.a.show(*h).contains("get_index") {
                        ck.req("key-id", matches!(it.a.get(strip(&it.a, *h)), Val::Param(p) if *p == want), format!("{tag}:get"), at, format!("{tag}: reads {}, must read {want}", it.a.show_d(*h, 3)));
                    }
                }
            }
            _ => {}
        }
    }
}
fn created(it: &Interp, h: Vid) -> bool {
    it.a.show_d(h, 3).contains("next_seq") || it.a.show_d(h, 6).contains("thread_rng")
}

fn listing<'m>(ck: &mut Ck<'m>, it: &Interp, f: &FnDef, tag: &str, ex: &[Exit], data: &[(String, Key, String, &Event)]) {
    for (_, _, _, l) in data.iter().filter(|d| d.0 == "list") {
        let at = (l.file.as_str(), l.line);
        let dec: Vec<&Event> = it.events.iter().filter(|e| last_of(&e.f).starts_with("deserialize") && e.args.iter().any(|x| carries(&it.a, *x, l.val))).collect();
        ck.req("key-list", !dec.is_empty(), format!("{tag}:decode"), at, format!("{tag}: entries of the listing are not read"));
        for d in &dec {
            let mut prefix = false;
            let mut other = vec![];
            for fc in it.facts(&d.must) {
                if let Fact::Cond(v, b) = fc {
                    let s = it.a.show_d(*v, 12);
                    let both = it.a.contains(*v, l.args[1]) && mentions(&it.a, *v, l.val);
                    let (pos, w) = match it.a.get(*v) {
                        Val::Not(w) => (false, *w),
                        Val::Bin(o, _, _) if o == "!=" => (false, *v),
                        _ => (true, *v),
                    };
                    let cmp = match it.a.get(w) {
                        Val::Call { f, .. } => matches!(last_of(f), "is_prefix_of" | "starts_with" | "is_eq" | "eq" | "is_some"),
                        Val::Bin(o, _, _) => o == "==" || o == "!=",
                        _ => false,
                    };
                    let len = matches!(it.a.get(w), Val::Bin(o, ..) if matches!(o.as_str(), "<" | ">" | "<=" | ">="));
                    if both && cmp {
                        prefix |= pos == *b;
                    } else if both && len {
                    } else if mentions(&it.a, *v, l.val) {
                        other.push(s);
                    }
                }
            }
            ck.req("key-list", prefix, format!("{tag}:filter"), at_of2(d), format!("{tag}: takes entries whose key does not have the listing's prefix"));
            ck.req("key-list", other.is_empty(), format!("{tag}:skip"), at_of2(d), format!("{tag}: leaves entries out on {other:?}"));
        }
        if f.name == "list" || f.name.starts_with("list_") {
            let ok = ex.iter().any(|x| dec.iter().any(|d| mentions(&it.a, x.v, d.val)));
            ck.req("key-list", ok, format!("{tag}:result"), at, format!("{tag}: the entries read are not what is returned"));
        }
    }
}
fn at_of2(e: &Event) -> (&str, usize) {
    (&e.file, e.line)
}
