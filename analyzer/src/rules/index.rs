//! C11: unique indexes and id sequences.
use std::collections::{BTreeMap, BTreeSet};

use super::meta::*;
use super::tab::*;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// the fields a store keeps unique (within the scope its keys carry)
const UNIQUE: &[(&str, &[&str])] = &[
    ("Accounts", &["email"]),
    ("CustomEvents", &["name"]),
    ("Events", &["name", "display_name"]),
    ("Organizations", &["name"]),
    ("Projects", &["name", "token"]),
    ("Properties", &["name", "display_name"]),
    ("Teams", &["name"]),
];
/// unique fields an update leaves alone
const FIXED: &[(&str, &str)] = &[("Properties", "name")];
/// index entries that no operation reads for uniqueness: (store, index name)
const EXTRA: &[(&str, &str)] = &[("Properties", "column_name")];

pub fn check(ck: &mut Ck) {
    ck.rule("index primitives interpreted over lists of present and absent keys: exactly the present keys are read under a lock and refused when taken, written with the id, replaced or removed; a sequence hands out the locked stored value plus one and stores what it hands out");
    ck.rule("each store operation interpreted on all paths: creation checks and then writes an index entry for every unique field with the entity's own id; update checks and replaces the entry of the field it changes and no other; deletion removes the entries creation wrote; lookups read the entry of the field they are named after");
    prims(ck);
    stores(ck);
    ck.floor("index-prim", 30);
    ck.floor("index-create", 25);
    ck.floor("index-update", 100);
    ck.floor("index-delete", 8);
    ck.floor("index-get", 8);
}

fn is_get(e: &Event) -> bool {
    matches!(e.f.as_str(), ".get" | ".get_for_update") && e.args.len() >= 2
}
/// (event, key) of accesses of one kind
fn acc<'a>(it: &'a Interp, f: &str) -> Vec<&'a Event> {
    it.events.iter().filter(|e| if f == "get" { is_get(e) } else { e.f == f }).collect()
}
fn at_of(e: &Event) -> (&str, usize) {
    (&e.file, e.line)
}
fn oks<'a>(it: &Interp, ex: &'a [Exit]) -> Vec<&'a Exit> {
    ex.iter().filter(|e| it.a.alts(e.v).iter().any(|v| matches!(ctor(&it.a, *v), Some(("Ok", _))))).collect()
}
fn errs<'a>(it: &Interp, ex: &'a [Exit], name: &str) -> Vec<&'a Exit> {
    ex.iter().filter(|e| it.a.show(e.v).contains(&format!("MetadataError::{name}"))).collect()
}
fn some(it: &Interp, s: &Set, v: Vid) -> bool {
    it.a.fact_id(&Fact::Some(v)).map_or(false, |f| s.contains(&f))
}
fn none(it: &Interp, s: &Set, v: Vid) -> bool {
    it.a.fact_id(&Fact::None(v)).map_or(false, |f| s.contains(&f))
}

fn run<'m>(ck: &mut Ck<'m>, n: &str, args: &[&str]) -> Option<(Interp<'m>, Vec<Exit>, (&'m str, usize))> {
    let f = ck.func(&format!("metadata::index::{n}"))?;
    let mut it = fresh(ck);
    let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
    let ex = it.run(f.id, Some(av), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    Some((it, ex, (f.file.as_str(), f.line)))
}
/// keys of the accesses, as text, deduplicated
fn keys(it: &Interp, evs: &[&Event]) -> BTreeSet<String> {
    evs.iter().map(|e| it.a.show(strip_ref(&it.a, e.args[1]))).collect()
}
fn strip_ref(a: &Arena, v: Vid) -> Vid {
    match a.get(v) {
        Val::Call { f, args } if args.len() == 1 && matches!(last_of(f), "as_ref" | "as_slice" | "clone" | "to_owned" | "to_vec") => strip_ref(a, args[0]),
        _ => v,
    }
}
fn set(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn prims(ck: &mut Ck) {
    for (n, args, want) in [
        ("check_insert_constraints", vec!["tx", "[Some(k1), None, Some(k2)]"], vec!["k1", "k2"]),
        ("check_update_constraints", vec!["tx", "[Some(k1), None, Some(k2), Some(k3)]", "[Some(p1), Some(p2), None, Some(k3)]"], vec!["k1", "k2"]),
    ] {
        let Some((it, ex, at)) = run(ck, n, &args) else { continue };
        let gets = acc(&it, "get");
        let k = keys(&it, &gets);
        ck.req("index-prim", k == set(&want) || n == "check_update_constraints" && k == set(&["k1", "k2", "k3"]), format!("{n}:keys"), at, format!("{n} looks at {k:?}, must look at {want:?}"));
        for e in &gets {
            ck.req("index-prim", e.f == ".get_for_update", format!("{n}:lock"), at_of(e), format!("{n} decides on a read that takes no lock: two transactions can both pass"));
        }
        let taken = errs(&it, &ex, "AlreadyExists");
        // every key that is taken leads to AlreadyExists
        for e in &gets {
            if !want.contains(&it.a.show(strip_ref(&it.a, e.args[1])).as_str()) {
                continue;
            }
            let k = it.a.show(e.args[1]);
            ck.req("index-prim", taken.iter().any(|x| some(&it, &x.s.must, e.val)), format!("{n}:taken:{k}"), at_of(e), format!("{n} does not refuse a key that is taken"));
            let o = oks(&it, &ex);
            ck.req("index-prim", !o.is_empty() && o.iter().all(|x| feasible_same(&it, x, &args) || none(&it, &x.s.must, e.val)), format!("{n}:free:{k}"), at_of(e), format!("{n} can succeed without having seen that the key is free"));
        }
        for x in &taken {
            ck.req("index-prim", gets.iter().any(|e| some(&it, &x.s.must, e.val)), format!("{n}:refuse"), (at.0, x.line), format!("{n} refuses although no key is taken"));
        }
    }
    for (n, args, puts, dels) in [
        ("insert_index", vec!["tx", "[Some(k1), None, Some(k2)]", "id"], vec!["k1", "k2"], vec![]),
        ("update_index", vec!["tx", "[Some(k1), None, Some(k2)]", "[Some(p1), Some(p2), None]", "id"], vec!["k1", "k2"], vec!["p1", "p2"]),
        ("delete_index", vec!["tx", "[Some(k1), None, Some(k2)]"], vec![], vec!["k1", "k2"]),
    ] {
        let Some((it, ex, at)) = run(ck, n, &args) else { continue };
        let (p, d) = (acc(&it, ".put"), acc(&it, ".delete"));
        ck.req("index-prim", keys(&it, &p) == set(&puts), format!("{n}:put"), at, format!("{n} writes {:?}, must write {puts:?}", keys(&it, &p)));
        ck.req("index-prim", keys(&it, &d) == set(&dels), format!("{n}:delete"), at, format!("{n} removes {:?}, must remove {dels:?}", keys(&it, &d)));
        for e in &p {
            ck.req("index-prim", it.a.show(e.args[2]) == ".to_le_bytes(id)", format!("{n}:value"), at_of(e), format!("{n} stores {}", it.a.show(e.args[2])));
        }
        let o = oks(&it, &ex);
        ck.req("index-prim", !o.is_empty(), format!("{n}:ok"), at, format!("{n} never succeeds"));
        for x in &o {
            for (list, evs) in [(&puts, &p), (&dels, &d)] {
                for k in list.iter() {
                    let done = evs.iter().any(|e| it.a.show(strip_ref(&it.a, e.args[1])) == *k && it.has_ok(&x.s.must, e.val));
                    // an unchanged key needs no removal
                    let same = evs.is_empty() || feasible_same(&it, x, &args);
                    ck.req("index-prim", done || same, format!("{n}:done:{k}"), (at.0, x.line), format!("{n} can succeed without having handled {k}"));
                }
            }
        }
        // a key that stays is not removed for good
        for e in &d {
            let k = it.a.show(e.args[1]);
            if k.starts_with('p') {
                let late = p.iter().any(|w| it.a.show(w.args[1])[1..] == k[1..] && it.called(&e.must, w.val));
                ck.req("index-prim", !late, format!("{n}:order:{k}"), at_of(e), format!("{n} removes the previous key after writing the new one"));
            }
        }
    }
    if let Some((it, ex, at)) = run(ck, "get_index", &["tx", "k", "e"]) {
        let g = acc(&it, "get");
        ck.req("index-prim", keys(&it, &g) == set(&["k"]), "get_index:key", at, "get_index must read the given key");
        for x in oks(&it, &ex) {
            let v = short(&it.a.show(x.v));
            ck.req("index-prim", v.contains("from_le_bytes(") && v.contains(", k)") && !g.iter().any(|e| none(&it, &x.s.must, e.val)), "get_index:value", (at.0, x.line), format!("get_index returns {v}"));
        }
        let nf = errs(&it, &ex, "NotFound");
        ck.req("index-prim", nf.iter().any(|x| g.iter().any(|e| none(&it, &x.s.must, e.val))), "get_index:none", at, "get_index must report a missing entry as NotFound");
    }
    for (n, first) in [("next_seq", "1"), ("next_zero_seq", "0")] {
        let Some((it, ex, at)) = run(ck, n, &["tx", "k"]) else { continue };
        let g = acc(&it, "get");
        let p = acc(&it, ".put");
        for e in &g {
            ck.req("index-prim", e.f == ".get_for_update", format!("{n}:lock"), at_of(e), format!("{n} reads the sequence without a lock: two transactions can get the same id"));
        }
        ck.req("index-prim", keys(&it, &g) == set(&["k"]) && keys(&it, &p) == set(&["k"]), format!("{n}:key"), at, format!("{n} must read and write the given key"));
        let mut vals = BTreeSet::new();
        for x in oks(&it, &ex) {
            for v in it.a.alts(x.v) {
                let Some(w) = ok_payload(&it.a, v) else { continue };
                let stored = p.iter().any(|e| it.has_ok(&x.s.must, e.val) && is_call(&it.a, e.args[2], "to_le_bytes").map_or(false, |a| a[0] == w));
                ck.req("index-prim", stored, format!("{n}:stored"), (at.0, x.line), format!("{n} does not store the id it hands out"));
                for y in it.a.alts(w) {
                    let t = it.a.show(y);
                    let fs: BTreeSet<bool> = g.iter().filter_map(|e| if some(&it, &x.s.must, e.val) { Some(true) } else if none(&it, &x.s.must, e.val) { Some(false) } else { None }).collect();
                    let inc = matches!(it.a.get(y), Val::Bin(o, a, b) if o == "+" && (it.a.show(*b) == "1" && it.a.show(*a).contains("from_le_bytes") || it.a.show(*a) == "1" && it.a.show(*b).contains("from_le_bytes")));
                    ck.req("index-prim", if inc { !fs.contains(&false) } else { t == first && !fs.contains(&true) }, format!("{n}:next"), (at.0, x.line), format!("{n} hands out {t}"));
                    vals.insert(inc);
                }
            }
        }
        ck.req("index-prim", vals.len() == 2, format!("{n}:both"), at, format!("{n} must start at {first} and then count up"));
    }
}
/// the path took a branch on which a new key equals its previous one
fn feasible_same(it: &Interp, x: &Exit, args: &[&str]) -> bool {
    args.len() > 2
        && it.facts(&x.s.must).any(|f| match f {
            Fact::Cond(v, b) => match it.a.get(*v) {
                Val::Bin(o, _, _) => o == "==" && *b || o == "!=" && !*b,
                _ => false,
            },
            _ => false,
        })
}

#[derive(Clone, Debug)]
struct Ent {
    ns: Vid,
    idx: String,
    val: Vid,
}
/// index entries named by a term (key lists, one key)
fn ents(a: &Arena, v: Vid) -> Vec<Ent> {
    let mut r: Vec<Ent> = vec![];
    a.walk(v, &mut |_, x| {
        if let Val::Call { f, args } = x {
            if last_of(f) == "make_index_key" && args.len() == 3 {
                let idx = a.show(args[1]).trim_start_matches('b').trim_matches('"').to_string();
                if !r.iter().any(|e| e.ns == args[0] && e.idx == idx && e.val == args[2]) {
                    r.push(Ent { ns: args[0], idx, val: args[2] });
                }
                return false;
            }
            return matches!(last_of(f), "flatten" | "iter" | "into_iter" | "as_ref" | "as_slice" | "to_vec" | "clone" | "concat" | "as_bytes");
        }
        true
    });
    r
}
/// names of the fields (or parameters) a key value is taken from
fn names(a: &Arena, v: Vid) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    fn go(a: &Arena, v: Vid, r: &mut BTreeSet<String>) {
        match a.get(v) {
            Val::Field(b, n) if n.parse::<usize>().is_ok() => go(a, *b, r),
            Val::Field(_, n) => {
                r.insert(n.clone());
            }
            Val::Param(p) => {
                r.insert(p.clone());
            }
            Val::Payload(b, ..) => go(a, *b, r),
            Val::Join(xs) => xs.iter().for_each(|x| go(a, *x, r)),
            Val::Ctor { p, f } if p == "Some" => go(a, f[0].1, r),
            Val::Ctor { p, .. } if p == "None" => {}
            Val::Call { args, .. } if args.len() == 1 => go(a, args[0], r),
            _ => {
                r.insert(a.show_d(v, 3));
            }
        }
    }
    go(a, v, &mut r);
    r
}
fn stored(a: &Arena, v: Vid) -> bool {
    let s = a.show_d(v, 30);
    s.contains("deserialize") || s.contains("_cache")
}

fn stores(ck: &mut Ck) {
    let m = ck.m;
    let mut have: BTreeMap<(&str, &str), BTreeSet<String>> = BTreeMap::new();
    for f in operations(m) {
        let Some((st, uq)) = UNIQUE.iter().find(|x| x.0 == f.self_name()) else { continue };
        let upd = f.params.iter().position(|p| m.structs.get(p.1.path()).map_or(false, |s| s.name.starts_with("Update")));
        if let Some(pi) = upd {
            update(ck, f, pi, st, uq);
            continue;
        }
        let mut it = store_it(m);
        it.precise = true;
        it.eval_consts = true;
        it.unroll = true;
        it.max_states = 60;
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let tag = format!("{st}::{}", f.name);
        // writes of entries
        let mut ins: Vec<(&Event, Ent, Vid)> = vec![];
        let mut del: Vec<(&Event, Ent)> = vec![];
        let mut chk: Vec<(&Event, Ent)> = vec![];
        let mut get: Vec<(&Event, Ent)> = vec![];
        for e in &it.events {
            let es = || e.args.get(1).map_or(vec![], |k| ents(&it.a, *k));
            match e.f.as_str() {
                "metadata::index::insert_index" => ins.extend(es().into_iter().map(|x| (e, x, e.args[2]))),
                "metadata::index::delete_index" | ".delete" => del.extend(es().into_iter().map(|x| (e, x))),
                "metadata::index::check_insert_constraints" => chk.extend(es().into_iter().map(|x| (e, x))),
                "metadata::index::get_index" => get.extend(es().into_iter().map(|x| (e, x))),
                ".get_for_update" => chk.extend(es().into_iter().map(|x| (e, x))),
                ".get" => get.extend(es().into_iter().map(|x| (e, x))),
                ".put" if e.args.len() == 3 => {
                    let id = is_call(&it.a, e.args[2], "to_le_bytes").map_or(e.args[2], |a| a[0]);
                    ins.extend(es().into_iter().map(|x| (e, x, id)))
                }
                _ => {}
            }
        }
        // ids and namespaces the entity is stored under
        let mut ids: BTreeSet<Vid> = BTreeSet::new();
        let mut nss: BTreeSet<Vid> = BTreeSet::new();
        for (_, k, _) in puts(&it) {
            if let Some(a) = is_call(&it.a, k, "make_data_value_key") {
                nss.extend(it.a.alts(a[0]));
                ids.extend(it.a.alts(a[1]));
            }
        }
        for (e, x, id) in &ins {
            if EXTRA.contains(&(st, x.idx.as_str())) {
                continue;
            }
            let nm = names(&it.a, x.val);
            ck.req("index-create", nm.len() == 1 && nm.contains(&x.idx), format!("{st}.{}", nm.iter().cloned().collect::<Vec<_>>().join("+")), at_of(e), format!("{tag}: index {} carries {nm:?}", x.idx));
            have.entry((st, "create")).or_default().extend(nm.clone());
            let c: Vec<&(&Event, Ent)> = chk.iter().filter(|c| c.1.ns == x.ns && c.1.idx == x.idx && c.1.val == x.val).collect();
            ck.req("index-create", !c.is_empty(), format!("{tag}:{nm:?}:check"), at_of(e), format!("{tag}: writes the index entry of {nm:?} without checking that it is free"));
            let before = c.iter().any(|c| if c.0.f == ".get_for_update" { ins.iter().any(|i| i.0.line == e.line && i.1.val == x.val && it.called(&i.0.may, c.0.val)) } else { it.has_ok(&e.must, c.0.val) });
            ck.req("index-create", before, format!("{tag}:{nm:?}:before"), at_of(e), format!("{tag}: the entry of {nm:?} is written before it was found free"));
            ck.req("index-create", it.a.alts(*id).iter().all(|i| ids.contains(i)), format!("{tag}:{nm:?}:id"), at_of(e), format!("{tag}: the entry of {nm:?} points to {}, the entity is stored elsewhere", it.a.show_d(*id, 4)));
            ck.req("index-create", it.a.alts(x.ns).iter().all(|i| nss.contains(i)), format!("{tag}:{nm:?}:ns"), at_of(e), format!("{tag}: the entry of {nm:?} lies in another namespace than the entity"));
        }
        for c in &chk {
            if c.0.f == ".get_for_update" {
                // a direct check: a taken key must fail
                let r = errs(&it, &ex, "AlreadyExists").iter().any(|x| some(&it, &x.s.may, c.0.val)) && !oks(&it, &ex).iter().any(|x| some(&it, &x.s.may, c.0.val));
                ck.req("index-create", r, format!("{tag}:{:?}:refuse", c.1.idx), at_of(c.0), format!("{tag}: a taken {} must be refused", c.1.idx));
            }
        }
        for (e, x) in &del {
            let nm = names(&it.a, x.val);
            ck.req("index-delete", nm.len() == 1 && nm.contains(&x.idx), format!("{st}.{}", nm.iter().cloned().collect::<Vec<_>>().join("+")), at_of(e), format!("{tag}: index {} carries {nm:?}", x.idx));
            ck.req("index-delete", stored(&it.a, x.val), format!("{tag}:{nm:?}:stored"), at_of(e), format!("{tag}: the entry removed is not the stored entity's"));
            have.entry((st, "delete")).or_default().extend(nm);
        }
        if !del.is_empty() {
            for x in oks(&it, &ex) {
                let all = del.iter().all(|d| it.has_ok(&x.s.must, d.0.val) || it.called(&x.s.must, d.0.val));
                ck.req("index-delete", all, format!("{tag}:always"), (&f.file, x.line), format!("{tag}: can succeed without removing the index entries"));
            }
        }
        for (e, x) in &get {
            let nm = names(&it.a, x.val);
            // a field is read through its own index; a bare parameter through the index the lookup is named after
            if !matches!(it.a.get(strip(&it.a, x.val)), Val::Param(_) | Val::Payload(..)) && !nm.iter().any(|n| f.params.iter().any(|p| pat_name(&p.0) == *n)) {
                ck.req("index-get", nm.len() == 1 && nm.contains(&x.idx), format!("{st}.{}", nm.iter().cloned().collect::<Vec<_>>().join("+")), at_of(e), format!("{tag}: index {} read with {nm:?}", x.idx));
            }
            if let Some(by) = f.name.split("get_by_").nth(1) {
                if by != "id" && !by.ends_with("_global") {
                    ck.req("index-get", x.idx == by, format!("{st}.{by}"), at_of(e), format!("{tag}: looks in the index of {}", x.idx));
                }
            }
            // the entity read is the one the entry points to
            let dk = it.events.iter().filter(|g| g.f == ".get").any(|g| is_call(&it.a, g.args[1], "make_data_value_key").map_or(false, |a| it.a.alts(a[0]) == it.a.alts(x.ns) && it.a.contains(a[1], e.val)));
            let glob = f.name.ends_with("_global");
            ck.req("index-get", dk || glob, format!("{tag}:entity"), at_of(e), format!("{tag}: does not read the entity the index entry points to in its own namespace"));
        }
    }
    for (st, uq) in UNIQUE {
        for op in ["create", "delete"] {
            let h = have.get(&(*st, op)).cloned().unwrap_or_default();
            let w: BTreeSet<String> = uq.iter().map(|s| s.to_string()).collect();
            ck.req(&format!("index-{op}"), h == w, format!("{st}:{op}"), ("src/metadata/src", 0), format!("{st}: {op} handles the unique fields {h:?}, must handle {w:?}"));
        }
    }
}

fn update<'m>(ck: &mut Ck<'m>, f: &'m FnDef, pi: usize, st: &str, uq: &[&str]) {
    let m = ck.m;
    let req = m.structs.get(f.params[pi].1.path()).unwrap();
    let flds: Vec<String> = req.fields.iter().filter(|x| x.1.name() == "OptionalProperty").map(|x| x.0.clone()).collect();
    let tag = format!("{st}::{}", f.name);
    for fl in &flds {
        let mut it = store_it(m);
        it.precise = true;
        it.eval_consts = true;
        it.unroll = true;
        it.max_states = 60;
        let no = it.a.mk(Val::Ctor { p: "common::types::OptionalProperty::None".into(), f: vec![] });
        let val = it.param("value");
        let so = it.a.mk(Val::Ctor { p: "common::types::OptionalProperty::Some".into(), f: vec![("0".into(), val)] });
        let fs = req.fields.iter().map(|(n, t)| (n.clone(), if t.name() != "OptionalProperty" { it.param(&format!("req.{n}")) } else if n == fl { so } else { no })).collect();
        let rv = it.a.mk(Val::Ctor { p: req.path.clone(), f: fs });
        let args: Vec<Vid> = f.params.iter().enumerate().map(|(i, p)| if i == pi { rv } else { it.param(&pat_name(&p.0)) }).collect();
        let ex = it.run(f.id, Some(args), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let isu = uq.contains(&fl.as_str()) && !FIXED.contains(&(st, fl.as_str()));
        let chks = acc(&it, "metadata::index::check_update_constraints");
        let upds = acc(&it, "metadata::index::update_index");
        let at = (f.file.as_str(), f.line);
        let key = |s: &str| format!("{tag}[{fl}]:{s}");
        // the id the entity is stored under; that of the entity read by an id is this id
        let mut ids: BTreeSet<Vid> = BTreeSet::new();
        for (_, k, _) in puts(&it) {
            if let Some(a) = is_call(&it.a, k, "make_data_value_key") {
                for i in it.a.alts(a[1]) {
                    ids.insert(i);
                    if matches!(it.a.get(i), Val::Field(_, n) if n == "id") {
                        it.a.walk(i, &mut |_, v| {
                            if let Val::Call { f, args } = v {
                                if last_of(f) == "make_data_value_key" {
                                    ids.insert(args[1]);
                                    return false;
                                }
                            }
                            true
                        });
                    }
                }
            }
        }
        for (e, what) in chks.iter().map(|e| (e, "check")).chain(upds.iter().map(|e| (e, "write"))) {
            let n = ents(&it.a, e.args[1]);
            let p = ents(&it.a, e.args[2]);
            for x in &n {
                if x.idx != *fl && isu {
                    ck.req("index-update", false, format!("{st}.{fl}"), at_of(e), format!("{tag}: index {} carries {fl}", x.idx));
                    continue;
                }
                let from_val = roots(&it.a, x.val) == ["value".to_string()].into();
                ck.req("index-update", isu && x.idx == *fl && from_val || !isu && p.iter().any(|y| y.ns == x.ns && y.idx == x.idx && y.val == x.val), key(&format!("{what}-new")), at_of(e), format!("{tag} with {fl} supplied: {what} index {} with {}", x.idx, it.a.show_d(x.val, 3)));
            }
            for y in &p {
                let nm = names(&it.a, y.val);
                if y.idx != *fl && isu && nm.contains(fl) {
                    ck.req("index-update", false, format!("{st}.{fl}"), at_of(e), format!("{tag}: index {} carries {fl}", y.idx));
                    continue;
                }
                ck.req("index-update", nm.len() == 1 && nm.contains(&y.idx) && stored(&it.a, y.val), key(&format!("{what}-prev")), at_of(e), format!("{tag}: previous entry of {} is {nm:?}", y.idx));
                ck.req("index-update", !isu || n.is_empty() || n.iter().any(|x| x.ns == y.ns && x.idx == y.idx), key(&format!("{what}-pair")), at_of(e), format!("{tag}: new and previous key of {} differ in scope", y.idx));
            }
            if isu {
                ck.req("index-update", n.len() <= 1 && p.len() <= 1 && n.len() + p.len() > 0 || matches!(it.a.get(e.args[1]), Val::List { .. }), key(&format!("{what}-one")), at_of(e), format!("{tag}: {what} with no key"));
            }
            if what == "write" {
                ck.req("index-update", it.a.alts(e.args[3]).iter().all(|i| ids.contains(i)) , key("id"), at_of(e), format!("{tag}: the entry points to {}, the entity is stored elsewhere", it.a.show_d(e.args[3], 3)));
            }
        }
        if isu {
            let nn: usize = upds.iter().map(|e| ents(&it.a, e.args[1]).len()).sum();
            let pp: usize = upds.iter().map(|e| ents(&it.a, e.args[2]).len()).sum();
            ck.req("index-update", nn > 0 && pp > 0, key("keys"), at, format!("{tag}: changing {fl} must write its new index entry and remove the previous one"));
            for x in oks(&it, &ex) {
                ck.req("index-update", upds.iter().any(|e| it.has_ok(&x.s.must, e.val)), key("done"), (at.0, x.line), format!("{tag}: {fl} can change without its index entry"));
                ck.req("index-update", chks.iter().any(|e| it.has_ok(&x.s.must, e.val) && (!ents(&it.a, e.args[1]).is_empty() || upds.iter().filter(|u| it.has_ok(&x.s.must, u.val)).any(|u| ents(&it.a, u.args[1]).len() <= ents(&it.a, e.args[1]).len() || it.a.show(e.args[1]).starts_with("[None")))), key("checked"), (at.0, x.line), format!("{tag}: {fl} can change without a check that it is free"));
            }
        }
    }
}
