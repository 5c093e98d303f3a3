//! Metadata stores: partial updates, creation, transactions, unique indexes, key scoping.
use std::collections::{BTreeMap, BTreeSet};

use super::eval::*;
use super::tab::*;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

const KEYFNS: &[&str] = &["make_data_value_key", "make_data_key", "make_index_key", "make_id_seq_key", "project_ns", "org_ns"];

/// functions kept as terms: key builders, index primitives, (de)serialization
pub fn prim(f: &FnDef) -> bool {
    // the column store: what it does is decided by C22
    f.path.starts_with("storage::db::") || f.path.starts_with("metadata::index::") || f.path.starts_with("metadata::") && f.path.matches("::").count() == 1 && (KEYFNS.contains(&f.name.as_str()) || f.name == "list" || f.name == "list_data") || is_serde(f)
}
fn is_serde(f: &FnDef) -> bool {
    f.krate == "metadata" && f.self_ty.is_none() && (f.name.starts_with("serialize") || f.name.starts_with("deserialize"))
}
pub fn store_it<'m>(m: &'m Model) -> Interp<'m> {
    let mut it = Interp::new(m);
    it.opaque = Box::new(prim);
    it.max_states = 120;
    it
}
pub fn last_of(f: &str) -> &str {
    last_seg(f).trim_start_matches('.')
}
/// (event, key term, value term) of direct writes in an operation
pub fn puts<'a>(it: &'a Interp) -> Vec<(&'a Event, Vid, Vid)> {
    it.events.iter().filter(|e| e.f == ".put" && e.args.len() == 3).map(|e| (e, e.args[1], e.args[2])).collect()
}
pub fn is_call<'a>(a: &'a Arena, v: Vid, name: &str) -> Option<&'a [Vid]> {
    match a.get(v) {
        Val::Call { f, args } if last_of(f).starts_with(name) => Some(args),
        _ => None,
    }
}
pub fn base_of(a: &Arena, v: Vid) -> Vid {
    match a.get(v) {
        Val::Rec(b, _) => base_of(a, *b),
        Val::Mut(_, b, _) => base_of(a, *b),
        _ => v,
    }
}
pub fn ok_payload(a: &Arena, v: Vid) -> Option<Vid> {
    match a.get(v) {
        Val::Ctor { p, f } if p == "Ok" && f.len() == 1 => Some(f[0].1),
        _ => None,
    }
}

/// update request fields that name no stored field
const NOT_STORED: &[(&str, &str)] = &[];
/// fields that an update leaves alone although the request carries them
const FIXED: &[(&str, &str)] = &[("UpdatePropertyRequest", "name")];
/// fields every update stamps
const STAMPS: &[&str] = &["updated_at", "updated_by"];

pub fn check_update(ck: &mut Ck) {
    ck.rule("each update operation interpreted once per request field (only that field supplied) and once with none: the stored and the returned entity equal the previously stored one except for that field, which carries the supplied value, and the update stamps");
    ck.rule("optional property type: absent and present-but-empty stay distinct through every helper");
    let m = ck.m;
    let mut seen = BTreeSet::new();
    for f in m.fns.iter().filter(|f| f.krate == "metadata" && f.block.is_some() && f.has_self) {
        let Some((pi, st)) = f.params.iter().enumerate().find_map(|(i, p)| {
            let s = m.structs.get(p.1.path())?;
            (s.name.starts_with("Update") && s.name.ends_with("Request")).then_some((i, s))
        }) else {
            continue;
        };
        seen.insert(st.name.clone());
        let opt: Vec<String> = st.fields.iter().filter(|x| x.1.name() == "OptionalProperty").map(|x| x.0.clone()).collect();
        let mut cases: Vec<Option<&str>> = vec![None];
        cases.extend(opt.iter().map(|s| Some(s.as_str())));
        for c in cases {
            one_update(ck, f, pi, st, c);
        }
    }
    ck.req("update-ops", seen.len() >= 9, "update operations", ("src/metadata/src", 0), format!("only {seen:?} found"));
    optional(ck);
    ck.floor("update-field", 300);
}

fn one_update<'m>(ck: &mut Ck<'m>, f: &'m FnDef, pi: usize, st: &StructDef, set: Option<&str>) {
    let mut it = store_it(ck.m);
    it.precise = true;
    let none = it.a.mk(Val::Ctor { p: "common::types::OptionalProperty::None".into(), f: vec![] });
    let val = it.param("value");
    let some = it.a.mk(Val::Ctor { p: "common::types::OptionalProperty::Some".into(), f: vec![("0".into(), val)] });
    let mut fs = vec![];
    for (n, t) in &st.fields {
        let v = if t.name() == "OptionalProperty" {
            if set == Some(n.as_str()) {
                some
            } else {
                none
            }
        } else {
            it.param(&format!("req.{n}"))
        };
        fs.push((n.clone(), v));
    }
    let req = it.a.mk(Val::Ctor { p: st.path.clone(), f: fs });
    let args: Vec<Vid> = f.params.iter().enumerate().map(|(i, p)| if i == pi { req } else { it.param(&pat_name(&p.0)) }).collect();
    let ex = it.run(f.id, Some(args), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let tag = format!("{}::{}", f.self_name(), f.name);
    let at = (f.file.as_str(), f.line);
    let sc = set.unwrap_or("nothing");
    // stored values
    let mut ents: Vec<(&str, Vid)> = vec![];
    for (_, _, v) in puts(&it) {
        if let Some(a) = is_call(&it.a, v, "serialize") {
            for x in it.a.alts(a[0]) {
                ents.push(("stored", x));
            }
        }
    }
    let stored = ents.len();
    for e in &ex {
        for v in it.a.alts(e.v) {
            if let Some(p) = ok_payload(&it.a, v) {
                for x in it.a.alts(p) {
                    ents.push(("returned", x));
                }
            }
        }
    }
    if !ck.req("update-store", stored > 0 && ents.len() > stored, format!("{tag}[{sc}]"), at, format!("{tag} with {sc} supplied: no stored or no returned entity found")) {
        return;
    }
    let ent_ty = last_ret(&f.ret);
    let Some(es) = ck.m.structs.get(&ent_ty) else {
        ck.fail(format!("anchor:{tag}"), at.0, at.1, format!("entity type of {tag} not found ({ent_ty})"));
        return;
    };
    let fields: Vec<String> = es.fields.iter().map(|x| x.0.clone()).collect();
    if let Some(s) = set {
        ck.req("update-field", fields.iter().any(|x| x == s) || NOT_STORED.contains(&(st.name.as_str(), s)), format!("{tag}.{s}"), at, format!("{tag}: request field {s} has no stored counterpart"));
    }
    for (what, e) in ents {
        let b = base_of(&it.a, e);
        ck.req("update-base", matches!(it.a.get(b), Val::Call { .. } | Val::Field(..) | Val::Payload(..) | Val::Param(_) | Val::Index(..) | Val::Join(_)), format!("{tag}[{sc}].{what}"), at, format!("{tag}: the {what} entity is not the previous one with changes"));
        for fl in &fields {
            let got = it.a.field(e, fl);
            let prev = it.a.field(b, fl);
            let key = format!("{tag}[{sc}].{what}.{fl}");
            if STAMPS.contains(&fl.as_str()) {
                let ok = got != prev && if fl == "updated_by" { roots(&it.a, got) == ["req.updated_by".to_string()].into() } else { it.a.show(got).contains("now()") };
                ck.req("update-field", ok, key, at, format!("{tag}: {fl} must be stamped, is {}", it.a.show_d(got, 4)));
            } else if set == Some(fl.as_str()) && FIXED.contains(&(st.name.as_str(), fl)) {
                ck.req("update-field", got == prev, key, at, format!("{tag} with {sc} supplied: {fl} never changes, is {}", it.a.show_d(got, 4)));
            } else if set == Some(fl.as_str()) {
                ck.req("update-field", roots(&it.a, got) == ["value".to_string()].into() && super::conv::arithmetic(&it.a, got).is_none(), key, at, format!("{tag} with {fl} supplied: {what} {fl} must be the supplied value, is {}", it.a.show_d(got, 4)));
            } else {
                ck.req("update-field", got == prev, key, at, format!("{tag} with {sc} supplied: {what} {fl} must stay as it was, is {}", it.a.show_d(got, 4)));
            }
        }
    }
}
pub fn last_ret(t: &Ty) -> String {
    let t = if t.name() == "Result" { t.arg(0) } else { t.clone() };
    t.path().to_string()
}

fn optional(ck: &mut Ck) {
    let o = "common::types::OptionalProperty";
    case(ck, "optional", "common::types::OptionalProperty::is_none", Some(&format!("{o}::None")), &[], &["true"]);
    case(ck, "optional", "common::types::OptionalProperty::is_none", Some(&format!("{o}::Some(x)")), &[], &["false"]);
    case(ck, "optional", "common::types::OptionalProperty::into", Some(&format!("{o}::None")), &[], &["OptionalProperty::None"]);
    case(ck, "optional", "common::types::OptionalProperty::into", Some(&format!("{o}::Some(x)")), &[], &["OptionalProperty::Some{0: .into(x)}"]);
    case(ck, "optional", "common::types::OptionalProperty::try_into", Some(&format!("{o}::None")), &[], &["Ok{0: OptionalProperty::None}"]);
    case(ck, "optional", "common::types::OptionalProperty::try_into", Some(&format!("{o}::Some(x)")), &[], &["Ok{0: OptionalProperty::Some{0: .try_into(x)}}", "Err{0: .try_into(x)~Err.0}"]);
    if let Some(f) = ck.func("common::types::OptionalProperty::map") {
        for v in ["None", "Some(x)"] {
            let mut it = fresh(ck);
            let s = term(&mut it, &format!("{o}::{v}"));
            let fp = it.param("f");
            let r = results(ck, &mut it, f, Some(s), Some(vec![fp]), false);
            let g: Vec<String> = r.iter().map(|x| short(&it.a.show(*x))).collect();
            let ok = if v == "None" { g == ["OptionalProperty::None"] } else { g.len() == 1 && g[0].starts_with("OptionalProperty::Some{0: ") && roots(&it.a, r[0]).contains("x") && it.events.iter().any(|e| e.args.iter().any(|a| it.a.show(*a) == "x")) };
            ck.req("optional", ok, format!("OptionalProperty::map({v})"), (&f.file, f.line), format!("map({v}) gives {g:?}"));
        }
    }
    if let Some(f) = ck.func("common::types::OptionalProperty::insert") {
        for v in ["None", "Some(x)"] {
            let mut it = fresh(ck);
            let s = term(&mut it, &format!("{o}::{v}"));
            let y = it.param("y");
            let ex = it.run(f.id, Some(vec![y]), Some(s));
            ck.absorb(&it);
            let g: Vec<String> = ex.iter().map(|e| it.final_of(&e.s, "self").map(|x| short(&it.a.show(x))).unwrap_or("?".into())).collect();
            ck.req("optional", g == ["OptionalProperty::Some{0: y}"], format!("OptionalProperty::insert({v})"), (&f.file, f.line), format!("insert must leave the given value, leaves {g:?}"));
        }
    }
    if let Some(f) = ck.impl_fn("common", "OptionalProperty", "Serialize", "", "serialize") {
        let mut it = fresh(ck);
        let s = term(&mut it, &format!("{o}::Some(x)"));
        let p = it.param("ser");
        let r = results(ck, &mut it, f, Some(s), Some(vec![p]), false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        ck.req("optional", g == [".serialize_some(ser, x)"], "OptionalProperty::serialize", (&f.file, f.line), format!("a present property must be written as its value, is {g:?}"));
        let mut it = fresh(ck);
        let s = term(&mut it, &format!("{o}::None"));
        let p = it.param("ser");
        let r = results(ck, &mut it, f, Some(s), Some(vec![p]), false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        ck.req("optional", g.is_empty() || g == [".serialize_none(ser)"], "OptionalProperty::serialize(None)", (&f.file, f.line), format!("an absent property must not be written as a value, is {g:?}"));
    }
    if let Some(f) = ck.impl_fn("common", "OptionalProperty", "Deserialize", "", "deserialize") {
        let mut it = fresh(ck);
        let r = results(ck, &mut it, f, None, None, false);
        let g: Vec<String> = r.iter().map(|x| short(&it.a.show(*x))).collect();
        let ok = g.len() == 1 && g[0].starts_with("map(") && g[0].contains("deserialize(de) => OptionalProperty::Some{0: elem(") || g.iter().any(|s| s.starts_with("Ok{0: OptionalProperty::Some{0: ")) && g.iter().all(|s| s.starts_with("Ok{0: OptionalProperty::Some{0: ") || s.starts_with("Err{") && s.contains("deserialize(de)"));
        ck.req("optional", ok, "OptionalProperty::deserialize", (&f.file, f.line), format!("a property that is present must be read as present, is {g:?}"));
    }
    ck.floor("optional", 13);
}

/// entity fields not taken from the create request: (entity, field, what the term must look like)
const FRESH: &[(&str, &str, &str)] = &[
    ("*", "id", "next_seq"),
    ("*", "created_at", "now()"),
    ("*", "updated_at", "None"),
    ("*", "updated_by", "None"),
    ("*", "project_id", "=project_id"),
    ("*", "organization_id", "=organization_id"),
    ("Property", "order", "next_zero_seq"),
];
/// initial values of fields the request does not carry
const CONSTS: &[(&str, &str)] = &[
    ("Project.events_count", "0"),
    ("Organization.members", "[(req.created_by, OrganizationRole::Owner) | ]"),
    ("Bookmark.id", "~thread_rng("),
];
pub fn check_create(ck: &mut Ck) {
    ck.rule("each create operation interpreted with a symbolic request: every field of the stored and of the returned entity is its namesake request field, a fresh sequence number, the current time, the scope argument or empty");
    let m = ck.m;
    let mut seen = BTreeSet::new();
    for f in m.fns.iter().filter(|f| f.krate == "metadata" && f.block.is_some() && f.has_self) {
        let Some((pi, st)) = f.params.iter().enumerate().find_map(|(i, p)| {
            let s = m.structs.get(p.1.path())?;
            (s.name.starts_with("Create") && s.name.ends_with("Request")).then_some((i, s))
        }) else {
            continue;
        };
        seen.insert(st.name.clone());
        let mut it = store_it(m);
        it.precise = true;
        let args: Vec<Vid> = f.params.iter().enumerate().map(|(i, p)| if i == pi { it.param("req") } else { it.param(&pat_name(&p.0)) }).collect();
        let ex = it.run(f.id, Some(args), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let tag = format!("{}::{}", f.self_name(), f.name);
        let at = (f.file.as_str(), f.line);
        let ent_ty = last_ret(&f.ret);
        let Some(es) = m.structs.get(&ent_ty) else { continue };
        let mut ents: Vec<(&str, Vid)> = vec![];
        for (_, _, v) in puts(&it) {
            if let Some(a) = is_call(&it.a, v, "serialize") {
                for x in it.a.alts(a[0]) {
                    ents.push(("stored", x));
                }
            }
        }
        let stored = ents.len();
        for e in &ex {
            for v in it.a.alts(e.v) {
                if let Some(p) = ok_payload(&it.a, v) {
                    for x in it.a.alts(p) {
                        ents.push(("returned", x));
                    }
                }
            }
        }
        ck.req("create-store", stored > 0 && ents.len() > stored, tag.clone(), at, format!("{tag}: no stored or no returned entity found"));
        for (what, e) in ents {
            let built = matches!(it.a.get(base_of(&it.a, e)), Val::Ctor { .. });
            if !built {
                // an existing entity handed back by get-or-create, or the stored one read back
                let s = it.a.show_d(e, 8);
                ck.req("create-store", what == "returned" && (s.contains("deserialize(") || s.contains("_cache")) || what == "stored" && ent_ty.ends_with("::Organization") && s.starts_with("metadata::accounts::deserialize("), format!("{tag}.{what}~read"), at, format!("{tag}: {what} entity comes from {s}"));
                continue;
            }
            for (fl, _) in &es.fields {
                let got = it.a.field(e, fl);
                let key = format!("{tag}.{what}.{fl}");
                let inreq = st.fields.iter().any(|x| &x.0 == fl);
                let r = roots(&it.a, got);
                let sh = it.a.show_d(got, 6);
                let fresh = FRESH.iter().find(|x| x.1 == fl && (x.0 == "*" || x.0 == es.name));
                let ok = if let Some(c) = CONSTS.iter().find(|c| c.0 == format!("{}.{fl}", es.name)) {
                    short(&sh) == c.1 || c.1.starts_with('~') && sh.contains(&c.1[1..])
                } else if let Some((_, _, w)) = fresh {
                    match w.strip_prefix('=') {
                        Some(p) => r == [p.to_string()].into() || r == [format!("req.{fl}")].into(),
                        None if *w == "None" => matches!(ctor(&it.a, got), Some(("None", _))),
                        None => last_of(sh.split('(').next().unwrap()) == w.trim_end_matches("()") || r == [format!("req.{fl}")].into(),
                    }
                } else if inreq {
                    access(&it.a, got).as_deref() == Some(format!("req.{fl}").as_str())
                } else {
                    false
                };
                ck.req("create-field", ok, key, at, format!("{tag}: {what} {fl} is {sh}"));
            }
        }
    }
    ck.req("create-ops", seen.len() >= 10, "create operations", ("src/metadata/src", 0), format!("only {seen:?} found"));
    ck.floor("create-field", 150);
}

const WRITES: &[&str] = &["put", "delete", "insert_index", "update_index", "delete_index", "next_seq", "next_zero_seq", "merge"];

/// the operations of the metadata stores: methods with self.db that do not join a caller's transaction
pub fn operations<'m>(m: &'m Model) -> Vec<&'m FnDef> {
    m.fns
        .iter()
        .filter(|f| {
            f.krate == "metadata"
                && f.block.is_some()
                && f.has_self
                && f.trait_.is_none()
                && m.structs.get(f.self_ty.as_ref().map(|t| t.path()).unwrap_or("")).map_or(false, |s| s.fields.iter().any(|x| x.0 == "db"))
                && !f.params.iter().any(|p| p.1.peel().name() == "Transaction")
        })
        .collect()
}

/// receiver of a database access: the transaction term, or None when it is the database itself
pub fn tx_of(a: &Arena, e: &Event) -> Option<Vid> {
    e.args.first().copied().filter(|v| !matches!(access(a, *v).as_deref(), Some("self.db")))
}

pub fn check_tx(ck: &mut Ck) {
    ck.rule("every metadata operation interpreted on all paths: all reads and writes go through the transaction opened in it, none through the bare database; every successful path that wrote has seen commit succeed after the last write; no failing path has committed");
    let mut n = 0;
    for f in operations(ck.m) {
        let mut it = store_it(ck.m);
        it.precise = true;
        it.max_states = 60;
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let tag = format!("{}::{}", f.self_name(), f.name);
        let at = (f.file.as_str(), f.line);
        let writes: Vec<&Event> = it.events.iter().filter(|e| WRITES.contains(&e.name()) && (e.f.starts_with('.') && db_like(&it.a, e) || e.f.starts_with("metadata::index::"))).collect();
        let reads: Vec<&Event> = it.events.iter().filter(|e| e.f == ".get" && e.args.len() == 2 && db_like(&it.a, e) || e.f == ".prefix_iterator" || e.f.starts_with("metadata::index::check") || e.f.starts_with("metadata::index::get")).collect();
        for e in reads.iter() {
            if writes.is_empty() {
                break;
            }
            ck.req("tx-read", tx_of(&it.a, e).is_some(), format!("{tag}:{}", e.name()), (&e.file, e.line), format!("{tag} reads outside its transaction"));
        }
        if writes.is_empty() {
            continue;
        }
        n += 1;
        for e in &writes {
            ck.req("tx-write", tx_of(&it.a, e).is_some(), format!("{tag}:{}", e.name()), (&e.file, e.line), format!("{tag}: {} writes to the database outside the transaction", e.name()));
        }
        let txs: BTreeSet<Vid> = writes.iter().filter_map(|e| tx_of(&it.a, e)).collect();
        let commits: Vec<&Event> = it.events.iter().filter(|e| e.f == ".commit").collect();
        for e in writes.iter().filter(|e| tx_of(&it.a, e).is_some()) {
            let after = commits.iter().filter(|c| c.args.first().copied() == tx_of(&it.a, e)).any(|c| it.called(&e.must, c.val));
            ck.req("tx-order", !after, format!("{tag}:{}~after", e.name()), (&e.file, e.line), format!("{tag}: {} happens after the commit", e.name()));
        }
        for x in &ex {
            for v in it.a.alts(x.v) {
                let err = matches!(ctor(&it.a, v), Some(("Err", _)));
                let wrote = writes.iter().any(|e| tx_of(&it.a, e).is_some() && it.called(&x.s.must, e.val));
                let may_wrote = writes.iter().any(|e| tx_of(&it.a, e).is_some() && it.called(&x.s.may, e.val));
                if !err && may_wrote {
                    let ok = commits.iter().any(|c| c.args.first().map_or(false, |t| txs.contains(t)) && it.has_ok(&x.s.must, c.val));
                    ck.req("tx-commit", ok, format!("{tag}~ok"), (&f.file, x.line), format!("{tag}: succeeds without a successful commit after writing"));
                }
                if err && wrote {
                    let cm: Vec<&&Event> = commits.iter().filter(|c| it.called(&x.s.may, c.val)).collect();
                    let own = cm.iter().any(|c| mentions(&it.a, v, c.val));
                    ck.req("tx-abort", cm.is_empty() || own, format!("{tag}~err"), (&f.file, x.line), format!("{tag}: fails although its writes were committed: {}", it.a.show_d(v, 3)));
                }
            }
        }
    }
    ck.req("tx-ops", n >= 40, "writing operations", ("src/metadata/src", 0), format!("only {n} writing operations found"));
    ck.floor("tx-write", 80);
    ck.floor("tx-commit", 35);
}
pub fn mentions(a: &Arena, v: Vid, x: Vid) -> bool {
    let mut hit = false;
    a.walk(v, &mut |i, _| {
        hit |= i == x;
        true
    });
    hit
}
/// the receiver is the database or a transaction on it (not a cache or a map)
pub fn db_like(a: &Arena, e: &Event) -> bool {
    let Some(v) = e.args.first() else { return false };
    match a.get(*v) {
        Val::Call { f, .. } => last_of(f) == "transaction",
        Val::Param(p) => p == "tx",
        _ => matches!(access(a, *v).as_deref(), Some("self.db")) || matches!(e.recv_ty.peel().name(), "Transaction" | "TransactionDB"),
    }
}
