//! C25: what the metadata store holds after an operation, and what it answers.
use std::collections::BTreeMap;

use super::calls::*;
use crate::model::*;
use crate::report::*;
use super::tab::*;

type Db = Vec<(String, String)>;
const K: &str = "metadata-state";

fn world(db: &Db) -> World {
    let mut w = World::new(&["storage"]);
    w.locks = true;
    w.kv = Some(db.clone());
    w.pure_ = vec![("now", "now"), ("from_utf8", "Ok(@)")];
    w
}

fn t(ck: &Ck, s: &str) -> String {
    let mut it = fresh(ck);
    let v = term(&mut it, s);
    txt(&it.a, v)
}

fn dump(d: &Done) {
    if std::env::var("KV").is_ok() {
        eprintln!("out {:?}\ndb {:#?}\nlog {:#?}", d.out, d.db, d.log);
    }
}

/// what an operation must answer: `Ok(..)`, or an error of a variant
fn answers(ck: &Ck, d: &Done, out: &str) -> bool {
    d.out.len() == 1
        && match out.strip_prefix("Err ") {
            Some(v) => d.out.iter().all(|o| o.starts_with("Err(") && o.contains(v)),
            None => d.out.contains(&t(ck, out)),
        }
}

struct Op<'a, 'm> {
    what: String,
    f: &'m FnDef,
    own: &'a str,
    args: Vec<String>,
    db: Db,
    with: Vec<(String, String)>,
}

/// an operation on a store: its answer, and what the store holds afterwards; every step that fails leaves the store as it was
fn op<'a>(ck: &mut Ck<'a>, what: &str, path: &str, own: &str, args: &[&str], db: &Db, out: &str, change: &[(&str, &str)]) {
    let Some(f) = ck.func(path) else { return };
    let o = Op { what: format!("{}: {what}", path.rsplitn(3, "::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::")), f, own, args: args.iter().map(|x| x.to_string()).collect(), db: db.clone(), with: vec![] };
    go(ck, &o, out, change);
}

fn go<'a>(ck: &mut Ck<'a>, o: &Op<'_, 'a>, out: &str, change: &[(&str, &str)]) {
    let args: Vec<&str> = o.args.iter().map(|x| x.as_str()).collect();
    let mk = || o.with.iter().fold(world(&o.db), |w, (l, v)| w.with(l, v));
    let d = mk().run(ck, o.f, Some(o.own), &args);
    dump(&d);
    let at = (d.at.0.clone(), d.at.1);
    let at = (at.0.as_str(), at.1);
    let ok = answers(ck, &d, out);
    ck.req(K, ok, format!("{}:answer", o.what), at, format!("{} must answer {out}, it answers {:?}", o.what, d.out));
    let had: BTreeMap<String, String> = o.db.iter().map(|(k, v)| (k.clone(), t(ck, v))).collect();
    let mut want = had.clone();
    for (k, v) in change {
        if v.is_empty() {
            want.remove(*k);
        } else {
            want.insert(k.to_string(), t(ck, v));
        }
    }
    // copies in memory may be missing, never other than what is stored
    copies(&d.db, &mut want);
    let diff: Vec<String> = want.keys().chain(d.db.keys()).collect::<std::collections::BTreeSet<_>>().into_iter().filter(|k| want.get(*k) != d.db.get(*k)).map(|k| format!("{k} must be {:?}, is {:?}", want.get(k), d.db.get(k))).collect();
    ck.req(K, diff.is_empty(), format!("{}:state", o.what), at, format!("{}: the store is wrong afterwards: {}", o.what, diff.join("; ")));
    if !ok || out.starts_with("Err ") {
        return;
    }
    let mut done = std::collections::BTreeSet::new();
    for l in &d.log {
        if matches!(l.split(' ').next(), Some("lock" | "unlock" | "read" | "write")) || !done.insert(l.clone()) {
            continue;
        }
        let how = if l.starts_with("prefix_iterator") { "[Err(metadata::error::MetadataError::RocksDb(broken))]" } else { "Err(metadata::error::MetadataError::RocksDb(broken))" };
        let e = mk().with(l, how).run(ck, o.f, Some(o.own), &args);
        let mut had = had.clone();
        copies(&e.db, &mut had);
        let ok = !e.out.is_empty() && e.out.iter().all(|x| x.starts_with("Err(")) && e.db == had;
        ck.req(K, ok, format!("{}:{l} fails", o.what), at, format!("{}: when {l} fails it must fail and leave the store as it was, it answers {:?}{}", o.what, e.out, if e.db == had { "" } else { " and the store has changed" }));
    }
}

fn copies(has: &BTreeMap<String, String>, want: &mut BTreeMap<String, String>) {
    want.retain(|k, _| !k.starts_with("cache_") || has.contains_key(k));
    for (k, v) in has {
        if k.starts_with("cache_") && want.values().any(|w| *w == format!("rec({v})")) {
            want.entry(k.clone()).or_insert(v.clone());
        }
    }
}

fn store(xs: &[(&str, &str)]) -> Db {
    xs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

pub fn check(ck: &mut Ck) {
    ck.rule("effects: each operation interpreted on a store with and without the record; the answer and the content of the store after the commit equal the listed ones; each failing step leaves the store as it was");
    dictionaries(ck);
    sessions(ck);
    groups(ck);
    for e in ENTS {
        entity(ck, e);
    }
    members(ck);
    events(ck);
    custom_events(ck);
    backups(ck);
    others(ck);
    properties(ck);
    settings(ck);
}

/// a kind of record that is created, found, listed, changed and removed
struct Ent {
    store: &'static str,
    own: &'static str,
    ent: &'static str,
    noun: &'static str,
    /// of a project or of an organization
    scope: Option<&'static str>,
    ns: &'static str,
    /// fields that name at most one record, and the name of their index; optional ones
    uniq: &'static [(&'static str, &'static str, bool)],
    /// fields of a new record that are neither asked for nor known
    fresh: &'static [(&'static str, &'static str)],
    /// fields that are not stored as asked
    odd: &'static [(&'static str, &'static str)],
    /// the value of a field in every record
    vals: &'static [(&'static str, &'static str)],
    /// what else is stored before and after a new record
    other: &'static [(&'static str, &'static str)],
    with: &'static [(&'static str, &'static str)],
}
const ENTS: &[Ent] = &[
    Ent { store: "metadata::teams::Teams", own: "metadata::teams::Teams{db: db}", ent: "metadata::teams::Team", noun: "Team", scope: Some("organization_id"), ns: "organizations/7/teams", uniq: &[("name", "name", false)], fresh: &[], odd: &[], vals: &[], other: &[], with: &[] },
    Ent { store: "metadata::reports::Reports", own: "metadata::reports::Reports{db: db}", ent: "metadata::reports::Report", noun: "Report", scope: Some("project_id"), ns: "projects/7/reports", uniq: &[], fresh: &[], odd: &[], vals: &[], other: &[], with: &[] },
    Ent { store: "metadata::dashboards::Dashboards", own: "metadata::dashboards::Dashboards{db: db}", ent: "metadata::dashboards::Dashboard", noun: "Dashboard", scope: Some("project_id"), ns: "projects/7/dashboards", uniq: &[], fresh: &[], odd: &[], vals: &[], other: &[], with: &[] },
    Ent { store: "metadata::accounts::Accounts", own: "metadata::accounts::Accounts{db: db}", ent: "metadata::accounts::Account", noun: "Account", scope: None, ns: "accounts", uniq: &[("email", "email", false)], fresh: &[], odd: &[], vals: &[], other: &[], with: &[] },
    Ent { store: "metadata::projects::Projects", own: "metadata::projects::Projects{db: db}", ent: "metadata::projects::Project", noun: "Project", scope: None, ns: "projects", uniq: &[("name", "name", false), ("token", "name", false)], fresh: &[("events_count", "0")], odd: &[], vals: &[], other: &[], with: &[] },
    Ent { store: "metadata::custom_events::CustomEvents", own: "metadata::custom_events::CustomEvents{db: db, events: metadata::events::Events{db: db, dicts: metadata::dictionaries::Dictionaries{db: db}}, max_events_level: 3}", ent: "metadata::custom_events::CustomEvent", noun: "CustomEvent", scope: Some("project_id"), ns: "projects/7/custom_events", uniq: &[("name", "name", false)], fresh: &[], odd: &[], vals: &[("events", "[metadata::custom_events::Event{event: common::query::EventRef::Regular(9), filters: ft_{}}]")], other: &[("projects/7/events/data/9", "rec(ev)")], with: &[] },
    Ent { store: "metadata::events::Events", own: "metadata::events::Events{db: db, dicts: metadata::dictionaries::Dictionaries{db: db}}", ent: "metadata::events::Event", noun: "Event", scope: Some("project_id"), ns: "projects/7/events", uniq: &[("name", "name", false), ("display_name", "display_name", true)], fresh: &[], odd: &[], vals: &[], other: &[("projects/7/dictinaries/tables/events/event/id_seq", "le(2)"), ("projects/7/events/records/id_seq", "le(77)")], with: &[("projects/7/dictinaries/tables/events/event/id_seq", "le(3)"), ("projects/7/dictinaries/tables/events/event/keys/3", "\"name_n\""), ("projects/7/dictinaries/tables/events/event/values/name_n", "le(3)")] },
    Ent { store: "metadata::organizations::Organizations", own: "metadata::organizations::Organizations{db: db, accs: metadata::accounts::Accounts{db: db}}", ent: "metadata::organizations::Organization", noun: "Organization", scope: None, ns: "organizations", uniq: &[("name", "name", false)], fresh: &[("members", "[(9, common::rbac::OrganizationRole::Owner)]")], odd: &[], vals: &[("created_by", "9"), ("members", "[]")], other: &[("accounts/data/9", "rec(metadata::accounts::Account{id: 9, organizations: Some([(2, common::rbac::OrganizationRole::Member)])})")], with: &[("accounts/data/9", "rec(metadata::accounts::Account{id: 9, organizations: Some([(2, common::rbac::OrganizationRole::Member), (5, common::rbac::OrganizationRole::Owner)])})")] },
];

fn fields(ck: &Ck, s: &str) -> Vec<String> {
    ck.m.structs.get(s).map(|s| s.fields.iter().map(|f| f.0.clone()).collect()).unwrap_or_default()
}

fn entity(ck: &mut Ck, e: &Ent) {
    let module = e.ent.rsplitn(2, "::").nth(1).unwrap_or("");
    let all = fields(ck, e.ent);
    let (cr, ur) = (format!("{module}::Create{}Request", e.noun), format!("{module}::Update{}Request", e.noun));
    let (asked, changed) = (fields(ck, &cr), fields(ck, &ur));
    if all.len() < 4 || asked.is_empty() || changed.is_empty() {
        ck.fail(format!("anchor:{}", e.ent), "", 0, format!("{} and its requests were not found", e.ent));
        return;
    }
    let uniq = |f: &str| e.uniq.iter().find(|u| u.0 == f);
    // the value of a field in a record named by a tag
    let val = |f: &str, tag: &str| match uniq(f) {
        Some(u) if u.2 => format!("Some(\"{f}_{tag}\")"),
        Some(_) => format!("\"{f}_{tag}\""),
        None if e.vals.iter().any(|v| v.0 == f) => e.vals.iter().find(|v| v.0 == f).map(|v| v.1.replace("{}", tag)).unwrap_or_default(),
        None => format!("{f}_{tag}"),
    };
    let mk = |id: usize, tag: &str, set: &[(String, String)]| {
        let fs: Vec<String> = all
            .iter()
            .map(|f| {
                let v = match f.as_str() {
                    _ if set.iter().any(|x| x.0 == *f) => set.iter().find(|x| x.0 == *f).map(|x| x.1.clone()).unwrap_or_default(),
                    "id" => id.to_string(),
                    x if Some(x) == e.scope => "7".into(),
                    _ => val(f, tag),
                };
                format!("{f}: {v}")
            })
            .collect();
        format!("{}{{{}}}", e.ent, fs.join(", "))
    };
    let set = |xs: &[(&str, &str)]| xs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let data = |id: usize| format!("{}/data/{id}", e.ns);
    let idx = |f: &str, tag: &str| format!("{}/idx/{}/{f}_{tag}", e.ns, uniq(f).map(|u| u.1).unwrap_or(""));
    let seq = format!("{}id_seq", e.ns);
    let mut db = store(&[(&seq, "le(4)"), (&data(3), &format!("rec({})", mk(3, "x", &[]))), (&data(4), &format!("rec({})", mk(4, "y", &[]))), (&format!("{}e", e.ns), "rec(z)"), (&format!("{}/e", e.ns), "rec(z)"), (&format!("{}0/data/3", e.ns), "rec(z)")]);
    for u in e.uniq {
        db.push((idx(u.0, "x"), "le(3)".into()));
        db.push((idx(u.0, "y"), "le(4)".into()));
    }
    db.extend(store(e.other));
    let sc: Vec<&str> = e.scope.iter().map(|_| "7").collect();
    let arg = |xs: &[&str]| -> Vec<String> { sc.iter().copied().chain(xs.iter().copied()).map(|x| x.to_string()).collect() };
    fn run(ck: &mut Ck, e: &Ent, what: &str, f: &str, args: &[String], db: &Db, out: &str, ch: &[(String, String)]) {
        let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let ch: Vec<(&str, &str)> = ch.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        op(ck, what, &format!("{}::{f}", e.store), e.own, &args, db, out, &ch);
    }
    // create
    let req = |tag: &str| {
        let fs: Vec<String> = asked.iter().map(|f| format!("{f}: {}", if Some(f.as_str()) == e.scope { "7".into() } else { val(f, tag) })).collect();
        format!("{cr}{{{}}}", fs.join(", "))
    };
    let mut st = set(&[("created_at", "now"), ("updated_at", "None"), ("updated_by", "None")]);
    st.extend(set(e.fresh));
    let new = mk(5, "n", &st);
    let mut ch = vec![(seq.clone(), "le(5)".to_string()), (data(5), format!("rec({new})"))];
    ch.extend(e.uniq.iter().map(|u| (idx(u.0, "n"), "le(5)".to_string())));
    ch.extend(store(e.with));
    run(ck, e, "new", "create", &arg(&[&req("n")]), &db, &format!("Ok({new})"), &ch);
    for u in e.uniq {
        let taken = req("n").replace(&format!("{}: {}", u.0, val(u.0, "n")), &format!("{}: {}", u.0, val(u.0, "x")));
        run(ck, e, &format!("taken {}", u.0), "create", &arg(&[&taken]), &db, "Err AlreadyExists", &[]);
    }
    // find
    run(ck, e, "known", "get_by_id", &arg(&["4"]), &db, &format!("Ok({})", mk(4, "y", &[])), &[]);
    run(ck, e, "unknown", "get_by_id", &arg(&["6"]), &db, "Err NotFound", &[]);
    for u in e.uniq {
        let f = format!("get_by_{}", u.0);
        if u.2 || ck.m.fns.iter().all(|x| x.path != format!("{}::{f}", e.store)) {
            continue;
        }
        run(ck, e, "known", &f, &arg(&[&val(u.0, "y")]), &db, &format!("Ok({})", mk(4, "y", &[])), &[]);
        run(ck, e, "unknown", &f, &arg(&[&val(u.0, "n")]), &db, "Err NotFound", &[]);
    }
    run(ck, e, "two", "list", &arg(&[]), &db, &format!("Ok(metadata::metadata::ListResponse{{data: [{}, {}], meta: metadata::metadata::ResponseMetadata{{next: None}}}})", mk(3, "x", &[]), mk(4, "y", &[])), &[]);
    // change
    let upd = |on: &dyn Fn(&str) -> Option<String>| {
        let fs: Vec<String> = changed
            .iter()
            .map(|f| match f.as_str() {
                "updated_by" => "updated_by: ub".to_string(),
                f => format!("{f}: {}", on(f).map(|v| format!("common::types::OptionalProperty::Some({v})")).unwrap_or("common::types::OptionalProperty::None".into())),
            })
            .collect();
        format!("{ur}{{{}}}", fs.join(", "))
    };
    let stamp = || set(&[("updated_at", "Some(now)"), ("updated_by", "Some(ub)")]);
    let r = mk(4, "y", &stamp());
    run(ck, e, "nothing", "update", &arg(&["4", &upd(&|_| None)]), &db, &format!("Ok({r})"), &[(data(4), format!("rec({r})"))]);
    run(ck, e, "unknown", "update", &arg(&["6", &upd(&|_| None)]), &db, "Err NotFound", &[]);
    for f in changed.iter().filter(|f| *f != "updated_by" && !e.odd.iter().any(|o| o.0 == **f)) {
        let mut st = stamp();
        st.push((f.clone(), val(f, "n")));
        let r = mk(4, "y", &st);
        let mut ch = vec![(data(4), format!("rec({r})"))];
        if uniq(f).is_some() {
            ch.push((idx(f, "y"), String::new()));
            ch.push((idx(f, "n"), "le(4)".into()));
        }
        run(ck, e, f, "update", &arg(&["4", &upd(&|g| (g == f).then(|| val(f, "n")))]), &db, &format!("Ok({r})"), &ch);
        if uniq(f).is_some() {
            run(ck, e, &format!("taken {f}"), "update", &arg(&["4", &upd(&|g| (g == f).then(|| val(f, "x")))]), &db, "Err AlreadyExists", &[]);
            let r = mk(4, "y", &stamp());
            run(ck, e, &format!("same {f}"), "update", &arg(&["4", &upd(&|g| (g == f).then(|| val(f, "y")))]), &db, &format!("Ok({r})"), &[(data(4), format!("rec({r})"))]);
        }
        if uniq(f).map_or(false, |u| u.2) {
            let mut st = stamp();
            st.push((f.clone(), "None".into()));
            let r = mk(4, "y", &st);
            run(ck, e, &format!("no {f}"), "update", &arg(&["4", &upd(&|g| (g == f).then(|| "None".into()))]), &db, &format!("Ok({r})"), &[(data(4), format!("rec({r})")), (idx(f, "y"), String::new())]);
        }
    }
    // remove
    let mut ch = vec![(data(4), String::new())];
    ch.extend(e.uniq.iter().map(|u| (idx(u.0, "y"), String::new())));
    run(ck, e, "known", "delete", &arg(&["4"]), &db, &format!("Ok({})", mk(4, "y", &[])), &ch);
    run(ck, e, "unknown", "delete", &arg(&["6"]), &db, "Err NotFound", &[]);
}

fn dictionaries(ck: &mut Ck) {
    let own = "metadata::dictionaries::Dictionaries{db: db}";
    let p = "metadata::dictionaries::Dictionaries::";
    let b = "projects/7/dictinaries/tables/t/d/";
    let a = ["7", "\"t\"", "\"d\"", "\"v\""];
    let (seq, k1, k2, v1, v2) = (format!("{b}id_seq"), format!("{b}keys/4"), format!("{b}keys/5"), format!("{b}values/w"), format!("{b}values/v"));
    let some = store(&[(&seq, "le(4)"), (&k1, "\"w\""), (&v1, "le(4)")]);
    let both = store(&[(&seq, "le(5)"), (&k1, "\"w\""), (&v1, "le(4)"), (&k2, "\"v\""), (&v2, "le(5)")]);
    let first = format!("{b}keys/1");
    op(ck, "first value", &format!("{p}get_key_or_create"), own, &a, &store(&[]), "Ok(1)", &[(&seq, "le(1)"), (&first, "\"v\""), (&v2, "le(1)")]);
    op(ck, "new value", &format!("{p}get_key_or_create"), own, &a, &some, "Ok(5)", &[(&seq, "le(5)"), (&k2, "\"v\""), (&v2, "le(5)")]);
    op(ck, "known value", &format!("{p}get_key_or_create"), own, &a, &both, "Ok(5)", &[]);
    op(ck, "given key", &format!("{p}create_key"), own, &["7", "\"t\"", "\"d\"", "5", "\"v\""], &some, "Ok(())", &[(&k2, "\"v\""), (&v2, "le(5)")]);
    op(ck, "known key", &format!("{p}get_value"), own, &["7", "\"t\"", "\"d\"", "4"], &both, "Ok(\"w\")", &[]);
    op(ck, "unknown key", &format!("{p}get_value"), own, &["7", "\"t\"", "\"d\"", "6"], &both, "Err NotFound", &[]);
    op(ck, "known value", &format!("{p}get_key"), own, &a, &both, "Ok(5)", &[]);
    op(ck, "unknown value", &format!("{p}get_key"), own, &a, &some, "Err NotFound", &[]);
}

fn sessions(ck: &mut Ck) {
    let own = "metadata::sessions::Sessions{db: db}";
    let p = "metadata::sessions::Sessions::";
    let s = |u: usize, at: &str| format!("rec(metadata::sessions::Session{{user_id: {u}, created_at: {at}}})");
    let k = |u: usize| format!("projects/7/sessions/data{u}");
    let db = store(&[(&k(3), &s(3, "t3")), (&k(4), &s(4, "t4")), ("projects/7/sessionx", "rec(x)"), ("projects/8/sessions/data3", "rec(y)")]);
    op(ck, "known", &format!("{p}get_by_user_id"), own, &["7", "4"], &db, "Ok(metadata::sessions::Session{user_id: 4, created_at: t4})", &[]);
    op(ck, "unknown", &format!("{p}get_by_user_id"), own, &["7", "5"], &db, "Err NotFound", &[]);
    op(ck, "new session", &format!("{p}set_current_time"), own, &["7", "5", "tn"], &db, "Ok(true)", &[(&k(5), &s(5, "tn"))]);
    op(ck, "running session", &format!("{p}set_current_time"), own, &["7", "4", "tn"], &db, "Ok(false)", &[(&k(4), &s(4, "tn"))]);
    op(ck, "two sessions", &format!("{p}clear_project"), own, &["7"], &db, "Ok(())", &[(&k(3), ""), (&k(4), "")]);
}

fn groups(ck: &mut Ck) {
    let own = "metadata::groups::Groups{db: db}";
    let p = "metadata::groups::Groups::";
    let pv = |id: usize, v: &str| format!("metadata::groups::PropertyValue{{property_id: {id}, value: {v}}}");
    let gv = |id: usize, vs: &[String]| format!("metadata::groups::GroupValues{{id: {id}, values: [{}]}}", vs.join(", "));
    let rec = |x: &str| format!("rec({x})");
    let (seq, anon, real) = ("projects/7/groups/2id_seq", "projects/7/groups/2/anonymous/keys/a", "projects/7/groups/2/real/keys/k");
    let old = gv(4, &[pv(1, "v1"), pv(2, "v2")]);
    let (o, r) = (gv(9, &[pv(2, "n2"), pv(3, "n3")]), rec(&old));
    let vals = format!("[{}, {}]", pv(2, "n2"), pv(3, "n3"));
    let none = store(&[(seq, "le(8)")]);
    let known = store(&[(seq, "le(8)"), (anon, "le(5)"), (real, &r)]);
    let f = |n: &str| format!("{p}{n}");
    op(ck, "unknown", &f("get_or_create_anonymous_id"), own, &["7", "2", "\"a\""], &none, "Ok(9)", &[(seq, "le(9)"), (anon, "le(9)")]);
    op(ck, "known", &f("get_or_create_anonymous_id"), own, &["7", "2", "\"a\""], &known, "Ok(5)", &[]);
    let m = ["7", "2", "\"a\"", "\"k\"", &vals];
    op(ck, "both unknown", &f("merge_with_anonymous"), own, &m, &none, &format!("Ok({o})"), &[(seq, "le(9)"), (anon, "le(9)"), (real, &rec(&o))]);
    let with = gv(5, &[pv(2, "n2"), pv(3, "n3")]);
    op(ck, "anonymous id known", &f("merge_with_anonymous"), own, &m, &store(&[(seq, "le(8)"), (anon, "le(5)")]), &format!("Ok({with})"), &[(real, &rec(&with))]);
    op(ck, "known", &f("merge_with_anonymous"), own, &m, &known, &format!("Ok({old})"), &[]);
    let m = ["7", "2", "\"k\"", &vals];
    op(ck, "unknown", &f("get_or_create"), own, &m, &none, &format!("Ok({o})"), &[(seq, "le(9)"), (real, &rec(&o))]);
    op(ck, "known", &f("get_or_create"), own, &m, &known, &format!("Ok({old})"), &[]);
    op(ck, "unknown", &f("create_or_update"), own, &m, &none, &format!("Ok({o})"), &[(seq, "le(9)"), (real, &rec(&o))]);
    let new = gv(4, &[pv(1, "v1"), pv(2, "n2"), pv(3, "n3")]);
    op(ck, "known", &f("create_or_update"), own, &m, &known, &format!("Ok({new})"), &[(real, &rec(&new))]);
    let g = |id: usize, n: &str| format!("metadata::groups::Group{{id: {id}, name: {n:?}, display_name: dn}}");
    let gseq = "projects/7/groupsid_seq";
    let (ga, gb) = ("projects/7/groups/names/a", "projects/7/groups/names/b");
    let two = store(&[(gseq, "le(1)"), (ga, &rec(&g(0, "a"))), (gb, &rec(&g(1, "b"))), ("projects/7/groups/zz", "rec(x)")]);
    op(ck, "two groups", &f("list_groups"), own, &["7"], &two, &format!("Ok(metadata::metadata::ListResponse{{data: [{}, {}], meta: metadata::metadata::ResponseMetadata{{next: None}}}})", g(0, "a"), g(1, "b")), &[]);
    op(ck, "first", &f("get_or_create_group"), own, &["7", "\"a\"", "dn"], &store(&[]), &format!("Ok({})", g(0, "a")), &[(gseq, "le(0)"), (ga, &rec(&g(0, "a")))]);
    op(ck, "third", &f("get_or_create_group"), own, &["7", "\"c\"", "dn"], &two, &format!("Ok({})", g(2, "c")), &[(gseq, "le(2)"), ("projects/7/groups/names/c", &rec(&g(2, "c")))]);
    op(ck, "known", &f("get_or_create_group"), own, &["7", "\"b\"", "dn"], &two, &format!("Ok({})", g(1, "b")), &[]);
    op(ck, "too many", &f("get_or_create_group"), own, &["7", "\"c\"", "dn"], &store(&[(gseq, "le(4)")]), "Err BadRequest", &[]);
    let rs = "projects/7/groups/2/records/id_seq";
    op(ck, "next", &f("next_record_sequence"), own, &["7", "2"], &store(&[(rs, "le(8)"), (seq, "le(3)")]), "Ok(9)", &[(rs, "le(9)")]);
}

/// who belongs to an organization: the record of the organization and those of the accounts say the same
fn members(ck: &mut Ck) {
    let own = "metadata::organizations::Organizations{db: db, accs: metadata::accounts::Accounts{db: db}}";
    let p = |n: &str| format!("metadata::organizations::Organizations::{n}");
    let list = |xs: &[(usize, &str)]| format!("[{}]", xs.iter().map(|(i, r)| format!("({i}, common::rbac::OrganizationRole::{r})")).collect::<Vec<_>>().join(", "));
    let org = |xs: &[(usize, &str)]| format!("rec(metadata::organizations::Organization{{id: 4, name: \"n\", members: {}}})", list(xs));
    let acc = |id: usize, xs: Option<&[(usize, &str)]>| format!("rec(metadata::accounts::Account{{id: {id}, email: \"e{id}\", organizations: {}}})", xs.map_or("None".into(), |x| format!("Some({})", list(x))));
    let (o, a8, a9) = ("organizations/data/4", "accounts/data/8", "accounts/data/9");
    let m = org(&[(8, "Owner"), (9, "Member")]);
    let (m8, m9) = (acc(8, Some(&[(4, "Owner")])), acc(9, Some(&[(2, "Admin"), (4, "Member")])));
    let both = store(&[(o, &m), (a8, &m8), (a9, &m9)]);
    let one = org(&[(8, "Owner")]);
    let admin = "common::rbac::OrganizationRole::Admin";
    let f = p("add_member");
    let with = org(&[(8, "Owner"), (9, "Admin")]);
    let first = acc(9, None);
    op(ck, "first organization", &f, own, &["4", "9", admin], &store(&[(o, &one), (a8, &m8), (a9, &first)]), "Ok(())", &[(o, &with), (a9, &acc(9, Some(&[(4, "Admin")])))]);
    let second = acc(9, Some(&[(2, "Admin")]));
    op(ck, "second organization", &f, own, &["4", "9", admin], &store(&[(o, &one), (a8, &m8), (a9, &second)]), "Ok(())", &[(o, &with), (a9, &acc(9, Some(&[(2, "Admin"), (4, "Admin")])))]);
    op(ck, "member already", &f, own, &["4", "9", admin], &both, "Err AlreadyExists", &[]);
    op(ck, "unknown account", &f, own, &["4", "7", admin], &both, "Err NotFound", &[]);
    op(ck, "unknown organization", &f, own, &["3", "9", admin], &both, "Err NotFound", &[]);
    op(ck, "account says member", &f, own, &["4", "9", admin], &store(&[(o, &one), (a9, &m9)]), "Err AlreadyExists", &[]);
    let f = p("remove_member");
    op(ck, "member", &f, own, &["4", "9"], &both, "Ok(())", &[(o, &one), (a9, &acc(9, Some(&[(2, "Admin")])))]);
    op(ck, "not a member", &f, own, &["4", "7"], &both, "Err NotFound", &[]);
    op(ck, "unknown organization", &f, own, &["3", "9"], &both, "Err NotFound", &[]);
    op(ck, "account says no member", &f, own, &["4", "9"], &store(&[(o, &m), (a9, &second)]), "Err NotFound", &[]);
    let f = p("delete");
    let orgv = |xs: &[(usize, &str)]| format!("Ok(metadata::organizations::Organization{{id: 4, name: \"n\", members: {}}})", list(xs));
    let ix = "organizations/idx/name/n";
    let gone = orgv(&[(8, "Owner"), (9, "Member")]);
    let mut had = both.clone();
    had.push((ix.into(), "le(4)".into()));
    op(ck, "two members", &f, own, &["4"], &had, &gone, &[(o, ""), (ix, ""), (a8, &acc(8, Some(&[]))), (a9, &acc(9, Some(&[(2, "Admin")])))]);
    let left = store(&[(o, &m), (ix, "le(4)"), (a9, &m9)]);
    op(ck, "member without account", &f, own, &["4"], &left, &gone, &[(o, ""), (ix, ""), (a9, &acc(9, Some(&[(2, "Admin")])))]);
    let accv = format!("Ok(metadata::accounts::Account{{id: 9, email: \"e9\", organizations: Some({})}})", list(&[(2, "Admin"), (4, "Member")]));
    let mut had = both.clone();
    had.push(("accounts/idx/email/e9".into(), "le(9)".into()));
    op(ck, "a member", "metadata::accounts::Accounts::delete", "metadata::accounts::Accounts{db: db}", &["9"], &had, &accv, &[(a9, ""), ("accounts/idx/email/e9", ""), (o, &one)]);
    let f = p("change_member_role");
    op(ck, "member", &f, own, &["4", "9", admin], &both, "Ok(())", &[(o, &with), (a9, &acc(9, Some(&[(2, "Admin"), (4, "Admin")])))]);
    op(ck, "not a member", &f, own, &["4", "7", admin], &both, "Err NotFound", &[]);
    op(ck, "unknown organization", &f, own, &["3", "9", admin], &both, "Err NotFound", &[]);
    op(ck, "account says no member", &f, own, &["4", "9", admin], &store(&[(o, &m), (a9, &second)]), "Err NotFound", &[]);
}

fn events(ck: &mut Ck) {
    let own = "metadata::events::Events{db: db, dicts: metadata::dictionaries::Dictionaries{db: db}}";
    let p = |n: &str| format!("metadata::events::Events::{n}");
    let all = fields(ck, "metadata::events::Event");
    let ev = |id: usize, set: &[(&str, &str)]| {
        let fs: Vec<String> = all
            .iter()
            .map(|f| match set.iter().find(|x| x.0 == f) {
                Some(x) => format!("{f}: {}", x.1),
                None => match f.as_str() {
                    "id" => format!("id: {id}"),
                    "project_id" => "project_id: 7".into(),
                    "name" => "name: \"e\"".into(),
                    "display_name" => "display_name: None".into(),
                    "event_properties" | "user_properties" => format!("{f}: None"),
                    f => format!("{f}: {f}_v"),
                },
            })
            .collect();
        format!("metadata::events::Event{{{}}}", fs.join(", "))
    };
    let (k, ix, seq) = ("projects/7/events/data/4", "projects/7/events/idx/name/e", "projects/7/eventsid_seq");
    let rec = |s: &str| format!("rec({s})");
    let other = |f: &str| if f == "event_properties" { "user_properties" } else { "event_properties" };
    for (f, n) in [("event_properties", "event"), ("user_properties", "user")] {
        let o = other(f);
        let e = |v: &str| ev(4, &[(f, v), (o, "Some([3])")]);
        let (att, det) = (p(&format!("attach_{n}_property")), p(&format!("detach_{n}_property")));
        let r = |v: &str| store(&[(k, &rec(&e(v))), (ix, "le(4)")]);
        op(ck, "first", &att, own, &["7", "4", "3"], &r("None"), &format!("Ok({})", e("Some([3])")), &[(k, &rec(&e("Some([3])")))]);
        op(ck, "second", &att, own, &["7", "4", "3"], &r("Some([2])"), &format!("Ok({})", e("Some([2, 3])")), &[(k, &rec(&e("Some([2, 3])")))]);
        op(ck, "attached already", &att, own, &["7", "4", "3"], &r("Some([2, 3])"), "Err AlreadyExists", &[]);
        op(ck, "unknown event", &att, own, &["7", "5", "3"], &r("None"), "Err NotFound", &[]);
        op(ck, "attached", &det, own, &["7", "4", "3"], &r("Some([2, 3])"), &format!("Ok({})", e("Some([2])")), &[(k, &rec(&e("Some([2])")))]);
        op(ck, "none attached", &det, own, &["7", "4", "3"], &r("None"), "Err NotFound", &[]);
        op(ck, "another attached", &det, own, &["7", "4", "3"], &r("Some([2])"), "Err NotFound", &[]);
        op(ck, "unknown event", &det, own, &["7", "5", "3"], &r("Some([3])"), "Err NotFound", &[]);
    }
    let f = p("try_attach_properties");
    for (had, has) in [("None", "Some([3, 5])"), ("Some([5])", "Some([5, 3])"), ("Some([3, 5, 9])", "Some([3, 5, 9])")] {
        let e = |v: &str| ev(4, &[("event_properties", v), ("user_properties", "Some([3])")]);
        op(ck, &format!("two, {had} attached"), &f, own, &["7", "4", "[3, 5]"], &store(&[(k, &rec(&e(had)))]), "Ok(())", &[(k, &rec(&e(has)))]);
    }
    op(ck, "unknown event", &f, own, &["7", "4", "[3]"], &store(&[]), "Err NotFound", &[]);
    let req = "metadata::events::CreateEventRequest{created_by: created_by_v, tags: tags_v, name: \"e\", display_name: None, description: description_v, status: status_v, is_system: is_system_v, event_properties: None, user_properties: None, custom_properties: custom_properties_v}";
    let f = p("get_or_create");
    let known = store(&[(k, &rec(&ev(4, &[]))), (ix, "le(4)"), (seq, "le(4)")]);
    op(ck, "known", &f, own, &["7", req], &known, &format!("Ok({})", ev(4, &[])), &[]);
    let new = ev(1, &[("created_at", "now"), ("updated_at", "None"), ("updated_by", "None")]);
    let d = "projects/7/dictinaries/tables/events/event/";
    op(ck, "unknown", &f, own, &["7", req], &store(&[]), &format!("Ok({new})"), &[("projects/7/events/data/1", &rec(&new)), (ix, "le(1)"), (seq, "le(1)"), (&format!("{d}id_seq"), "le(1)"), (&format!("{d}keys/1"), "\"e\""), (&format!("{d}values/e"), "le(1)")]);
    let rs = "projects/7/events/recordsid_seq";
    op(ck, "first", &p("next_record_sequence"), own, &["7"], &store(&[(seq, "le(3)")]), "Ok(1)", &[(rs, "le(1)")]);
    op(ck, "next", &p("next_record_sequence"), own, &["7"], &store(&[(rs, "le(8)"), (seq, "le(3)")]), "Ok(9)", &[(rs, "le(9)")]);
}

/// what a custom event may refer to
fn custom_events(ck: &mut Ck) {
    let own = "metadata::custom_events::CustomEvents{db: db, events: metadata::events::Events{db: db, dicts: metadata::dictionaries::Dictionaries{db: db}}, max_events_level: 1}";
    let er = |r: &str| format!("metadata::custom_events::Event{{event: common::query::EventRef::{r}, filters: None}}");
    let ce = |id: usize, name: &str, refs: &[&str], up: bool| format!("metadata::custom_events::CustomEvent{{id: {id}, created_at: now, updated_at: {}, created_by: cb, updated_by: {}, project_id: 7, tags: tg, name: {name:?}, description: ds, status: st, is_system: sy, events: [{}]}}", if up { "Some(now)" } else { "None" }, if up { "Some(ub)" } else { "None" }, refs.iter().map(|r| er(r)).collect::<Vec<_>>().join(", "));
    let key = |id: usize| format!("projects/7/custom_events/data/{id}");
    let seq = "projects/7/custom_eventsid_seq";
    let mut db = store(&[("projects/7/events/data/9", "rec(metadata::events::Event{id: 9})"), ("projects/7/events/idx/name/known", "le(9)"), (seq, "le(6)")]);
    // 1 -> event, 2 -> 1, 3 -> 2, 4 -> 3, 5 -> event and 6, 6 -> event
    for (id, refs) in [(1, vec!["Regular(9)"]), (2, vec!["Custom(1)"]), (3, vec!["Custom(2)"]), (4, vec!["Custom(3)"]), (5, vec!["Regular(9)", "Custom(6)"]), (6, vec!["Regular(9)"])] {
        db.push((key(id), format!("rec({})", ce(id, &format!("c{id}"), &refs, false))));
    }
    op(ck, "at most three levels", "metadata::custom_events::CustomEvents::new", own, &["db", "evs"], &store(&[]), "metadata::custom_events::CustomEvents{db: db, events: evs, max_events_level: 3}", &[]);
    let cases: &[(&str, &[&str], &str)] = &[
        ("known event", &["Regular(9)"], ""),
        ("known event by name", &["RegularName(\"known\")"], ""),
        ("known custom event", &["Custom(6)"], ""),
        ("two levels", &["Custom(1)"], ""),
        ("several", &["Regular(9)", "Custom(1)", "RegularName(\"known\")"], ""),
        ("none", &[], "Err BadRequest"),
        ("unknown event", &["Regular(8)"], "Err NotFound"),
        ("unknown event by name", &["RegularName(\"other\")"], "Err NotFound"),
        ("unknown custom event", &["Custom(8)"], "Err NotFound"),
        ("unknown among known", &["Regular(9)", "Regular(8)"], "Err NotFound"),
        ("three levels", &["Custom(2)"], "Err BadRequest"),
    ];
    for (what, refs, bad) in cases {
        let evs = refs.iter().map(|r| er(r)).collect::<Vec<_>>().join(", ");
        let req = format!("metadata::custom_events::CreateCustomEventRequest{{created_by: cb, tags: tg, name: \"n\", description: ds, status: st, is_system: sy, events: [{evs}]}}");
        let new = ce(7, "n", refs, false);
        let (out, ch) = if bad.is_empty() { (format!("Ok({new})"), vec![(key(7), format!("rec({new})")), ("projects/7/custom_events/idx/name/n".to_string(), "le(7)".to_string()), (seq.to_string(), "le(7)".to_string())]) } else { (bad.to_string(), vec![]) };
        let ch: Vec<(&str, &str)> = ch.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        op(ck, &format!("refers to {what}"), "metadata::custom_events::CustomEvents::create", own, &["7", &req], &db, &out, &ch);
    }
    let updates: &[(&str, &[&str], &str)] = &[
        ("another", &["Custom(1)"], ""),
        ("none", &[], "Err BadRequest"),
        ("unknown event", &["Regular(8)"], "Err NotFound"),
        ("itself", &["Custom(6)"], "Err AlreadyExists"),
        ("one that refers to it", &["Custom(5)"], "Err AlreadyExists"),
    ];
    for (what, refs, bad) in updates {
        let evs = refs.iter().map(|r| er(r)).collect::<Vec<_>>().join(", ");
        let no = "common::types::OptionalProperty::None";
        let req = format!("metadata::custom_events::UpdateCustomEventRequest{{updated_by: ub, tags: {no}, name: {no}, description: {no}, status: {no}, is_system: {no}, events: common::types::OptionalProperty::Some([{evs}])}}");
        let new = ce(6, "c6", refs, true);
        let (out, ch) = if bad.is_empty() { (format!("Ok({new})"), vec![(key(6), format!("rec({new})"))]) } else { (bad.to_string(), vec![]) };
        let ch: Vec<(&str, &str)> = ch.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        op(ck, &format!("refers to {what}"), "metadata::custom_events::CustomEvents::update", own, &["7", "6", &req], &db, &out, &ch);
    }
}

fn backups(ck: &mut Ck) {
    let own = "metadata::backups::Backups{db: db}";
    let p = |n: &str| format!("metadata::backups::Backups::{n}");
    let b = |id: usize, st: &str, up: &str| format!("metadata::backups::Backup{{id: {id}, created_at: now, updated_at: {up}, provider: pv, status: metadata::backups::Status::{st}, is_encrypted: en, password: pw}}");
    let rec = |s: String| format!("rec({s})");
    let seq = "system/backupsid_seq";
    let key = |id: usize| format!("system/backups/data/{id}");
    let req = |st: &str| format!("metadata::backups::CreateBackupRequest{{provider: pv, password: pw, is_encrypted: en, status: metadata::backups::Status::{st}}}");
    let none = "None";
    for (what, had, new, ok) in [
        ("none idle", "Completed", "Idle", true),
        ("one running", "InProgress(3)", "Idle", true),
        ("one idle", "Idle", "Idle", false),
        ("not idle while one is", "Idle", "Completed", true),
    ] {
        let db = store(&[(seq, "le(4)"), (&key(3), &rec(b(3, "Completed", none))), (&key(4), &rec(b(4, had, none))), ("system/backupz", "rec(z)")]);
        let r = b(5, new, none);
        if ok {
            op(ck, what, &p("create"), own, &[&req(new)], &db, &format!("Ok({r})"), &[(seq, "le(5)"), (&key(5), &rec(r.clone()))]);
        } else {
            op(ck, what, &p("create"), own, &[&req(new)], &db, "Err AlreadyExists", &[]);
        }
    }
    let db = store(&[(seq, "le(4)"), (&key(3), &rec(b(3, "Completed", none))), (&key(4), &rec(b(4, "Idle", none))), ("system/backupz", "rec(z)"), ("system/backups/e", "rec(z)")]);
    op(ck, "known", &p("get_by_id"), own, &["4"], &db, &format!("Ok({})", b(4, "Idle", none)), &[]);
    op(ck, "unknown", &p("get_by_id"), own, &["5"], &db, "Err NotFound", &[]);
    op(ck, "known", &p("update_status"), own, &["4", "metadata::backups::Status::Uploading"], &db, "Ok(())", &[(&key(4), &rec(b(4, "Uploading", "Some(now)")))]);
    op(ck, "unknown", &p("update_status"), own, &["5", "metadata::backups::Status::Uploading"], &db, "Err NotFound", &[]);
    op(ck, "known", &p("delete"), own, &["4"], &db, "Ok(())", &[(&key(4), "")]);
    op(ck, "unknown", &p("delete"), own, &["5"], &db, "Err NotFound", &[]);
    op(ck, "two", &p("list"), own, &[], &db, &format!("Ok(metadata::metadata::ListResponse{{data: [{}, {}], meta: metadata::metadata::ResponseMetadata{{next: None}}}})", b(3, "Completed", none), b(4, "Idle", none)), &[]);
}

fn others(ck: &mut Ck) {
    let own = "metadata::projects::Projects{db: db}";
    let pr = |n: &str| format!("rec(metadata::projects::Project{{id: 4, name: \"n\", token: \"t\", events_count: {n}}})");
    let k = "projects/data/4";
    op(ck, "known", "metadata::projects::Projects::increment_events_counter", own, &["4"], &store(&[(k, &pr("41"))]), "Ok(())", &[(k, &pr("42"))]);
    op(ck, "unknown", "metadata::projects::Projects::increment_events_counter", own, &["5"], &store(&[(k, &pr("41"))]), "Err NotFound", &[]);
    let own = "metadata::bookmarks::Bookmarks{db: db}";
    let p = |n: &str| format!("metadata::bookmarks::Bookmarks::{n}");
    let b = "metadata::bookmarks::Bookmark{id: \"x\", created_at: now, created_by: 9, project_id: 7, query: q}";
    let k = "projects/7/bookmarks/accounts/9/x";
    let db = store(&[(k, &format!("rec({b})")), ("projects/7/bookmarks/accounts/8/x", "rec(z)")]);
    op(ck, "known", &p("get_by_id"), own, &["7", "9", "\"x\""], &db, &format!("Ok({b})"), &[]);
    op(ck, "of another account", &p("get_by_id"), own, &["7", "6", "\"x\""], &db, "Err NotFound", &[]);
    op(ck, "known", &p("delete"), own, &["7", "9", "\"x\""], &db, &format!("Ok({b})"), &[(k, "")]);
    op(ck, "of another account", &p("delete"), own, &["7", "6", "\"x\""], &db, "Err NotFound", &[]);
}

/// the properties of events and of groups: the record, its indexes, its place among those of its type, the copies kept in memory, the column of the tables
fn properties(ck: &mut Ck) {
    let p = |n: &str| format!("metadata::properties::Properties::{n}");
    let all = fields(ck, "metadata::properties::Property");
    let rec = |s: &str| format!("rec({s})");
    for (typ, ns, col) in [("Event", "projects/7/event_properties", "e_str_"), ("Group(2)", "projects/7/group_2_properties", "g_2_str_")] {
        let typ = format!("metadata::properties::Type::{typ}");
        let own = format!("metadata::properties::Properties{{db: db, opti_db: od, id_cache: cache_id, name_cache: cache_name, typ: {typ}}}");
        let own = own.as_str();
        let pr = |id: usize, set: &[(&str, &str)]| {
            let fs: Vec<String> = all
                .iter()
                .map(|f| match set.iter().find(|x| x.0 == f) {
                    Some(x) => format!("{f}: {}", x.1),
                    None => match f.as_str() {
                        "id" => format!("id: {id}"),
                        "project_id" => "project_id: 7".into(),
                        "name" => format!("name: \"n{id}\""),
                        "display_name" | "dictionary_type" => format!("{f}: None"),
                        "order" => format!("order: {}", id + 10),
                        "typ" => format!("typ: {typ}"),
                        "data_type" => "data_type: common::types::DType::String".into(),
                        "is_system" => "is_system: false".into(),
                        f => format!("{f}: {f}_v"),
                    },
                })
                .collect();
            format!("metadata::properties::Property{{{}}}", fs.join(", "))
        };
        let req = |name: &str, dn: &str, dict: &str| {
            format!("metadata::properties::CreatePropertyRequest{{created_by: created_by_v, tags: tags_v, name: {name:?}, description: description_v, display_name: {dn}, typ: {typ}, data_type: common::types::DType::String, status: status_v, hidden: hidden_v, nullable: nullable_v, is_array: is_array_v, is_dictionary: is_dictionary_v, dictionary_type: {dict}, is_system: false}}")
        };
        let (key, idx) = (|id: usize| format!("{ns}/data/{id}"), |i: &str, n: &str| format!("{ns}/idx/{i}/{n}"));
        let (seq, order) = (format!("{ns}id_seq"), "projects/7/properties/order/strid_seq");
        let (cid, cname) = (|id: usize| format!("cache_id (7, {id})"), |n: &str| format!("cache_name (7, {n:?})"));
        let made = |id: usize, n: &str, ord: usize, dn: &str, dict: &str| pr(id, &[("name", &format!("{n:?}")), ("order", &ord.to_string()), ("created_at", "now"), ("updated_at", "None"), ("updated_by", "None"), ("display_name", dn), ("dictionary_type", dict)]);
        let mut db = store(&[(&seq, "le(4)"), (order, "le(20)"), (&key(3), &rec(&pr(3, &[("display_name", "Some(\"d3\")")]))), (&idx("name", "n3"), "le(3)"), (&idx("display_name", "d3"), "le(3)"), (&key(4), &rec(&pr(4, &[("display_name", "Some(\"d4\")")]))), (&idx("name", "n4"), "le(4)"), (&idx("display_name", "d4"), "le(4)"), (&format!("{ns}z"), "rec(z)"), (&format!("{ns}/e"), "rec(z)")]);
        // the first property, the next one, one with a display name, one kept as keys of a dictionary
        for (what, had, dn, dict, dt) in [
            ("first", false, "None", "None", "common::types::DType::String"),
            ("next", true, "None", "None", "common::types::DType::String"),
            ("with a display name", true, "Some(\"dn\")", "None", "common::types::DType::String"),
            ("8 bit keys", true, "None", "Some(metadata::properties::DictionaryType::Int8)", "common::types::DType::Int8"),
            ("16 bit keys", true, "None", "Some(metadata::properties::DictionaryType::Int16)", "common::types::DType::Int16"),
            ("32 bit keys", true, "None", "Some(metadata::properties::DictionaryType::Int32)", "common::types::DType::Int32"),
            ("64 bit keys", true, "None", "Some(metadata::properties::DictionaryType::Int64)", "common::types::DType::Int64"),
        ] {
            let (id, ord) = if had { (5, 21) } else { (1, 0) };
            let base = if had { db.clone() } else { vec![] };
            let r = made(id, "n", ord, dn, dict);
            let col = format!("{col}{ord}");
            let mut ch = vec![(seq.clone(), format!("le({id})")), (order.to_string(), format!("le({ord})")), (key(id), rec(&r)), (idx("name", "n"), format!("le({id})")), (format!("projects/7/global/idx/column_name/{col}"), format!("le({id})")), (cid(id), r.clone()), (cname("n"), r.clone())];
            if dn != "None" {
                ch.push((idx("display_name", "dn"), format!("le({id})")));
            }
            let ch: Vec<(&str, &str)> = ch.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            for f in ["create", "get_or_create"] {
                let req = req("n", dn, dict);
                op(ck, what, &p(f), own, &["7", &req], &base, &format!("Ok({r})"), &ch);
                let Some(f) = ck.func(&p(f)) else { continue };
                let d = world(&base).run(ck, f, Some(own), &["7", &req]);
                let mut want = vec![format!("od.add_field(\"events\", \"{col}\", {}, nullable_v)", t(ck, dt))];
                if typ.contains("Group") {
                    want.push(format!("od.add_field(\"group_2\", \"{col}\", {}, nullable_v)", t(ck, dt)));
                }
                let has: Vec<String> = d.log.iter().filter(|l| l.contains("add_field")).cloned().collect();
                ck.req(K, has == want, format!("Properties::{}: {what}: {typ}: columns", f.name), (f.file.as_str(), f.line), format!("{what}: the column must be added by {want:?}, the tables are changed by {has:?}"));
                // columns that are there already
                let d = world(&base).with("add_field", "Err(storage::error::StoreError::AlreadyExists(\"c\"))").run(ck, f, Some(own), &["7", &req]);
                let ok = d.out.len() == 1 && d.out.contains(&t(ck, &format!("Ok({r})")));
                ck.req(K, ok, format!("Properties::{}: {what}: {typ}: columns exist", f.name), (f.file.as_str(), f.line), format!("{what}: columns that exist already must do no harm, it answers {:?}", d.out));
            }
        }
        op(ck, "taken name", &p("create"), own, &["7", &req("n3", "None", "None")], &db, "Err AlreadyExists", &[]);
        op(ck, "taken display name", &p("create"), own, &["7", &req("n", "Some(\"d3\")", "None")], &db, "Err AlreadyExists", &[]);
        op(ck, "taken display name", &p("get_or_create"), own, &["7", &req("n", "Some(\"d3\")", "None")], &db, "Err AlreadyExists", &[]);
        let r4 = pr(4, &[("display_name", "Some(\"d4\")")]);
        let ok4 = format!("Ok({r4})");
        op(ck, "known", &p("get_or_create"), own, &["7", &req("n4", "None", "None")], &db, &ok4, &[]);
        op(ck, "known", &p("get_by_id"), own, &["7", "4"], &db, &ok4, &[]);
        op(ck, "unknown", &p("get_by_id"), own, &["7", "6"], &db, "Err NotFound", &[]);
        op(ck, "known", &p("get_by_name"), own, &["7", "\"n4\""], &db, &ok4, &[]);
        op(ck, "unknown", &p("get_by_name"), own, &["7", "\"n6\""], &db, "Err NotFound", &[]);
        op(ck, "known", &p("get_by_column_name"), own, &["7", &format!("\"{col}14\"")], &db, &ok4, &[]);
        op(ck, "unknown", &p("get_by_column_name"), own, &["7", "\"n4\""], &db, "Err NotFound", &[]);
        op(ck, "two", &p("list"), own, &["7"], &db, &format!("Ok(metadata::metadata::ListResponse{{data: [{}, {r4}], meta: metadata::metadata::ResponseMetadata{{next: None}}}})", pr(3, &[("display_name", "Some(\"d3\")")])), &[]);
        // copies of both, and of the same property of another project
        for (k, v) in [(cid(4), r4.as_str()), (cname("n4"), r4.as_str()), ("cache_id (8, 4)".into(), "other"), ("cache_name (8, \"n4\")".into(), "other")] {
            db.push((k, v.to_string()));
        }
        op(ck, "kept in memory", &p("get_by_id"), own, &["7", "4"], &db, &ok4, &[]);
        op(ck, "kept in memory", &p("get_by_name"), own, &["7", "\"n4\""], &db, &ok4, &[]);
        op(ck, "known", &p("delete"), own, &["7", "4"], &db, &ok4, &[(&key(4), ""), (&idx("name", "n4"), ""), (&idx("display_name", "d4"), ""), (&cid(4), ""), (&cname("n4"), "")]);
        op(ck, "unknown", &p("delete"), own, &["7", "6"], &db, "Err NotFound", &[]);
        // a change
        let changed = fields(ck, "metadata::properties::UpdatePropertyRequest");
        let upd = |on: &[(&str, &str)]| {
            let fs: Vec<String> = changed
                .iter()
                .map(|f| match f.as_str() {
                    "updated_by" => "updated_by: ub".to_string(),
                    f => format!("{f}: {}", on.iter().find(|x| x.0 == f).map(|x| format!("common::types::OptionalProperty::Some({})", x.1)).unwrap_or("common::types::OptionalProperty::None".into())),
                })
                .collect();
            format!("metadata::properties::UpdatePropertyRequest{{{}}}", fs.join(", "))
        };
        op(ck, "unknown", &p("update"), own, &["7", "6", &upd(&[])], &db, "Err NotFound", &[]);
        op(ck, "taken display name", &p("update"), own, &["7", "4", &upd(&[("display_name", "Some(\"d3\")")])], &db, "Err AlreadyExists", &[]);
        let mut sets: Vec<(String, String)> = vec![("".into(), "".into()), ("display_name".into(), "Some(\"dn\")".into()), ("display_name".into(), "None".into()), ("display_name".into(), "Some(\"d4\")".into())];
        sets.extend(changed.iter().filter(|f| !matches!(f.as_str(), "updated_by" | "name" | "display_name")).map(|f| (f.clone(), format!("{f}_n"))));
        for (f, v) in &sets {
            let on: Vec<(&str, &str)> = if f.is_empty() { vec![] } else { vec![(f, v)] };
            let mut st = vec![("updated_at", "Some(now)"), ("updated_by", "Some(ub)")];
            st.extend(on.iter().copied());
            if f != "display_name" {
                st.push(("display_name", "Some(\"d4\")"));
            }
            let r = pr(4, &st);
            let mut ch = vec![(key(4), rec(&r)), (cid(4), r.clone()), (cname("n4"), r.clone())];
            if f == "display_name" && !v.contains("d4") {
                ch.push((idx("display_name", "d4"), "".into()));
                if v != "None" {
                    ch.push((idx("display_name", "dn"), "le(4)".into()));
                }
            }
            let ch: Vec<(&str, &str)> = ch.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            op(ck, &format!("{f} {v}"), &p("update"), own, &["7", "4", &upd(&on)], &db, &format!("Ok({r})"), &ch);
        }
    }
}

fn settings(ck: &mut Ck) {
    let own = "metadata::settings::SettingsProvider{db: db}";
    let p = |n: &str| format!("metadata::settings::SettingsProvider::{n}");
    let all: Vec<(String, Ty)> = ck.m.structs.get("metadata::settings::Settings").map(|s| s.fields.clone()).unwrap_or_default();
    let full = |prov: &str, enc: bool, empty: &[&str]| {
        let fs: Vec<String> = all
            .iter()
            .map(|(f, t)| match f.as_str() {
                "backup_provider" => format!("{f}: metadata::settings::BackupProvider::{prov}"),
                "backup_encryption_enabled" => format!("{f}: {enc}"),
                _ if t.name() == "String" => format!("{f}: {}", if empty.contains(&f.as_str()) { "\"\"" } else { "\"set\"" }),
                _ => format!("{f}: {f}_v"),
            })
            .collect();
        format!("metadata::settings::Settings{{{}}}", fs.join(", "))
    };
    let texts: Vec<String> = all.iter().filter(|(f, t)| t.name() == "String" && f.starts_with("backup_")).map(|x| x.0.clone()).collect();
    let bare: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
    let but = |keep: &[&str]| bare.iter().filter(|b| !keep.contains(b)).copied().collect::<Vec<_>>();
    let s3 = ["backup_provider_s3_bucket", "backup_provider_s3_region", "backup_provider_s3_access_key", "backup_provider_s3_secret_key"];
    let gcp = ["backup_provider_gcp_bucket", "backup_provider_gcp_key"];
    let pw = "backup_encryption_password";
    let had = store(&[("config", "rec(old)")]);
    let mut cases: Vec<(String, String, bool)> = vec![
        ("local, nothing set".into(), full("Local", false, &bare), true),
        ("S3, what it needs".into(), full("S3", false, &but(&s3)), true),
        ("GCP, what it needs".into(), full("GCP", false, &but(&gcp)), true),
        ("encrypted".into(), full("Local", true, &but(&[pw])), true),
        ("encrypted, no password".into(), full("Local", true, &[pw]), false),
        ("all set".into(), full("S3", true, &[]), true),
    ];
    cases.extend(s3.iter().map(|f| (format!("S3 without {f}"), full("S3", false, &[f]), false)));
    cases.extend(gcp.iter().map(|f| (format!("GCP without {f}"), full("GCP", false, &[f]), false)));
    for (what, v, ok) in cases {
        let rec = format!("rec({v})");
        if ok {
            op(ck, &what, &p("save"), own, &[&v], &had, "Ok(())", &[("config", &rec)]);
        } else {
            op(ck, &what, &p("save"), own, &[&v], &had, "Err BadRequest", &[]);
        }
    }
    op(ck, "saved", &p("load"), own, &[], &had, "Ok(old)", &[]);
    op(ck, "never saved", &p("load"), own, &[], &store(&[]), "Err NotFound", &[]);
}
