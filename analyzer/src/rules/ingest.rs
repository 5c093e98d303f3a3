//! C19: what a client sends to the ingestion endpoints is what gets stored.
use super::calls::*;
use super::tab::*;
use crate::model::*;
use crate::report::*;

fn of<'m>(ck: &mut Ck<'m>, path: &str, ty: &str) -> Option<&'m FnDef> {
    let v = ck.fns_at(path);
    let r = v.into_iter().find(|f| f.self_ty.as_ref().map_or(false, |t| t.arg(0).name() == ty));
    if r.is_none() {
        ck.fail(format!("anchor:{path}<{ty}>"), "", 0, format!("{path} for {ty} not found"));
    }
    r
}
const TRACK: &str = "ingester::Track";
fn track(user: &str, anon: &str, props: &str, groups: &str) -> String {
    format!("{TRACK}{{user_id: {user}, anonymous_id: {anon}, resolved_user_id: None, timestamp: ts, context: cx, event: ev, resolved_event: None, properties: {props}, resolved_properties: None, group_values: {groups}, resolved_group_values: None}}")
}
fn world() -> World {
    let mut w = World::new(&["metadata", "storage"])
        .with("projects.get_by_token", "Ok(pr)")
        .with("event_properties.get_or_create", "Ok(prop#)")
        .with("groups.get_or_create", "Ok(gv#)")
        .with("groups.get_or_create_group", "Ok(grp#)")
        .with("groups.get_or_create_anonymous_id", "Ok(aid)")
        .with("groups.merge_with_anonymous", "Ok(mv)")
        .with("events.get_or_create", "Ok(e)")
        .with("t1.process", "Ok(r1)")
        .with("t2.process", "Ok(r2)");
    w.also = vec!["process", "send", "rescale"];
    w.pure_ = vec![("scale", "16")];
    w
}
const SELF: &str = "ingester::executor::Executor{transformers: [t1, t2], destinations: [d1, d2], db: db, md: md}";
const CTX: &str = "ingester::RequestContext{project_id: None, client_ip: cip, token: tok}";


/// the calls, whatever their order; the ones named in `order` in that order; nothing after a refusal
pub fn expect(ck: &mut Ck, kind: &str, what: &str, d: &Done, out: &str, want: &[String], order: &[&str]) {
    let at = (d.at.0.as_str(), d.at.1);
    let (mut g, mut w) = (d.log.clone(), want.to_vec());
    g.sort();
    w.sort();
    let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
    let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
    ck.req(kind, d.out.len() == 1 && d.out.contains(out), format!("{what}:result"), at, format!("{what} must end with {out}, ends with {:?}", d.out));
    ck.req(kind, g == w, format!("{what}:calls"), at, format!("{what}: expected {missing:?}, found {extra:?} (of {} calls)", g.len()));
    let pos: Vec<Option<usize>> = order.iter().map(|o| d.log.iter().position(|l| l.starts_with(o))).collect();
    let ok = pos.windows(2).all(|p| p[0] < p[1] || p[0].is_none() || p[1].is_none());
    ck.req(kind, ok, format!("{what}:order"), at, format!("{what}: {order:?} must happen in this order, they happen at {pos:?}"));
}
/// every call of the case may fail: the failure is the answer and nothing else is done after it
pub fn failures<'m>(ck: &mut Ck<'m>, what: &str, f: &'m FnDef, mk: &dyn Fn() -> World, self_: &str, args: &[&str], ok: &Done) {
    let mut done = std::collections::BTreeSet::new();
    for (i, l) in ok.log.iter().enumerate() {
        if l.contains(".rescale(") || l == "accounts.get_by_id(1)" || !done.insert(l.clone()) {
            continue;
        }
        let d = mk().with(l, "Err(broken)").run(ck, f, Some(self_), args);
        let label = l.split('(').next().unwrap_or(l);
        let good = d.out.iter().all(|o| o.starts_with("Err(") && o.contains("broken")) && d.log.len() > i && d.log[..=i] == ok.log[..=i] && d.log[i..].iter().all(|x| x.split('(').next().unwrap_or(x) == label);
        ck.req("failure", good, format!("{what}:{label} fails"), (&d.at.0, d.at.1), format!("{what}: when {label} fails, that failure must be the answer and nothing may follow; ends with {:?} after {:?}", d.out, d.log.iter().map(|l| l.split('(').next().unwrap_or(l)).collect::<Vec<_>>()));
    }
}

fn prop(n: &str, dic: &str, t: &str, dt: &str) -> String {
    format!("metadata::properties::Property{{tag: {n:?}, is_dictionary: {dic}, data_type: common::types::DType::{t}, dictionary_type: {dt}}}")
}
fn pav(n: &str, dic: &str, t: &str, dt: &str, v: &str) -> String {
    format!("ingester::PropertyAndValue{{property: {}, value: ingester::PropValue::{v}}}", prop(n, dic, t, dt))
}
fn identify(props: &str) -> String {
    format!("ingester::Identify{{timestamp: ts, context: cx, group: g, group_id: 0, resolved_group_values: None, id: gid, properties: {props}, resolved_properties: None}}")
}


// ---- the executors

const WHO: &str = "RequestContext{client_ip: cip, project_id: Some(pr.id), token: tok}";

fn create_prop(list: &str, k: &str, kind: &str, typ: &str) -> String {
    let dic = kind == "String";
    let dt = match kind {
        "Date" => "Timestamp",
        "Number" => "Decimal",
        "Bool" => "Boolean",
        x => x,
    };
    let d = if dic { "Some(DictionaryType::Int64)" } else { "None" };
    format!("{list}.get_or_create(pr.id, CreatePropertyRequest{{created_by: 1, data_type: DType::{dt}, description: None, dictionary_type: {d}, display_name: None, hidden: false, is_array: false, is_dictionary: {dic}, is_system: false, name: {k}, nullable: true, status: Status::Enabled, tags: None, typ: {typ}}})")
}
/// properties of a request: (key, kind)
const KINDS: &[(&str, &str)] = &[("k1", "Bool"), ("k2", "String"), ("k3", "Number"), ("k4", "Date")];
fn props_in(on: bool) -> String {
    if !on {
        return "None".into();
    }
    format!("Some([{}])", KINDS.iter().map(|(k, t)| format!("(\"{k}\", ingester::PropValue::{t}({k}v))")).collect::<Vec<_>>().join(", "))
}
fn props_out(on: bool) -> (String, String, String) {
    if !on {
        return ("None".into(), "None".into(), "None".into());
    }
    let j = |f: &dyn Fn(usize, &str, &str) -> String| KINDS.iter().enumerate().map(|(i, (k, t))| f(i + 1, k, t)).collect::<Vec<_>>().join(", ");
    (
        format!("Some([{}])", j(&|_, k, t| format!("(\"{k}\", PropValue::{t}({k}v))"))),
        format!("Some([{}])", j(&|i, k, t| format!("PropertyAndValue{{property: prop{i}, value: PropValue::{t}({k}v)}}"))),
        format!("Some([{}])", j(&|i, _, _| format!("prop{i}.id"))),
    )
}

fn executor(ck: &mut Ck) {
    let Some(f) = of(ck, "ingester::executor::Executor::execute", "Track") else { return };
    let name = "Executor<Track>";
    for (w, user, anon) in [("a user id", "Some(u)", "None"), ("an anonymous id", "None", "Some(an)"), ("both ids", "Some(u)", "Some(an)"), ("no id", "None", "None")] {
        for (gw, gs) in [("", "None"), (", no groups", "Some([])"), (", two groups", "Some([(g1, v1), (g2, v2)])")] {
            for pw in [true, false] {
                let what = format!("{name}:{w}{gw}{}", if pw { ", properties" } else { "" });
                let args = track(user, anon, &props_in(pw), gs);
                let d = world().run(ck, f, Some(SELF), &[CTX, &args]);
                let (p, rp, ids) = props_out(pw);
                let mut want = vec!["projects.get_by_token(tok)".to_string()];
                if pw {
                    want.extend(KINDS.iter().map(|(k, t)| create_prop("event_properties", &format!("\"{k}\""), t, "Type::Event")));
                }
                let key = |c: &str, id: &str, v: &str| format!("dictionaries.create_key(pr.id, \"events\", {c}, {id}, {v})");
                let (uid, ug, mut gn) = match w {
                    "a user id" => {
                        want.push("groups.get_or_create(pr.id, 0, u, [])".into());
                        want.push(key("\"group_0\"", "gv1.id", "u"));
                        ("gv1.id", Some("gv1"), 1)
                    }
                    "an anonymous id" => {
                        want.push("groups.get_or_create_anonymous_id(pr.id, 0, an)".into());
                        want.push(key("\"group_0\"", "aid", "an"));
                        ("aid", None, 0)
                    }
                    "both ids" => {
                        want.push("groups.merge_with_anonymous(pr.id, 0, an, u, [])".into());
                        want.push(key("\"group_0\"", "mv.id", "u"));
                        ("mv.id", None, 0)
                    }
                    _ => {
                        expect_out(ck, "identity", &what, &d, "BadRequest", &["process", "send", "increment_events_counter", "create_key", "groups."]);
                        continue;
                    }
                };
                let mut rg = "None".to_string();
                if gs != "None" {
                    let mut l: Vec<String> = ug.iter().map(|g| format!("(0, {g})")).collect();
                    if gs.len() > 8 {
                        for n in 1..=2 {
                            gn += 1;
                            want.push(format!("groups.get_or_create_group(pr.id, g{n}, g{n})"));
                            want.push(format!("groups.get_or_create(pr.id, grp{n}.id, v{n}, [])"));
                            want.push(key(&format!("fmt(\"group_{{}}\", grp{n}.id)"), &format!("gv{gn}.id"), &format!("v{n}")));
                            l.push(format!("(grp{n}.id, gv{gn})"));
                        }
                    }
                    rg = format!("Some([{}])", l.join(", "));
                }
                want.push(format!("events.get_or_create(pr.id, CreateEventRequest{{created_by: 1, custom_properties: None, description: None, display_name: None, event_properties: {ids}, is_system: false, name: ev, status: Status::Enabled, tags: None, user_properties: None}})"));
                if pw {
                    want.push(format!("events.try_attach_properties(pr.id, e.id, {})", ids.trim_start_matches("Some(").trim_end_matches(')')));
                }
                want.push(format!("t1.process({WHO}, Track{{anonymous_id: {anon}, context: cx, event: ev, group_values: {gs}, properties: {p}, resolved_event: Some(e), resolved_group_values: {rg}, resolved_properties: {rp}, resolved_user_id: Some({uid}), timestamp: ts, user_id: {user}}})"));
                want.push(format!("t2.process({WHO}, r1)"));
                want.push(format!("d1.send({WHO}, r2)"));
                want.push(format!("d2.send({WHO}, r2)"));
                want.push("projects.increment_events_counter(pr.id)".into());
                expect(ck, "track", &what, &d, "Ok(())", &want, &["t1", "t2", "d1", "projects.increment"]);
                expect(ck, "track", &format!("{what}(2)"), &d, "Ok(())", &want, &["t2", "d2", "projects.increment"]);
                if pw && gs.len() > 8 {
                    failures(ck, &what, f, &world, SELF, &[CTX, &args], &d);
                }
            }
        }
    }
    let Some(f) = of(ck, "ingester::executor::Executor::execute", "Identify") else { return };
    for pw in [true, false] {
        let what = format!("Executor<Identify>{}", if pw { ":properties" } else { "" });
        let mk = || {
            let mut w = world().with("groups.create_or_update", "Ok(cv)").with("dictionaries.get_key_or_create", "Ok(dk)");
            for (i, (k, t)) in KINDS.iter().enumerate() {
                let (dt, dic, dy) = match *t {
                    "String" => ("String", "true", "Some(metadata::properties::DictionaryType::Int64)"),
                    "Number" => ("Decimal", "false", "None"),
                    "Date" => ("Timestamp", "false", "None"),
                    _ => ("Boolean", "false", "None"),
                };
                w = w.with(&create_prop("group_properties[grp1.id]", &format!("\"{k}\""), t, "Type::Group(grp1.id)"), &format!("Ok({})", prop(&format!("prop{}", i + 1), dic, dt, dy)));
            }
            w
        };
        let args = identify(&props_in(pw));
        let d = mk().run(ck, f, Some(SELF), &[CTX, &args]);
        let (p, mut rp, _) = props_out(pw);
        let mut want = vec!["projects.get_by_token(tok)".to_string(), "groups.get_or_create_group(pr.id, g, g)".into()];
        let mut vals = String::new();
        for i in 1..=4 {
            rp = rp.replace(&format!("prop{i},"), &format!("\"prop{i}\","));
        }
        if pw {
            want.extend(KINDS.iter().map(|(k, t)| create_prop("group_properties[grp1.id]", &format!("\"{k}\""), t, "Type::Group(grp1.id)")));
            want.push("dictionaries.get_key_or_create(pr.id, fmt(\"group_{}\", grp1.id), column_name(\"prop2\"), k2v)".into());
            let v = ["Value::Boolean(Some(k1v))", "Value::Int64(Some(dk))", "Value::Decimal(Some(mantissa(k3v)))", "Value::Timestamp(Some(ms(k4v)))"];
            want.push("k3v.rescale(16)".into());
            vals = v.iter().enumerate().map(|(i, v)| format!("PropertyValue{{property_id: \"prop{}\".id, value: {v}}}", i + 1)).collect::<Vec<_>>().join(", ");
        }
        want.push(format!("groups.create_or_update(pr.id, grp1.id, gid, [{vals}])"));
        want.push("dictionaries.create_key(pr.id, fmt(\"group_{}\", grp1.id), \"id\", cv.id, gid)".into());
        want.push(format!("t1.process({WHO}, Identify{{context: cx, group: g, group_id: grp1.id, id: gid, properties: {p}, resolved_group_values: Some(cv), resolved_properties: {rp}, timestamp: ts}})"));
        want.push(format!("t2.process({WHO}, r1)"));
        want.push(format!("d1.send({WHO}, r2)"));
        want.push(format!("d2.send({WHO}, r2)"));
        expect(ck, "identify", &what, &d, "Ok(())", &want, &["t1", "t2", "d1"]);
        if pw {
            failures(ck, &what, f, &mk, SELF, &[CTX, &args], &d);
        }
    }
    // a profile keeps each kind of value as that kind
    for k in ["Int8", "Int16", "Int32", "Int64", "Boolean", "Timestamp", "Decimal", "String", "ListInt8", "ListInt16", "ListInt32", "ListInt64", "ListBoolean", "ListTimestamp", "ListDecimal", "ListString"] {
        let mut w = world().with("groups.create_or_update", "Ok(cv)").with("resolve_properties", "Ok([ingester::PropertyAndValue{property: pp, value: pv}])").with("property_to_value", &format!("Ok(storage::Value::{k}(kv))"));
        w.shut = vec!["resolve_properties", "property_to_value"];
        let d = w.run(ck, f, Some(SELF), &[CTX, &identify("Some([])")]);
        let l = format!("[PropertyValue{{property_id: pp.id, value: Value::{k}(kv)}}]");
        let n = d.log.iter().filter(|x| x.contains("create_or_update") && x.contains(&l)).count();
        ck.req("identify", n == 1, format!("kind {k}"), (&d.at.0, d.at.1), format!("a {k} property of a profile must be stored as {k}: {:?}", d.log));
    }
}
/// every way to end is this refusal and none of these calls was made
pub fn expect_out(ck: &mut Ck, kind: &str, what: &str, d: &Done, err: &str, none: &[&str]) {
    let at = (d.at.0.as_str(), d.at.1);
    ck.req(kind, !d.out.is_empty() && d.out.iter().all(|o| o.starts_with("Err(") && o.contains(err)), format!("{what}:result"), at, format!("{what} must be refused ({err}), ends with {:?}", d.out));
    let bad: Vec<_> = d.log.iter().filter(|l| none.iter().any(|n| l.contains(n))).collect();
    ck.req(kind, bad.is_empty(), format!("{what}:calls"), at, format!("{what} is refused, but before that {bad:?} is done"));
}

// ---- a property's value

fn values(ck: &mut Ck) {
    let Some(f) = ck.func("ingester::property_to_value") else { return };
    let ctx = "ingester::RequestContext{project_id: Some(pid), client_ip: cip, token: tok}";
    let kinds = ["Date", "String", "Number", "Bool"];
    let mk = || {
        let mut w = World::new(&["metadata", "storage"]).with("get_key_or_create", "Ok(dk)");
        w.also = vec!["rescale"];
        for n in ["to_i8", "to_i16", "to_i32", "to_i64"] {
            w.pure_.push((n, match n {
                "to_i8" => "Some(i8of)",
                "to_i16" => "Some(i16of)",
                "to_i32" => "Some(i32of)",
                _ => "Some(i64of)",
            }));
        }
        w
    };
    let key = "dict.get_key_or_create(pid, tbl, column_name(\"P\"), v)".to_string();
    // a dictionary property stores the key of the text, in the width of its dictionary
    for (dt, width) in [("Int8", "Int8"), ("Int16", "Int16"), ("Int32", "Int32"), ("Int64", "Int64")] {
        for k in kinds {
            let p = pav("P", "true", "String", &format!("Some(metadata::properties::DictionaryType::{dt})"), &format!("{k}(v)"));
            let d = mk().run(ck, f, None, &[ctx, "tbl", &p, "dict"]);
            let what = format!("dictionary {dt} from {k}");
            if k == "String" {
                expect(ck, "value", &what, &d, &format!("Ok(Value::{width}(Some(dk)))"), &[key.clone()], &[]);
                failures(ck, &what, f, &mk, "none", &[ctx, "tbl", &p, "dict"], &d);
            } else {
                expect_out(ck, "value", &what, &d, "Internal", &["get_key"]);
            }
        }
    }
    let types = ["String", "Int8", "Int16", "Int32", "Int64", "Decimal", "Boolean", "Timestamp"];
    for t in types {
        for k in kinds {
            let p = pav("P", "false", t, "None", &format!("{k}(v)"));
            let what = format!("{t} from {k}");
            let w = match (t, k) {
                ("String", "String") => "String(Some(v))",
                ("Int8", "Number") => "Int8(Some(i8of))",
                ("Int16", "Number") => "Int16(Some(i16of))",
                ("Int32", "Number") => "Int32(Some(i32of))",
                ("Int64", "Number") => "Int64(Some(i64of))",
                ("Decimal", "Number") => "Decimal(Some(mantissa(v)))",
                ("Boolean", "Bool") => "Boolean(Some(v))",
                ("Timestamp", "Date") => "Timestamp(Some(ms(v)))",
                _ => {
                    let d = mk().run(ck, f, None, &[ctx, "tbl", &p, "dict"]);
                    expect_out(ck, "value", &what, &d, "Internal", &["get_key"]);
                    continue;
                }
            };
            let mut wd = mk();
            wd.pure_.push(("scale", "16"));
            let d = wd.run(ck, f, None, &[ctx, "tbl", &p, "dict"]);
            let log: Vec<String> = if t == "Decimal" { vec!["v.rescale(16)".into()] } else { vec![] };
            expect(ck, "value", &what, &d, &format!("Ok(Value::{w})"), &log, &[]);
            if k == "Number" {
                // a number that does not fit is refused
                let mut wd = mk();
                wd.pure_ = ["to_i8", "to_i16", "to_i32", "to_i64"].iter().map(|n| (*n, "None")).collect();
                wd.pure_.push(("scale", "15"));
                let d = wd.run(ck, f, None, &[ctx, "tbl", &p, "dict"]);
                expect_out(ck, "value", &format!("{what} out of range"), &d, "BadRequest", &["get_key"]);
            }
        }
    }
}

// ---- what is stored

/// the stored values: the two key columns first, the others in any order
fn row(l: &str) -> String {
    match l.split_once("[NamedValue{") {
        Some((h, t)) if l.starts_with("db.insert(") => {
            let mut v: Vec<&str> = t.trim_end_matches(')').trim_end_matches(']').trim_end_matches('}').split("}, NamedValue{").collect();
            if v.len() > 2 {
                v[2..].sort();
            }
            format!("{h}{}", v.join("; "))
        }
        _ => l.into(),
    }
}
fn stored(table: &str, cols: &[(String, String)]) -> String {
    let mut v: Vec<String> = cols.iter().map(|(c, v)| format!("name: {c}, value: Value::{v}")).collect();
    v[2..].sort();
    format!("db.insert({table}, {}", v.join("; "))
}
const LISTED: &[&str] = &["Int8", "Int16", "Int32", "Int64", "Boolean", "Timestamp", "Decimal", "String", "ListInt8", "ListInt16", "ListInt32", "ListInt64", "ListBoolean", "ListTimestamp", "ListDecimal", "ListString"];
/// values of a profile, one of each type: (as stored in the metadata, as stored in the column)
fn profile(n: &str) -> (String, Vec<(String, String)>, Vec<String>) {
    let mut g: Vec<String> = LISTED.iter().map(|t| format!("metadata::groups::PropertyValue{{property_id: {n}_{t}, value: metadata::groups::Value::{t}({n}v_{t})}}")).collect();
    g.push(format!("metadata::groups::PropertyValue{{property_id: {n}_Null, value: metadata::groups::Value::Null}}"));
    let list = format!("group_properties[{n}].get_by_id(pid, ");
    let mut c: Vec<(String, String)> = LISTED.iter().map(|t| (format!("column_name({list}{n}_{t}))"), format!("{t}({n}v_{t})"))).collect();
    c.push((format!("column_name({list}{n}_Null))"), "Null".into()));
    let reads = LISTED.iter().chain(&["Null"]).map(|t| format!("{list}{n}_{t})")).collect();
    (format!("[{}]", g.join(", ")), c, reads)
}
const UTM: &[(&str, &str)] = &[("UTM Source", "source"), ("UTM Medium", "medium"), ("UTM Campaign", "campaign"), ("UTM Term", "term"), ("UTM Content", "content")];

fn stores(ck: &mut Ck) {
    let ctx = "ingester::RequestContext{project_id: Some(pid), client_ip: cip, token: tok}";
    let c = |a: &str, b: &str| (format!("\"{a}\""), b.to_string());
    let Some(f) = ck.impl_fn("ingester", "Local", "Destination", "Track", "send") else { return };
    let me = "ingester::destinations::local::track::Local{db: db, md: md}";
    for session in [true, false] {
        for (gw, groups) in [("no groups", None), ("an empty group list", Some(vec![])), ("the user and two groups", Some(vec![0, 2, 4])), ("groups of an anonymous user", Some(vec![3]))] {
            for (uw, utm) in [("no campaign", None), ("a source", Some(1)), ("a full campaign", Some(5)), ("content", Some(9))] {
                let what = format!("store {}:{gw}:{uw}", if session { "in a new session" } else { "in a session" });
                let mk = || {
                    let mut w = World::new(&["metadata", "storage"]).with("sessions.set_current_time", if session { "Ok(true)" } else { "Ok(false)" }).with("events.next_record_sequence", "Ok(rec#)").with("dictionaries.get_key_or_create", "Ok(dk)");
                    w.open = vec!["new"];
                    w.also = vec!["rescale"];
                    w.pure_ = vec![("scale", "16")];
                    for (n, _) in UTM {
                        w = w.with(&format!("event_properties.get_by_name(pid, {n:?})"), &format!("Ok({})", prop(n, "true", "String", "Some(metadata::properties::DictionaryType::Int16)")));
                    }
                    w
                };
                let given = |i: usize| match utm {
                    Some(9) => i == 0 || i == 4,
                    Some(n) => i < n,
                    None => false,
                };
                let campaign = match utm {
                    None => "None".to_string(),
                    Some(_) => format!("Some(ingester::Campaign{{{}}})", UTM.iter().enumerate().map(|(i, (_, f))| format!("{f}: {}", if i == 0 { "csource".into() } else if given(i) { format!("Some(c{f})") } else { "None".to_string() })).collect::<Vec<_>>().join(", ")),
                };
                let mut cols: Vec<(String, String)> = vec![c("project_id", "Int64(Some(pid))"), c("group_0", "Int64(Some(uid))")];
                let mut want: Vec<String> = vec!["sessions.set_current_time(pid, uid, now())".into()];
                let gvs = match &groups {
                    None => "None".to_string(),
                    Some(g) => {
                        let mut l = vec![];
                        for g in g {
                            let (v, cs, rd) = profile(&g.to_string());
                            let v = if *g == 0 { "[]".to_string() } else { v.replace(&format!("{g}_"), &format!("p{g}_")).replace(&format!("({g}v"), &format!("(p{g}v")) };
                            l.push(format!("({g}, metadata::groups::GroupValues{{id: i{g}, values: {v}}})"));
                            cols.push(c(&format!("group_{g}"), &format!("Int64(Some(i{g}))")));
                            if *g > 0 {
                                let fix = |s: &str| s.replace(&format!("{g}_"), &format!("p{g}_")).replace(&format!("({g}v"), &format!("(p{g}v"));
                                cols.extend(cs.iter().map(|(a, b)| (fix(a), fix(b))));
                                want.extend(rd.iter().map(|x| fix(x)));
                            }
                        }
                        format!("Some([{}])", l.join(", "))
                    }
                };
                for g in 1..5usize {
                    if !groups.as_ref().map_or(false, |l| l.contains(&g)) {
                        cols.push(c(&format!("group_{g}"), "Int64(None)"));
                    }
                }
                cols.push(c("created_at", "Timestamp(Some(ms(ts)))"));
                let props = [
                    (pav("P1", "false", "String", "None", "String(s)"), "P1", "String(Some(s))"),
                    (pav("P2", "true", "String", "Some(metadata::properties::DictionaryType::Int64)", "String(t)"), "P2", "Int64(Some(dk))"),
                    (pav("P3", "false", "Decimal", "None", "Number(n)"), "P3", "Decimal(Some(mantissa(n)))"),
                ];
                for (_, n, v) in &props {
                    cols.push((format!("column_name({n:?})"), v.to_string()));
                }
                want.push("dictionaries.get_key_or_create(pid, \"events\", column_name(\"P2\"), t)".into());
                want.push("n.rescale(16)".into());
                let mut session_cols = cols.clone();
                session_cols.push(c("ip", "String(Some(ip))"));
                for (i, (n, f)) in UTM.iter().enumerate() {
                    if given(i) {
                        want.push(format!("event_properties.get_by_name(pid, {n:?})"));
                        want.push(format!("dictionaries.get_key_or_create(pid, \"events\", column_name({n:?}), c{f})"));
                        session_cols.push((format!("column_name({n:?})"), "Int16(Some(dk))".into()));
                    }
                }
                let mut rec = 1;
                if session {
                    session_cols.push(c("event_id", "Int64(Some(rec1))"));
                    session_cols.push(c("event", "Int64(Some(events.get_by_name(pid, \"Session Begin\").id))"));
                    want.push("events.next_record_sequence(pid)".into());
                    want.push("events.get_by_name(pid, \"Session Begin\")".into());
                    want.push(stored("\"events\"", &session_cols));
                    rec = 2;
                }
                cols.push(c("event_id", &format!("Int64(Some(rec{rec}))")));
                cols.push(c("event", "Int64(Some(rev.id))"));
                want.push("events.next_record_sequence(pid)".into());
                want.push(stored("\"events\"", &cols));
                let req = format!("{TRACK}{{user_id: u, anonymous_id: an, resolved_user_id: Some(uid), timestamp: ts, context: ingester::Context{{library: l, page: p, user_agent: ua, ip: ip, campaign: {campaign}}}, event: ev, resolved_event: Some(rev), properties: p, resolved_properties: Some([{}]), group_values: gv, resolved_group_values: {gvs}}}", props.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "));
                let mut d = mk().run(ck, f, Some(me), &[ctx, &req]);
                let ok = Done { log: d.log.clone(), ..d.clone() };
                d.log = d.log.iter().map(|l| row(l)).collect();
                expect(ck, "store", &what, &d, "Ok(())", &want, &[]);
                if gw == "groups of an anonymous user" && utm == Some(5) {
                    failures(ck, &what, f, &mk, me, &[ctx, &req], &ok);
                }
            }
        }
    }
    let req = format!("{TRACK}{{resolved_user_id: Some(uid), timestamp: ts, context: ingester::Context{{ip: ip, campaign: None}}, resolved_event: Some(rev), resolved_properties: None, resolved_group_values: None}}");
    let mut w = World::new(&["metadata", "storage"]).with("sessions.set_current_time", "Ok(false)").with("events.next_record_sequence", "Ok(rec#)");
    w.open = vec!["new"];
    let mut d = w.run(ck, f, Some(me), &[ctx, &req]);
    d.log = d.log.iter().map(|l| row(l)).collect();
    let mut cols: Vec<(String, String)> = vec![c("project_id", "Int64(Some(pid))"), c("group_0", "Int64(Some(uid))")];
    cols.extend((1..5).map(|g| c(&format!("group_{g}"), "Int64(None)")));
    cols.extend([c("created_at", "Timestamp(Some(ms(ts)))"), c("event_id", "Int64(Some(rec1))"), c("event", "Int64(Some(rev.id))")]);
    expect(ck, "store", "store an event without properties", &d, "Ok(())", &["sessions.set_current_time(pid, uid, now())".into(), "events.next_record_sequence(pid)".into(), stored("\"events\"", &cols)], &[]);

    // profiles
    let Some(f) = ck.impl_fn("ingester", "Local", "Destination", "Identify", "send") else { return };
    let me = "ingester::destinations::local::identify::Local{db: db, md: md}";
    let mk = || {
        let mut w = World::new(&["metadata", "storage"]).with("groups.next_record_sequence", "Ok(rec#)");
        w.open = vec!["new"];
        w
    };
    for full in [true, false] {
        let (v, cs, rd) = profile("3");
        let fix = |s: &str| s.replace("3_", "p3_").replace("(3v", "(p3v");
        let v = if full { fix(&v) } else { "[]".into() };
        let req = format!("ingester::Identify{{timestamp: ts, context: cx, group: g, group_id: 3, resolved_group_values: Some(metadata::groups::GroupValues{{id: i3, values: {v}}}), id: gid, properties: p, resolved_properties: rp}}");
        let d0 = mk().run(ck, f, Some(me), &[ctx, &req]);
        let d = Done { log: d0.log.iter().map(|l| row(l)).collect(), ..d0.clone() };
        let mut cols = vec![c("project_id", "Int64(Some(pid))"), c("id", "Int64(Some(i3))"), c("version", "Int64(Some(rec1))"), c("created_at", "Timestamp(Some(ms(ts)))")];
        let mut want = vec!["groups.next_record_sequence(pid, 3)".to_string()];
        if full {
            cols.extend(cs.iter().map(|(a, b)| (fix(a), fix(b))));
            want.extend(rd.iter().map(|x| fix(x)));
        }
        want.push(stored("\"group_3\"", &cols));
        let what = if full { "store a profile" } else { "store an empty profile" };
        expect(ck, "store", what, &d, "Ok(())", &want, &[]);
        if full {
            failures(ck, what, f, &mk, me, &[ctx, &req], &d0);
        }
    }
}

// ---- transformers

fn transformers(ck: &mut Ck) {
    let ctx = "ingester::RequestContext{project_id: Some(pid), client_ip: cip, token: tok}";
    // (property, source, always present)
    let fields: &[(&str, &str, &str, bool)] = &[
        ("Client Family", "user_agent", "family", true),
        ("Client Version Major", "user_agent", "major", false),
        ("Client Version Minor", "user_agent", "minor", false),
        ("Device Family", "device", "family", true),
        ("Device Brand", "device", "brand", false),
        ("Device Model", "device", "model", false),
        ("OS", "os", "family", true),
        ("OS Version Major", "os", "major", false),
        ("OS Version Minor", "os", "minor", false),
        ("OS Version Patch", "os", "patch", false),
        ("OS Version Patch Minor", "os", "patch_minor", false),
    ];
    let Some(f) = ck.impl_fn("ingester", "UserAgent", "Transformer", "Track", "process") else { return };
    let me = "ingester::transformers::user_agent::track::UserAgent{ua_parser: pa, properties: pp}";
    let req = |ua: &str, rp: &str| format!("{TRACK}{{user_id: u, anonymous_id: an, resolved_user_id: ru, timestamp: ts, context: ingester::Context{{library: l, page: p, user_agent: {ua}, ip: ip, campaign: ca}}, event: ev, resolved_event: rev, properties: p, resolved_properties: {rp}, group_values: gv, resolved_group_values: rg}}");
    let res = |ua: &str, rp: &str| format!("Ok(Track{{anonymous_id: an, context: Context{{campaign: ca, ip: ip, library: l, page: p, user_agent: {ua}}}, event: ev, group_values: gv, properties: p, resolved_event: rev, resolved_group_values: rg, resolved_properties: {rp}, resolved_user_id: ru, timestamp: ts, user_id: u}})");
    let d = World::new(&["metadata", "storage"]).run(ck, f, Some(me), &[ctx, &req("None", "Some([x])")]);
    expect(ck, "transform", "UserAgent:no user agent", &d, &res("None", "Some([x])"), &[], &[]);
    // the version levels known of the operating system: none .. all four
    for full in 0..=4usize {
        let levels = ["major", "minor", "patch", "patch_minor"];
        let has = |s: &str, f: &str, always: bool| always || if s == "os" { levels.iter().position(|l| *l == f).map_or(full > 0, |i| i < full) } else { full > 1 };
        let part = |s: &str| fields.iter().filter(|x| x.1 == s && x.0 != "OS Family").map(|(_, _, f, al)| format!("{f}: {}", if *al { format!("{s}_{f}") } else if has(s, f, false) { format!("Some({s}_{f})") } else { "None".into() })).collect::<Vec<_>>().join(", ");
        let client = format!("uaparser::Client{{user_agent: uaparser::UserAgent{{{}, patch: None}}, device: uaparser::Device{{{}}}, os: uaparser::OS{{{}}}}}", part("user_agent"), part("device"), part("os"));
        let client: &'static str = Box::leak(client.into_boxed_str());
        for (pw, rp) in [("", "Some([x])"), (", no other property", "None")] {
            let mk = || {
                let mut w = World::new(&["metadata", "storage"]).with("get_by_name", "Ok(p#)");
                w.pure_ = vec![("parse", client)];
                w
            };
            let d = mk().run(ck, f, Some(me), &[ctx, &req("Some(ua)", rp)]);
            // the text of the system and its version
            let mut osf = vec!["os_family".to_string()];
            osf.extend(levels.iter().take(full).map(|l| format!("os_{l}")));
            let form = ["{}", "{} {}", "{} {}.{}", "{} {}.{}.{}", "{} {}.{}.{}.{}"][full];
            let mut want: Vec<(String, String)> = fields.iter().filter(|(_, s, f, al)| has(s, f, *al)).map(|(n, s, f, _)| (n.to_string(), format!("{s}_{f}"))).collect();
            want.push(("OS Family".into(), if full == 0 { "os_family".into() } else { format!("fmt({form:?}, {}", osf.join(", ")) }));
            let at = (d.at.0.as_str(), d.at.1);
            let what = format!("UserAgent:{full} version levels{pw}");
            // names asked for, in the order they are answered with p1, p2, ..
            let names: Vec<String> = d.log.iter().filter_map(|l| l.strip_prefix("pp.get_by_name(pid, \"").or(l.strip_prefix("properties.get_by_name(pid, \"")).and_then(|l| l.strip_suffix("\")"))).map(|s| s.to_string()).collect();
            let mut got = vec![];
            let one = d.out.iter().next().cloned().unwrap_or_default();
            let mut extra = vec![];
            if let Some((_, t)) = one.split_once("resolved_properties: Some([") {
                let t = t.split("]), resolved_user_id").next().unwrap_or("");
                for e in t.split("PropertyAndValue{property: ") {
                    let e = e.trim_end_matches(", ");
                    match e.split_once(", value: PropValue::String(") {
                        Some((p, v)) => {
                            let n = p.strip_prefix('p').and_then(|n| n.parse::<usize>().ok()).and_then(|n| names.get(n - 1)).cloned().unwrap_or(p.to_string());
                            got.push((n, v.trim_end_matches(['}', ')']).to_string()));
                        }
                        None if !e.is_empty() => extra.push(e.to_string()),
                        _ => {}
                    }
                }
            }
            for g in &mut got {
                if let Some(x) = g.1.strip_prefix("fmt(\"{}\", ") {
                    g.1 = x.to_string();
                }
            }
            got.sort();
            want.sort();
            ck.req("transform", d.out.len() == 1 && got == want, format!("{what}:properties"), at, format!("{what}: the event's properties must be {want:?}, they are {got:?} (ends {})", d.out.len()));
            ck.req("transform", extra == if pw.is_empty() { vec!["x".to_string()] } else { vec![] }, format!("{what}:kept"), at, format!("{what}: the properties the event already has must stay, {extra:?} stay"));
            let rest = one.split("resolved_properties: ").next().unwrap_or("").to_string() + one.split("]), resolved_user_id").nth(1).unwrap_or("");
            let wr = res("Some(ua)", "@");
            let wr = wr.split("resolved_properties: ").next().unwrap_or("").to_string() + wr.split("@, resolved_user_id").nth(1).unwrap_or("");
            ck.req("transform", rest == wr, format!("{what}:rest"), at, format!("{what}: the rest of the event must stay as it is: {rest}"));
            if full == 4 {
                failures(ck, &what, f, &mk, me, &[ctx, &req("Some(ua)", rp)], &d);
            }
        }
    }
    // the place of the address
    let Some(f) = ck.impl_fn("ingester", "Geo", "Transformer", "Track", "process") else { return };
    let me = "ingester::transformers::geo::track::Geo{city_rdr: rd, properties: pp}";
    let named = |w: &str, on: u8| match on {
        0 => "None".to_string(),
        1 => format!("Some(maxminddb::{w}{{names: None}})"),
        _ => format!("Some(maxminddb::{w}{{names: Some(n{w})}})"),
    };
    for co in 0..3u8 {
        for ci in 0..3u8 {
            let city: &'static str = Box::leak(format!("Ok(maxminddb::geoip2::City{{country: {}, city: {}}})", named("country", co), named("city", ci)).into_boxed_str());
            let mk = || {
                let mut w = World::new(&["metadata", "storage"]).with("lookup", city);
                w.also = vec!["lookup"];
                w.pure_ = vec![("get", "Some(english)")];
                for n in ["Country", "City"] {
                    w = w.with(&format!("properties.get_by_name(pid, {n:?})"), &format!("Ok(\"p{n}\")")).with(&format!("pp.get_by_name(pid, {n:?})"), &format!("Ok(\"p{n}\")"));
                }
                w
            };
            let what = format!("Geo:country {co}, city {ci}");
            let d = mk().run(ck, f, Some(me), &[ctx, &req("ua", "Some([x])")]);
            let mut l = vec!["x".to_string()];
            for (n, on) in [("Country", co), ("City", ci)] {
                if on == 2 {
                    l.push(format!("PropertyAndValue{{property: \"p{n}\", value: PropValue::String(english)}}"));
                }
            }
            let want = res("ua", &format!("Some([{}])", l.join(", ")));
            let at = (d.at.0.as_str(), d.at.1);
            ck.req("transform", d.out.len() == 1 && d.out.contains(&want), format!("{what}:result"), at, format!("{what}: must give {want}, gives {:?}", d.out));
            ck.req("transform", d.log.first().map_or(false, |l| l.ends_with("lookup(ip)")), format!("{what}:lookup"), at, format!("{what}: the address of the event is looked up, found {:?}", d.log));
            if co == 2 && ci == 2 {
                let d = World::new(&["metadata", "storage"]).with("get_by_name", "Err(metadata::error::MetadataError::Internal(broken))");
                let mut d = d;
                d.also = vec!["lookup"];
                d.pure_ = vec![("get", "Some(english)")];
                let d = d.with("lookup", city).run(ck, f, Some(me), &[ctx, &req("ua", "None")]);
                expect_out(ck, "failure", "Geo:property list fails", &d, "broken", &[]);
            }
        }
    }
    for (w, e, tolerated) in [("address not found", "maxminddb::MaxMindDBError::AddressNotFoundError(m)", true), ("broken database", "maxminddb::MaxMindDBError::IoError(m)", false)] {
        let mut wd = World::new(&["metadata", "storage"]).with("lookup", &format!("Err(ingester::error::IngesterError::Maxmind({e}))"));
        wd.also = vec!["lookup"];
        let d = wd.run(ck, f, Some(me), &[ctx, &req("ua", "Some([x])")]);
        if tolerated {
            expect(ck, "transform", &format!("Geo:{w}"), &d, &res("ua", "Some([x])"), &d.log.clone(), &[]);
        } else {
            expect_out(ck, "transform", &format!("Geo:{w}"), &d, "IoError", &[]);
        }
    }
}
// ---- the endpoints

fn endpoints(ck: &mut Ck) {
    let h = "ingester::sources::http";
    let ctx = |w: &str, f: &[(&str, &str)]| format!("{w}{{{}}}", f.iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join(", "));
    let lib = &[("name", "ln"), ("version", "lv")][..];
    let page = &[("path", "pp"), ("referrer", "pr"), ("search", "ps"), ("title", "pt"), ("url", "pu")][..];
    let camp = &[("source", "cs"), ("medium", "cm"), ("campaign", "cc"), ("term", "ct"), ("content", "cn")][..];
    let sorted = |w: &str, f: &[(&str, &str)]| {
        let mut f = f.to_vec();
        f.sort();
        format!("{w}{{{}}}", f.iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join(", "))
    };
    for op in ["track", "identify"] {
        let Some(f) = ck.func(&format!("{h}::{op}")) else { continue };
        for full in [true, false] {
            let some = |s: String| if full { format!("Some({s})") } else { "None".into() };
            let context = format!("{h}::Context{{library: {}, page: {}, user_agent: ua, ip: {}, campaign: {}}}", some(ctx(&format!("{h}::Library"), lib)), some(ctx(&format!("{h}::Page"), page)), some("ip".into()), some(ctx(&format!("{h}::Campaign"), camp)));
            let context_out = format!("Context{{campaign: {}, ip: {}, library: {}, page: {}, user_agent: ua}}", some(sorted("Campaign", camp)), if full { "ip" } else { "ip(addr)" }, some(sorted("Library", lib)), some(sorted("Page", page)));
            let (pi, po) = if full {
                (format!("Some([{}])", KINDS.iter().map(|(k, t)| format!("(\"{k}\", {h}::PropValue::{t}({k}v))")).collect::<Vec<_>>().join(", ")), format!("Some([{}])", KINDS.iter().map(|(k, t)| format!("(\"{k}\", PropValue::{t}({k}v))")).collect::<Vec<_>>().join(", ")))
            } else {
                ("None".to_string(), "None".to_string())
            };
            let ts = some("ts".into());
            let tso = if full { "ts" } else { "now()" };
            let body = if op == "track" {
                format!("Ok({h}::TrackRequest{{user_id: u, anonymous_id: an, timestamp: {ts}, context: {context}, event: ev, properties: {pi}, groups: gs}})")
            } else {
                format!("Ok({h}::IdentifyRequest{{timestamp: {ts}, context: {context}, group: g, id: i, properties: {pi}}})")
            };
            let body: &'static str = Box::leak(body.into_boxed_str());
            let mk = |b: &str| {
                let mut w = World::new(&["metadata", "storage"]).with("from_str", b);
                w.also = vec!["from_str"];
                w.shut = vec!["execute"];
                w
            };
            let args = ["axum::extract::ConnectInfo(addr)", &format!("axum::Extension({h}::App{{track: xt, identify: xi}})"), "axum::extract::Path(tok)", "body"];
            let me = "none";
            let d = mk(body).run(ck, f, Some(me), &args);
            let who = "RequestContext{client_ip: ip(addr), project_id: None, token: tok}";
            let (call, out) = if op == "track" {
                (format!("xt.execute({who}, Track{{anonymous_id: an, context: {context_out}, event: ev, group_values: gs, properties: {po}, resolved_event: None, resolved_group_values: None, resolved_properties: None, resolved_user_id: None, timestamp: {tso}, user_id: u}})"), "Ok(StatusCode::CREATED)")
            } else {
                (format!("xi.execute({who}, Identify{{context: {context_out}, group: g, group_id: 0, id: i, properties: {po}, resolved_group_values: None, resolved_properties: None, timestamp: {tso}}})"), "Ok(StatusCode::NO_CONTENT)")
            };
            let what = format!("{op}:{}", if full { "full body" } else { "short body" });
            expect(ck, "endpoint", &what, &d, out, &["from_str(body)".to_string(), call], &[]);
            if full {
                let d2 = mk("Err(unreadable)").run(ck, f, Some(me), &args);
                expect_out(ck, "failure", &format!("{op}:unreadable body"), &d2, "unreadable", &["execute"]);
                let mut w = mk(body);
                w = w.with("execute", "Err(broken)");
                let d3 = w.run(ck, f, Some(me), &args);
                expect_out(ck, "failure", &format!("{op}:executor fails"), &d3, "broken", &["none"]);
            }
        }
    }
}
/// the two routes and what stands behind them
fn routing(ck: &mut Ck) {
    let h = "ingester::sources::http";
    let Some(f) = ck.func(&format!("{h}::attach_routes")) else { return };
    let m = ck.m;
    let mut it = fresh(ck);
    it.eval_consts = true;
    let args: Vec<_> = ["router", "tx", "ix"].iter().map(|s| term(&mut it, s)).collect();
    let ex = it.run(f.id, Some(args), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let (mut rs, mut bad) = (vec![], vec![]);
    for e in &ex {
        super::route::routes(&it.a, e.v, "", &[], &mut rs, &mut bad);
    }
    let at = (f.file.as_str(), f.line);
    for (path, op) in [("/api/v1/ingest/:token/track", "track"), ("/api/v1/ingest/:token/identify", "identify")] {
        let r: Vec<_> = rs.iter().filter(|r| r.path == path && r.verb == "POST").collect();
        let to: Vec<_> = r.iter().map(|r| it.a.show_d(r.handler, 4)).collect();
        ck.req("route", to == [format!("{h}::{op}")], format!("post {path}"), at, format!("post {path} must be answered by {op}, is by {to:?}"));
        for r in r {
            let app: Vec<_> = r.layers.iter().map(|l| txt(&it.a, *l)).filter(|t| t.contains("App{")).collect();
            ck.req("route", app == ["Extension(App{identify: ix, track: tx})"], format!("post {path}:app"), at, format!("{path} must find the two executors, finds {app:?}"));
        }
    }
    ck.req("route", rs.len() == 2, "routes", at, format!("two ingestion routes, found {:?}", rs.iter().map(|r| &r.path).collect::<Vec<_>>()));
    let Some(f) = ck.func("cmd::init_ingester") else { return };
    let mut w = World::new(&[]).with("open", "Ok(file)").with("from_file", "Ok(parser)").with("open_readfile", "Ok(cities)");
    w.also = vec!["open", "from_file", "open_readfile"];
    w.shut = vec!["attach_routes"];
    let d = w.run(ck, f, None, &["geo_path", "ua_path", "md", "db", "router"]);
    let local = "[Local{db: db, md: md}]";
    let out = format!("Ok(attach_routes(router, Executor{{db: db, destinations: {local}, md: md, transformers: [UserAgent{{properties: md.event_properties, ua_parser: parser}}, Geo{{city_rdr: cities, properties: md.event_properties}}]}}, Executor{{db: db, destinations: {local}, md: md, transformers: []}}))");
    expect(ck, "wiring", "init_ingester", &d, &out, &["open(ua_path)".into(), "from_file(file)".into(), "open_readfile(geo_path)".into()], &[]);
}
pub fn check(ck: &mut Ck) {
    routing(ck);
    ck.rule("the ingestion functions interpreted on complete requests, case by case, against parts (metadata, storage, transformers, destinations) that answer symbolically: the calls made, with their arguments, are exactly the listed ones; a failing part is the answer and nothing follows it");
    executor(ck);
    values(ck);
    stores(ck);
    transformers(ck);
    endpoints(ck);
}
