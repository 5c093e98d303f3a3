//! The HTTP interface: verb and path -> operation, path parameters, body; what an operation makes of its request.
use std::collections::{BTreeMap, BTreeSet};

use super::meta::*;
use super::perm::{op_interp, operations};
use super::tab::short;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

pub struct Route {
    pub verb: String,
    pub path: String,
    pub handler: Vid,
    /// the layers around the route
    pub layers: Vec<Vid>,
}

fn lit(a: &Arena, v: Vid) -> Option<String> {
    match a.get(v) {
        Val::Lit(s) => Some(s.trim_matches('"').to_string()),
        _ => None,
    }
}

const VERBS: &[&str] = &["get", "post", "put", "delete", "patch", "head", "options", "any", "trace"];

fn methods(a: &Arena, v: Vid, out: &mut Vec<(String, Vid)>) -> bool {
    match a.get(v) {
        Val::Call { f, args } if VERBS.contains(&last_of(f).trim_start_matches('.')) => {
            let verb = last_of(f).trim_start_matches('.').to_string();
            match args.len() {
                1 => {
                    out.push((verb, args[0]));
                    true
                }
                2 => {
                    let ok = methods(a, args[0], out);
                    out.push((verb, args[1]));
                    ok
                }
                _ => false,
            }
        }
        _ => false,
    }
}

/// all (verb, path, handler) a router term serves; `layers` = the layers around each
pub fn routes(a: &Arena, v: Vid, prefix: &str, layers: &[Vid], out: &mut Vec<Route>, bad: &mut Vec<String>) {
    match a.get(v) {
        Val::Call { f, args } => {
            let n = last_of(f).trim_start_matches('.');
            match (n, args.len()) {
                ("layer", 2) | ("route_layer", 2) => {
                    let mut l = layers.to_vec();
                    l.push(args[1]);
                    routes(a, args[0], prefix, &l, out, bad)
                }
                ("nest_service", 3) | ("fallback_service", 2) | ("clone", 1) | ("fallback", 2) | ("with_state", 2) => routes(a, args[0], prefix, layers, out, bad),
                ("route", 3) => {
                    routes(a, args[0], prefix, layers, out, bad);
                    let mut ms = vec![];
                    match (lit(a, args[1]), methods(a, args[2], &mut ms)) {
                        (Some(p), true) => {
                            let full = if p == "/" && !prefix.is_empty() { prefix.to_string() } else { format!("{prefix}{p}") };
                            for (verb, handler) in ms {
                                out.push(Route { verb: verb.to_uppercase(), path: full.clone(), handler, layers: layers.to_vec() });
                            }
                        }
                        _ => bad.push(short(&a.show_d(v, 3))),
                    }
                }
                ("nest", 3) => {
                    routes(a, args[0], prefix, layers, out, bad);
                    match lit(a, args[1]) {
                        Some(p) => routes(a, args[2], &format!("{prefix}{}", p.trim_end_matches('/')), layers, out, bad),
                        None => bad.push(short(&a.show_d(v, 3))),
                    }
                }
                ("merge", 2) => {
                    routes(a, args[0], prefix, layers, out, bad);
                    routes(a, args[1], prefix, layers, out, bad);
                }
                ("new", _) | ("default", _) if f.contains("Router") => {}
                _ => bad.push(short(&a.show_d(v, 3))),
            }
        }
        Val::Param(_) if prefix.is_empty() => {}
        _ => bad.push(short(&a.show_d(v, 3))),
    }
}

/// "{}" for each parameter, and their names
fn shape(p: &str) -> (String, Vec<String>) {
    let mut names = vec![];
    let s: Vec<String> = p
        .split('/')
        .map(|x| {
            if let Some(n) = x.strip_prefix(':').or_else(|| x.strip_prefix('*')) {
                names.push(n.to_string());
                "{}".into()
            } else {
                x.to_string()
            }
        })
        .collect();
    (s.join("/"), names)
}

/// how a handler's value is named in the tables: ctx, a path parameter's number, body, body.f, query, ...
fn token<'m>(it: &Interp<'m>, f: &FnDef, v: Vid, names: &[String]) -> String {
    let a = &it.a;
    let v = strip(a, v);
    let pt = |x: Vid| match a.get(x) {
        Val::Param(n) => f.params.iter().find(|p| pat_name(&p.0) == *n).map(|p| p.1.clone()),
        _ => None,
    };
    // payload of an extractor
    let ext = |x: Vid| match a.get(x) {
        Val::Payload(b, p, _) if matches!(a.get(*b), Val::Param(_)) => Some((last_seg(p).to_string(), *b)),
        Val::Field(b, i) if i == "0" => pt(*b).map(|t| (t.name().to_string(), *b)),
        _ => None,
    };
    if let Some((e, b)) = ext(v) {
        return match e.as_str() {
            "Path" => {
                let _ = b;
                "0".into()
            }
            "Json" => "body".into(),
            "Query" => "query".into(),
            e => e.to_lowercase(),
        };
    }
    match a.get(v) {
        Val::Param(n) => match pt(v) {
            Some(t) if t.path() == "platform::context::Context" => "ctx".into(),
            _ => n.clone(),
        },
        Val::Field(b, x) => {
            if let Some((e, _)) = ext(*b) {
                if e == "Path" {
                    return match x.parse::<usize>() {
                        Ok(n) => n.to_string(),
                        Err(_) => names.iter().position(|n| n == x).map_or(format!("?{x}"), |n| n.to_string()),
                    };
                }
            }
            format!("{}.{x}", token(it, f, *b, names))
        }
        Val::Index(b, i) => format!("{}[{}]", token(it, f, *b, names), token(it, f, *i, names)),
        Val::Payload(b, p, _) => format!("{}~{}", token(it, f, *b, names), last_seg(p)),
        Val::Call { f: g, args } => {
            let ts: Vec<String> = args.iter().map(|x| token(it, f, *x, names)).collect();
            match (last_of(g).trim_start_matches('.'), ts.len()) {
                ("get", 2) => format!("{}[{}]", ts[0], ts[1]),
                ("ok_or", _) | ("ok_or_else", _) | ("as_str", 1) | ("to_string", 1) | ("to_owned", 1) => ts[0].clone(),
                (n, _) => format!("{n}({})", ts.join(",")),
            }
        }
        Val::Ctor { p, f: fs } => {
            // a copy of the body, field by field
            let ts: Vec<(String, String)> = fs.iter().map(|x| (x.0.clone(), token(it, f, x.1, names))).collect();
            let all = it.m.structs.get(p).map_or(false, |s| s.fields.len() == ts.len());
            if all && ts.iter().all(|(n, t)| *t == format!("body.{n}")) {
                "body".into()
            } else {
                format!("{}{{{}}}", last_seg(p), ts.iter().map(|(n, t)| format!("{n}:{t}")).collect::<Vec<_>>().join(","))
            }
        }
        Val::Join(vs) => {
            let s: BTreeSet<String> = vs.iter().map(|x| token(it, f, *x, names)).collect();
            s.into_iter().collect::<Vec<_>>().join("|")
        }
        _ => short(&a.show_d(v, 3)),
    }
}

/// (request, operation, its arguments after the receiver, the receiver inside the extension); `{}` = path parameter
const ROUTES: &[(&str, &str, &str, &str)] = &[
    ("POST /api/v1/organizations", "Organizations::create", "ctx body", ""),
    ("GET /api/v1/organizations", "Organizations::list", "ctx", ""),
    ("GET /api/v1/organizations/{}", "Organizations::get_by_id", "ctx 0", ""),
    ("DELETE /api/v1/organizations/{}", "Organizations::delete", "ctx 0", ""),
    ("PUT /api/v1/organizations/{}", "Organizations::update", "ctx 0 body", ""),
    ("POST /api/v1/projects", "Projects::create", "ctx body", ""),
    ("GET /api/v1/projects", "Projects::list", "ctx", ""),
    ("GET /api/v1/projects/{}", "Projects::get_by_id", "ctx 0", ""),
    ("DELETE /api/v1/projects/{}", "Projects::delete", "ctx 0", ""),
    ("PUT /api/v1/projects/{}", "Projects::update", "ctx 0 body", ""),
    ("POST /api/v1/accounts", "Accounts::create", "ctx body", ""),
    ("GET /api/v1/accounts", "Accounts::list", "ctx", ""),
    ("GET /api/v1/accounts/{}", "Accounts::get_by_id", "ctx 0", ""),
    ("DELETE /api/v1/accounts/{}", "Accounts::delete", "ctx 0", ""),
    ("PUT /api/v1/accounts/{}", "Accounts::update", "ctx 0 body", ""),
    ("GET /api/v1/admin/backups", "Backups::list", "ctx", ""),
    ("POST /api/v1/admin/backups/backup", "Backups::backup", "ctx", ""),
    ("GET /api/v1/admin/backups/{}", "Backups::get_by_id", "ctx 0", ""),
    ("PUT /api/v1/admin/settings", "SettingsProvider::set", "ctx body", ""),
    ("GET /api/v1/admin/settings", "SettingsProvider::get", "ctx", ""),
    ("POST /api/v1/auth/signup", "Auth::sign_up", "body", ""),
    ("POST /api/v1/auth/login", "Auth::log_in", "body None{}|body parse(value(cookies[COOKIE_NAME_ORGANIZATION_ID]))", ""),
    ("POST /api/v1/auth/refresh-token", "Auth::refresh_token", "ctx body.refresh_token|value(cookies[COOKIE_NAME_REFRESH_TOKEN])", ""),
    ("POST /api/v1/auth/switch-organization/{}", "Auth::switch_organization", "ctx 0", ""),
    ("GET /api/v1/profile", "Auth::get", "ctx", ""),
    ("PUT /api/v1/profile/name", "Auth::update_name", "ctx body.name", ""),
    ("PUT /api/v1/profile/email", "Auth::update_email", "ctx body", ""),
    ("PUT /api/v1/profile/password", "Auth::update_password", "ctx body", ""),
    ("PUT /api/v1/profile/set-password", "Auth::set_password", "ctx body", ""),
    ("PUT /api/v1/profile/set-email", "Auth::set_email", "ctx body", ""),
    ("POST /api/v1/projects/{}/schema/events", "Events::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/schema/events", "Events::list", "ctx 0", ""),
    ("GET /api/v1/projects/{}/schema/events/{}", "Events::get_by_id", "ctx 0 1", ""),
    ("DELETE /api/v1/projects/{}/schema/events/{}", "Events::delete", "ctx 0 1", ""),
    ("PUT /api/v1/projects/{}/schema/events/{}", "Events::update", "ctx 0 1 body", ""),
    ("GET /api/v1/projects/{}/schema/events/name/{}", "Events::get_by_name", "ctx 0 1", ""),
    ("POST /api/v1/projects/{}/schema/events/{}/properties/{}", "Events::attach_property", "ctx 0 1 2", ""),
    ("DELETE /api/v1/projects/{}/schema/events/{}/properties/{}", "Events::detach_property", "ctx 0 1 2", ""),
    ("POST /api/v1/projects/{}/schema/custom-events", "CustomEvents::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/schema/custom-events", "CustomEvents::list", "ctx 0", ""),
    ("GET /api/v1/projects/{}/schema/custom-events/{}", "CustomEvents::get_by_id", "ctx 0 1", ""),
    ("DELETE /api/v1/projects/{}/schema/custom-events/{}", "CustomEvents::delete", "ctx 0 1", ""),
    ("PUT /api/v1/projects/{}/schema/custom-events/{}", "CustomEvents::update", "ctx 0 1 body", ""),
    ("POST /api/v1/projects/{}/groups", "Groups::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/groups", "Groups::list", "ctx 0", ""),
    ("POST /api/v1/projects/{}/property-values", "Properties::values", "ctx 0 body", ".events"),
    ("GET /api/v1/projects/{}/schema/event-properties", "Properties::list", "ctx 0", ".events"),
    ("GET /api/v1/projects/{}/schema/event-properties/{}", "Properties::get_by_id", "ctx 0 1", ".events"),
    ("DELETE /api/v1/projects/{}/schema/event-properties/{}", "Properties::delete", "ctx 0 1", ".events"),
    ("PUT /api/v1/projects/{}/schema/event-properties/{}", "Properties::update", "ctx 0 1 body", ".events"),
    ("GET /api/v1/projects/{}/schema/event-properties/name/{}", "Properties::get_by_name", "ctx 0 1", ".events"),
    ("GET /api/v1/projects/{}/schema/group-properties/{}", "Properties::list", "ctx 0", ".groups[1]"),
    ("GET /api/v1/projects/{}/schema/group-properties/{}/{}", "Properties::get_by_id", "ctx 0 2", ".groups[1]"),
    ("DELETE /api/v1/projects/{}/schema/group-properties/{}/{}", "Properties::delete", "ctx 0 2", ".groups[1]"),
    ("PUT /api/v1/projects/{}/schema/group-properties/{}/{}", "Properties::update", "ctx 0 2 body", ".groups[1]"),
    ("GET /api/v1/projects/{}/schema/group-properties/{}/name/{}", "Properties::get_by_name", "ctx 0 2", ".groups[1]"),
    ("POST /api/v1/projects/{}/dashboards", "Dashboards::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/dashboards", "Dashboards::list", "ctx 0", ""),
    ("GET /api/v1/projects/{}/dashboards/{}", "Dashboards::get_by_id", "ctx 0 1", ""),
    ("DELETE /api/v1/projects/{}/dashboards/{}", "Dashboards::delete", "ctx 0 1", ""),
    ("PUT /api/v1/projects/{}/dashboards/{}", "Dashboards::update", "ctx 0 1 body", ""),
    ("POST /api/v1/projects/{}/reports", "Reports::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/reports", "Reports::list", "ctx 0", ""),
    ("GET /api/v1/projects/{}/reports/{}", "Reports::get_by_id", "ctx 0 1", ""),
    ("DELETE /api/v1/projects/{}/reports/{}", "Reports::delete", "ctx 0 1", ""),
    ("PUT /api/v1/projects/{}/reports/{}", "Reports::update", "ctx 0 1 body", ""),
    ("POST /api/v1/projects/{}/bookmarks", "Bookmarks::create", "ctx 0 body", ""),
    ("GET /api/v1/projects/{}/bookmarks/{}", "Bookmarks::get", "ctx 0 1", ""),
    ("GET /api/v1/projects/{}/event-records/{}", "EventRecords::get_by_id", "ctx 0 1", ""),
    ("POST /api/v1/projects/{}/event-records/search", "EventRecords::search", "ctx 0 body query", ""),
    ("POST /api/v1/projects/{}/queries/event-segmentation", "EventSegmentation::event_segmentation", "ctx 0 body query", ""),
    ("POST /api/v1/projects/{}/queries/funnel", "Funnel::funnel", "ctx 0 body query", ""),
    ("POST /api/v1/projects/{}/group-records/search", "GroupRecords::search", "ctx 0 body query", ""),
    ("GET /api/v1/projects/{}/group-records/{}/{}", "GroupRecords::get_by_id", "ctx 0 1 2", ""),
];

/// how many path parameters the handler's Path extractor takes; None: two extractors, or not understood
fn arity(m: &Model, h: &FnDef) -> Option<usize> {
    let ps: Vec<&Ty> = h.params.iter().map(|p| &p.1).filter(|t| t.path().starts_with("axum") && t.name() == "Path").collect();
    match ps.len() {
        0 => Some(0),
        1 => match ps[0].arg(0) {
            Ty::Tuple(v) => Some(v.len()),
            t => match m.structs.get(t.path()) {
                Some(s) => Some(s.fields.len()),
                None => Some(1),
            },
        },
        _ => None,
    }
}

/// what the caller's context is made from
const CONTEXT_NEEDS: &[&str] = &["Arc<metadata::settings::SettingsProvider>", "Arc<metadata::accounts::Accounts>"];

fn type_of(m: &Model, f: &FnDef, a: &Arena, v: Vid) -> Ty {
    match a.get(v) {
        Val::Param(n) => f.params.iter().find(|p| pat_name(&p.0) == *n).map_or(Ty::Unknown, |p| p.1.clone()),
        Val::Field(b, x) => {
            let t = type_of(m, f, a, *b);
            m.structs.get(t.peel().path()).and_then(|s| s.fields.iter().find(|g| g.0 == *x)).map_or(Ty::Unknown, |g| g.1.clone())
        }
        Val::Call { f: g, args } if args.len() == 1 && last_of(g).ends_with("clone") => type_of(m, f, a, args[0]),
        Val::Ctor { p, .. } => m.structs.get(p).map_or(Ty::Unknown, |s| Ty::Path(s.path.clone(), vec![])),
        _ => Ty::Unknown,
    }
}

pub fn check(ck: &mut Ck) {
    ck.rule("every route of the HTTP interface (verb, path) is evaluated to its handler, and the handler to the one operation it calls: that is the operation of the route table, on the collection named by the path, with the path parameters in the order of the path and the whole request body");
    ck.rule("a handler extracts exactly as many path parameters as its route has, with one extractor");
    ck.rule("every handler answers successfully only after the operation succeeded, with the operation's result");
    ck.rule("each operation hands every field of its request, and nothing else, to the same-named field of the store's request, its ids in order, and records the caller as author");
    if std::env::var("DUMPOPS").is_ok() {
        return dump_ops(ck);
    }
    table(ck);
    requests(ck);
    settings(ck);
}

fn table(ck: &mut Ck) {
    let m = ck.m;
    let Some(f) = ck.func("platform::http::attach_routes") else { return };
    let mut it = Interp::new(m);
    it.eval_consts = true;
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let mut rs = vec![];
    let mut bad = vec![];
    for e in &ex {
        routes(&it.a, e.v, "", &[], &mut rs, &mut bad);
    }
    for b in bad {
        ck.fail("routes:shape", &f.file, f.line, format!("route construction not understood: {b}"));
    }
    let ops: BTreeSet<usize> = m.fns.iter().filter(|g| g.krate == "platform" && g.has_self && g.sig.asyncness.is_some() && g.is_pub && !g.path.starts_with("platform::http::")).map(|g| g.id).collect();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for r in &rs {
        let (p, names) = shape(&r.path);
        let key = format!("{} {p}", r.verb);
        *seen.entry(key.clone()).or_default() += 1;
        let hp = it.a.show_d(r.handler, 4);
        let Some(h) = m.fns.iter().find(|f| f.path == hp) else {
            ck.fail(format!("{key}:handler"), &f.file, f.line, format!("the handler of {key} is not understood: {hp}"));
            continue;
        };
        let at = (h.file.as_str(), h.line);
        let n = arity(m, h);
        ck.req("path-arity", n == Some(names.len()) || n == Some(0), format!("{key}:parameters"), at, format!("the route {key} has {} path parameters, its handler {} extracts {:?}", names.len(), h.path, n));
        // everything the handler takes from its extensions is layered around the route
        let have: BTreeSet<String> = r.layers.iter().filter_map(|l| match it.a.get(*l) {
            Val::Ctor { p, f: x } if last_seg(p) == "Extension" => Some(x[0].1),
            Val::Call { f, args } if last_of(f) == "Extension" && args.len() == 1 => Some(args[0]),
            _ => None,
        }).map(|v| type_of(m, f, &it.a, v).show()).collect();
        let mut need: Vec<String> = h.params.iter().filter(|p| p.1.name() == "Extension").map(|p| p.1.arg(0).show()).collect();
        if h.params.iter().any(|p| p.1.path() == "platform::context::Context") {
            need.extend(CONTEXT_NEEDS.iter().map(|x| x.to_string()));
        }
        for t in need {
            ck.req("extension", have.contains(&t), format!("{key}:{t}"), at, format!("the handler of {key} takes an Extension<{t}>, which is not layered around its route"));
        }
        let Some(want) = ROUTES.iter().find(|x| x.0 == key) else { continue };
        let mut i2 = op_interp(m);
        i2.opaque = Box::new(move |g| g.krate == "platform" && (g.has_self && !g.path.starts_with("platform::http::") || ["into", "from"].contains(&g.name.as_str())));
        let ex = i2.run(h.id, None, None);
        ck.absorb(&i2);
        ck.paths += ex.len();
        let calls: Vec<usize> = (0..i2.events.len()).filter(|i| i2.events[*i].fid.map_or(false, |x| ops.contains(&x))).collect();
        ck.req("route", !calls.is_empty(), format!("{key}:operation"), at, format!("{key} reaches no operation, expected {}", want.1));
        for c in &calls {
            let e = &i2.events[*c];
            let name = short(e.f.trim_start_matches("platform::"));
            let op = name.rsplit("::").take(2).collect::<Vec<_>>();
            let op = format!("{}::{}", op[1], op[0]);
            ck.req("route", op == want.1, format!("{key}:operation"), (&e.file, e.line), format!("{key} must reach {}, reaches {op}", want.1));
            let ts: Vec<String> = e.args.iter().map(|x| token(&i2, h, *x, &names)).collect();
            let recv = format!("extension{}", want.3);
            let args = ts[1..].join(" ");
            let alts: Vec<&str> = if op == "Auth::log_in" { want.2.split('|').collect() } else { vec![want.2] };
            ck.req("route-args", ts[0] == recv && alts.contains(&args.as_str()), format!("{key}:arguments"), (&e.file, e.line), format!("{key} must call {op} on {recv} with ({}), calls it on {} with ({args})", want.2, ts[0]));
        }
        for x in &ex {
            if matches!(i2.a.get(x.v), Val::Ctor { p, .. } if p == "Err") {
                continue;
            }
            let ok = calls.iter().any(|c| i2.has_ok(&x.s.must, i2.events[*c].val) || i2.a.get(x.v) == i2.a.get(i2.events[*c].val));
            ck.req("route-ok", ok, format!("{key}:success"), (&h.file, x.line), format!("{key} can answer successfully although the operation was not called or failed"));
            let unit = last_ret(&h.ret) == "StatusCode" || h.ret.show().contains("StatusCode") && !h.ret.show().contains("Json");
            let res = calls.iter().any(|c| mentions(&i2.a, x.v, i2.events[*c].val));
            ck.req("route-ok", res || unit, format!("{key}:answer"), (&h.file, x.line), format!("{key} answers with something else than the operation's result"));
        }
    }
    for r in ROUTES {
        let n = seen.get(r.0).copied().unwrap_or(0);
        ck.req("routes", n == 1, format!("{}:routes", r.0), (&f.file, f.line), format!("{} is served by {n} routes, expected one", r.0));
    }
    ck.floor("route", 70);
    ck.floor("path-arity", 70);
}

/// operation -> the store call that carries it out, with the operation's own parameters in order
/// (`_` = all of them, in order); default: the same-named method of the same-named store
const STORE: &[(&str, &str, &str)] = &[
    ("Bookmarks::get", "bookmarks::Bookmarks::get_by_id", "project_id ctx.account_id id"),
    ("Groups::create", "groups::Groups::get_or_create_group", "project_id request.name request.display_name"),
    ("Groups::list", "groups::Groups::list_groups", "_"),
    ("Events::attach_property", "events::Events::attach_event_property", "_"),
    ("Events::detach_property", "events::Events::detach_event_property", "_"),
];
/// decided elsewhere: the caller's own account (C15), the analytical queries, the settings
const ELSEWHERE: &[&str] = &["Auth::", "EventSegmentation::", "Funnel::", "EventRecords::", "GroupRecords::", "SettingsProvider::", "Properties::values", "Backups::backup"];
/// (operation, field of the store's request, what it must be) for fields the request does not have
const DERIVED: &[(&str, &str, &str)] = &[
    ("Accounts::create", "password_hash", "req.password"),
    ("Accounts::update", "password_hash", "req.password"),
    ("Projects::create", "organization_id", "ctx.organization_id"),
    ("Projects::create", "token", "sample_string"),
    ("Projects::create", "session_duration_seconds", "self.cfg.misc.project_default_session_duration"),
];
/// request fields the store has no use for
const UNUSED: &[(&str, &str)] = &[("Accounts::update", "salt")];

/// the alternatives of a value, each reduced to the request path it was taken from ("" = absent or default)
fn sources(it: &Interp, v: Vid, out: &mut BTreeSet<String>) {
    let a = &it.a;
    let v = strip(a, v);
    match a.get(v) {
        Val::Join(vs) => vs.iter().for_each(|x| sources(it, *x, out)),
        Val::Ctor { p, f } if f.is_empty() && last_seg(p) == "None" => {
            out.insert(String::new());
        }
        Val::Ctor { p, f } if f.len() == 1 && last_seg(p) == "Some" => sources(it, f[0].1, out),
        Val::Payload(b, p, _) if ["Some", "Ok"].contains(&last_seg(p)) => sources(it, *b, out),
        Val::Call { f, args } if args.len() == 1 && ["into", "from", "as_str", "to_string", "to_owned", "to_vec", "clone", "as_ref"].contains(&last_of(f).trim_start_matches('.')) => sources(it, args[0], out),
        Val::Call { f, args } if args.is_empty() && last_of(f) == "default" => {
            out.insert(String::new());
        }
        Val::Field(b, _) if matches!(a.get(*b), Val::Call { f, args } if args.is_empty() && last_of(f) == "default") => {
            out.insert(String::new());
        }
        Val::Coll { src, body } if mentions(a, *body, *src) || matches!(a.get(*body), Val::Call { .. }) => sources(it, *src, out),
        _ => {
            out.insert(otok(it, v));
        }
    }
}

fn requests(ck: &mut Ck) {
    let m = ck.m;
    let mut n = 0;
    for f in operations(m) {
        let op = format!("{}::{}", f.self_name(), f.name);
        if ELSEWHERE.iter().any(|x| op.starts_with(x)) {
            continue;
        }
        n += 1;
        let at = (f.file.as_str(), f.line);
        let special = STORE.iter().find(|x| x.0 == op);
        let store = match special {
            Some(s) => format!("metadata::{}", s.1),
            None => format!("metadata::{}", f.path.trim_start_matches("platform::")),
        };
        let mut it = op_interp(m);
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let own: Vec<String> = f.params.iter().filter(|p| p.1.path() != "platform::context::Context").map(|p| pat_name(&p.0)).collect();
        let is_req = |p: &Ty| m.structs.get(p.peel().path()).map_or(false, |s| s.path.starts_with("platform::") && s.name != "Context");
        let req = f.params.iter().find(|p| is_req(&p.1)).map(|p| (pat_name(&p.0), p.1.peel().path().to_string()));
        let want: Vec<String> = match special {
            Some(s) if s.2 != "_" => s.2.split(' ').map(|x| x.to_string()).collect(),
            _ => own.clone(),
        };
        let calls: Vec<usize> = (0..it.events.len()).filter(|i| it.events[*i].f == store).collect();
        ck.req("op-store", !calls.is_empty(), format!("{op}:store"), at, format!("{op} must be carried out by {store}, which it does not call"));
        // store field -> sources over all calls
        let mut fields: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut raw: BTreeMap<String, String> = BTreeMap::new();
        for c in &calls {
            let e = it.events[*c].clone();
            let mut got = vec![];
            for x in &e.args[1..] {
                let base = base_of(&it.a, *x);
                let st = match it.a.get(*x) {
                    Val::Ctor { p, f } if !f.is_empty() => m.structs.get(p),
                    Val::Rec(..) => e.fid.and_then(|i| m.fns[i].params.get(got.len())).and_then(|p| m.structs.get(p.1.peel().path())),
                    _ => None,
                };
                let _ = base;
                if let (Some(s), Some((r, _))) = (st, &req) {
                    for fd in &s.fields {
                        let v = it.a.field(*x, &fd.0);
                        sources(&it, v, fields.entry(fd.0.clone()).or_default());
                        raw.insert(fd.0.clone(), format!("{} {}", raw.get(&fd.0).cloned().unwrap_or_default(), it.a.show_d(v, 12)));
                    }
                    got.push(r.clone());
                } else {
                    let mut s = BTreeSet::new();
                    sources(&it, *x, &mut s);
                    got.push(s.into_iter().collect::<Vec<_>>().join("|"));
                }
            }
            ck.req("op-args", got == want, format!("{op}:arguments"), (&e.file, e.line), format!("{op} must call {store} with ({}), calls it with ({})", want.join(", "), got.join(", ")));
        }
        if let (Some((r, ty)), false) = (&req, fields.is_empty()) {
            let rf: BTreeSet<String> = m.structs[ty].fields.iter().map(|x| x.0.clone()).collect();
            for (k, s) in &fields {
                let key = format!("{op}:{k}");
                if k == "created_by" || k == "updated_by" {
                    ck.req("op-author", s.len() == 1 && s.contains("ctx.account_id"), key, at, format!("{op} records {s:?} as {k}, not the caller"));
                    continue;
                }
                let mine = format!("{r}.{k}");
                if let Some(d) = DERIVED.iter().find(|d| d.0 == op && d.1 == k) {
                    let others: Vec<&String> = rf.iter().filter(|x| raw[k].contains(&format!("{r}.{x}")) && d.2 != format!("req.{x}") && *x != k).collect();
                    ck.req("op-field", raw[k].contains(&d.2.replace("req.", &format!("{r}."))) && others.is_empty(), key, at, format!("{op} must derive {k} from {}, has {}", d.2, short(&raw[k])));
                    if rf.contains(k) {
                        ck.req("op-field", s.contains(&mine), format!("{op}:{k}:request"), at, format!("{op} does not hand on {k} of the request"));
                    }
                } else if rf.contains(k) {
                    ck.req("op-field", s.contains(&mine) && s.iter().all(|x| *x == mine || x.is_empty()), key, at, format!("{op} must hand on {k} of the request, stores {s:?}"));
                } else {
                    ck.req("op-field", s.iter().all(|x| x.is_empty()), key, at, format!("{op} stores {s:?} as {k}, which the request does not have"));
                }
            }
            for k in &rf {
                let used = fields.contains_key(k) || UNUSED.contains(&(op.as_str(), k)) || raw.values().any(|x| x.contains(&format!("{r}.{k}")));
                ck.req("op-field", used, format!("{op}:{k}:unused"), at, format!("{op} ignores {k} of the request"));
            }
        }
        for x in &ex {
            if matches!(it.a.get(x.v), Val::Ctor { p, .. } if p == "Err") {
                continue;
            }
            let ok = calls.iter().any(|c| it.has_ok(&x.s.must, it.events[*c].val) || mentions(&it.a, x.v, it.events[*c].val));
            ck.req("op-ok", ok, format!("{op}:success"), (&f.file, x.line), format!("{op} can succeed although {store} was not called or failed"));
            let res = calls.iter().any(|c| mentions(&it.a, x.v, it.events[*c].val));
            ck.req("op-ok", res, format!("{op}:answer"), (&f.file, x.line), format!("{op} answers with something else than the stored entity"));
        }
    }
    ck.floor("op-store", 45);
    ck.floor("op-field", 60);
    let _ = n;
}

/// each setting of an update request, and only it, replaces the stored one; each answered one is the stored one
fn settings(ck: &mut Ck) {
    let m = ck.m;
    let (Some(set), Some(get)) = (ck.func("platform::settings::SettingsProvider::set"), ck.func("platform::settings::SettingsProvider::get")) else { return };
    let (Some(api), Some(md)) = (m.structs.get("platform::settings::Settings"), m.structs.get("metadata::settings::Settings")) else {
        ck.fail("settings:structs", &set.file, set.line, "settings structures not found");
        return;
    };
    let load = |cur: Vid| {
        std::rc::Rc::new(move |a: &mut Arena, f: &str, _: &[Vid]| -> Option<Vid> {
            if f == "metadata::settings::SettingsProvider::load" {
                Some(a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), cur)] }))
            } else {
                None
            }
        })
    };
    let fresh = || {
        let mut it = Interp::new(m);
        it.opaque = Box::new(|f| f.path.starts_with("platform::context::Context::check_") || f.krate == "metadata" && f.has_self);
        it.eval_consts = true;
        it.precise = true;
        it.max_states = 300;
        it
    };
    for (k, t, ..) in &api.fields {
        let inner = t.arg(0);
        let vars: Vec<String> = m.enums.get(inner.path()).map(|e| e.variants.iter().map(|v| v.name.clone()).collect()).unwrap_or(vec![String::new()]);
        for var in vars {
            // update
            let mut it = fresh();
            let cur = it.param("cur");
            it.ext = Some(load(cur));
            let x = if var.is_empty() { it.param("x") } else { it.a.mk(Val::Ctor { p: format!("{}::{var}", inner.path()), f: vec![] }) };
            let some = it.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] });
            let none = it.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
            let rq = it.a.mk(Val::Ctor { p: "platform::settings::Settings".into(), f: api.fields.iter().map(|f| (f.0.clone(), if f.0 == *k { some } else { none })).collect() });
            let ctx = it.param("ctx");
            let ex = it.run(set.id, Some(vec![ctx, rq]), None);
            ck.absorb(&it);
            ck.paths += ex.len();
            let saves: Vec<Event> = it.events.iter().filter(|e| e.f == "metadata::settings::SettingsProvider::save").cloned().collect();
            ck.req("settings", !saves.is_empty(), format!("set:{k}{var}:save"), (&set.file, set.line), "updated settings are not saved");
            for e in saves {
                for g in &md.fields {
                    let v = it.a.field(e.args[1], &g.0);
                    let want = it.a.field(cur, &g.0);
                    let ok = if g.0 == *k {
                        v == x || !var.is_empty() && matches!(it.a.get(v), Val::Ctor { p, .. } if last_seg(p).eq_ignore_ascii_case(&var))
                    } else {
                        v == want
                    };
                    let what = it.a.show_d(v, 4);
                    ck.req("settings", ok, format!("set:{k}{var}:{}", g.0), (&e.file, e.line), format!("an update of {k} {var} stores {what} as {}", g.0));
                }
            }
            // answer
            let mut it = fresh();
            let x = if var.is_empty() { it.param("x") } else {
                let me = md.fields.iter().find(|g| g.0 == *k).map(|g| g.1.path().to_string()).unwrap_or_default();
                let mv = m.enums.get(&me).and_then(|e| e.variants.iter().find(|v| v.name.eq_ignore_ascii_case(&var)).map(|v| v.name.clone())).unwrap_or(var.clone());
                it.a.mk(Val::Ctor { p: format!("{me}::{mv}"), f: vec![] })
            };
            let base = it.param("cur");
            let cur = it.a.upd(base, k, x);
            it.ext = Some(load(cur));
            let ctx = it.param("ctx");
            let ex = it.run(get.id, Some(vec![ctx]), None);
            ck.absorb(&it);
            ck.paths += ex.len();
            for e in ex {
                let p = match it.a.get(e.v) {
                    Val::Ctor { p, f } if p == "Ok" => f[0].1,
                    _ => continue,
                };
                let v = it.a.field(p, k);
                let v = strip(&it.a, v);
                let what = it.a.show_d(v, 4);
                let ok = v == x || what.starts_with("None") || !var.is_empty() && matches!(it.a.get(v), Val::Ctor { p, .. } if last_seg(p).eq_ignore_ascii_case(&var));
                ck.req("settings", ok, format!("get:{k}{var}"), (&get.file, e.line), format!("the setting {k} {var} is answered as {what}"));
            }
        }
    }
    ck.floor("settings", 300);
}

fn otok(it: &Interp, v: Vid) -> String {
    let a = &it.a;
    let v = strip(a, v);
    match a.get(v) {
        Val::Param(n) => n.clone(),
        Val::Field(b, x) => format!("{}.{x}", otok(it, *b)),
        Val::Elem(b) => format!("{}*", otok(it, *b)),
        Val::Payload(b, p, _) => format!("{}~{}", otok(it, *b), last_seg(p)),
        Val::Call { f: g, args } => {
            let ts: Vec<String> = args.iter().map(|x| otok(it, *x)).collect();
            match (last_of(g).trim_start_matches('.'), ts.len()) {
                ("into", 1) | ("from", 1) | ("as_str", 1) | ("to_string", 1) | ("to_owned", 1) => ts[0].clone(),
                (n, _) => format!("{n}({})", ts.join(",")),
            }
        }
        Val::Coll { src, body } => {
            let s = otok(it, *src);
            if mentions(a, *body, *src) { format!("{s}[]") } else { format!("{s}[?{}]", otok(it, *body)) }
        }
        Val::Ctor { p, f: fs } if fs.is_empty() => last_seg(p).to_string(),
        Val::Ctor { p, f: fs } => format!("{}{{{}}}", last_seg(p), fs.iter().map(|(n, t)| format!("{n}:{}", otok(it, *t))).collect::<Vec<_>>().join(",")),
        Val::Rec(b, fs) => format!("{}..{{{}}}", otok(it, *b), fs.iter().map(|(n, t)| format!("{n}:{}", otok(it, *t))).collect::<Vec<_>>().join(",")),
        _ => short(&a.show_d(v, 2)),
    }
}
pub fn dump_ops(ck: &mut Ck) {
    for f in operations(ck.m) {
        let mut it = op_interp(ck.m);
        let ex = it.run(f.id, None, None);
        let mut s = BTreeSet::new();
        for e in it.events.iter().filter(|e| super::perm::data_access(&it, e)) {
            s.insert(format!("{} ({})", e.f, e.args.iter().map(|x| otok(&it, *x)).collect::<Vec<_>>().join(", ")));
        }
        println!("{} {} exits", f.path, ex.len());
        for x in s { println!("     {}", x.chars().take(420).collect::<String>()); }
    }
}
