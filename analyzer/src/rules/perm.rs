//! Platform operations: required permission first, and on the entity that is then accessed.
use std::collections::BTreeSet;

use super::meta::*;
use super::tab::short;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// operation -> (scope, permission); scope: server | org (the caller's) | org:arg | project
const OPS: &[(&str, &str, &str)] = &[
    ("accounts::Accounts::create", "server", "ManageAccounts"),
    ("accounts::Accounts::get_by_id", "server", "ManageAccounts"),
    ("accounts::Accounts::list", "server", "ManageAccounts"),
    ("accounts::Accounts::update", "server", "ManageAccounts"),
    ("accounts::Accounts::delete", "server", "ManageAccounts"),
    ("backups::Backups::backup", "server", "ManageServer"),
    ("backups::Backups::get_by_id", "server", "ManageServer"),
    ("backups::Backups::list", "server", "ManageServer"),
    ("settings::SettingsProvider::set", "server", "ManageServer"),
    ("settings::SettingsProvider::get", "server", "ManageServer"),
    ("organizations::Organizations::create", "server", "ManageOrganizations"),
    ("organizations::Organizations::delete", "server", "ManageOrganizations"),
    ("organizations::Organizations::list", "server", "ViewOrganizations"),
    ("organizations::Organizations::get_by_id", "org:arg", "ViewOrganization"),
    ("organizations::Organizations::update", "org:arg", "ManageOrganization"),
    ("auth::provider::Auth::switch_organization", "org:arg", "ViewOrganization"),
    ("projects::Projects::create", "org", "ManageProjects"),
    ("projects::Projects::list", "org", "ExploreProjects"),
    ("projects::Projects::get_by_id", "project", "ViewProject"),
    ("projects::Projects::update", "project", "ManageProject"),
    ("projects::Projects::delete", "project", "DeleteProject"),
    ("bookmarks::Bookmarks::create", "project", "ExploreReports"),
    ("bookmarks::Bookmarks::get", "project", "ExploreReports"),
    ("dashboards::Dashboards::create", "project", "ManageReports"),
    ("dashboards::Dashboards::get_by_id", "project", "ExploreReports"),
    ("dashboards::Dashboards::list", "project", "ExploreReports"),
    ("dashboards::Dashboards::update", "project", "ManageReports"),
    ("dashboards::Dashboards::delete", "project", "ManageReports"),
    ("reports::Reports::create", "project", "ManageReports"),
    ("reports::Reports::get_by_id", "project", "ExploreReports"),
    ("reports::Reports::list", "project", "ExploreReports"),
    ("reports::Reports::update", "project", "ManageReports"),
    ("reports::Reports::delete", "project", "ManageReports"),
    ("custom_events::CustomEvents::create", "project", "ManageSchema"),
    ("custom_events::CustomEvents::get_by_id", "project", "ViewSchema"),
    ("custom_events::CustomEvents::list", "project", "ViewSchema"),
    ("custom_events::CustomEvents::update", "project", "ManageSchema"),
    ("custom_events::CustomEvents::delete", "project", "DeleteSchema"),
    ("events::Events::create", "project", "ManageSchema"),
    ("events::Events::get_by_id", "project", "ViewSchema"),
    ("events::Events::get_by_name", "project", "ViewSchema"),
    ("events::Events::list", "project", "ViewSchema"),
    ("events::Events::update", "project", "ManageSchema"),
    ("events::Events::attach_property", "project", "ManageSchema"),
    ("events::Events::detach_property", "project", "ManageSchema"),
    ("events::Events::delete", "project", "DeleteSchema"),
    ("properties::Properties::get_by_id", "project", "ViewSchema"),
    ("properties::Properties::get_by_name", "project", "ViewSchema"),
    ("properties::Properties::list", "project", "ViewSchema"),
    ("properties::Properties::update", "project", "ManageSchema"),
    ("properties::Properties::delete", "project", "DeleteSchema"),
    ("properties::Properties::values", "project", "ExploreReports"),
    ("groups::Groups::create", "project", "ManageSchema"),
    ("groups::Groups::list", "project", "ViewSchema"),
    ("group_records::GroupRecords::get_by_id", "project", "ExploreReports"),
    ("group_records::GroupRecords::search", "project", "ExploreReports"),
    ("event_records::EventRecords::get_by_id", "project", "ExploreReports"),
    ("event_records::EventRecords::search", "project", "ExploreReports"),
    ("event_segmentation::EventSegmentation::event_segmentation", "project", "ExploreReports"),
    ("funnel::Funnel::funnel", "project", "ExploreReports"),
];
/// operations a caller performs on their own account
const OWN: &[&str] = &["refresh_token", "get", "update_name", "update_email", "update_password", "set_password", "set_email"];
/// list operations: what each listed entity is filtered by
const LISTS: &[(&str, &str, &str)] = &[
    ("organizations::Organizations::list", "check_organization_permission", "ViewOrganization"),
    ("projects::Projects::list", "check_project_permission", "ViewProject"),
];

const CONVERT: &[&str] = &["into", "from", "try_into", "try_from"];
pub fn op_interp<'m>(m: &'m Model) -> Interp<'m> {
    let mut it = Interp::new(m);
    it.opaque = Box::new(|f| f.path.starts_with("platform::context::Context::check_") || CONVERT.contains(&f.name.as_str()) || (f.krate == "metadata" || f.krate == "query" || f.krate == "storage") && f.has_self);
    it.max_states = 200;
    it
}
fn ctx_param(f: &FnDef) -> Option<usize> {
    f.params.iter().position(|p| p.1.path() == "platform::context::Context")
}
pub fn operations<'m>(m: &'m Model) -> Vec<&'m FnDef> {
    let mut v: Vec<&FnDef> = m.fns.iter().filter(|f| f.krate == "platform" && f.has_self && f.self_ty.is_some() && f.block.is_some() && f.is_pub && !f.path.starts_with("platform::context") && ctx_param(f).is_some()).collect();
    v.sort_by_key(|f| (f.file.clone(), f.line));
    v
}
/// a call on one of the object's stores or engines
pub fn data_access(it: &Interp, e: &Event) -> bool {
    if e.args.is_empty() {
        return false;
    }
    let own = access(&it.a, e.args[0]).map_or(false, |s| s.starts_with("self."));
    if !own || [".clone", ".len", ".iter", ".as_ref"].contains(&e.f.as_str()) {
        return false;
    }
    match e.fid {
        Some(f) => it.m.fns[f].krate != "platform",
        None => e.f.starts_with('.') || e.f.starts_with("metadata::") || e.f.starts_with("query::") || e.f.starts_with("storage::"),
    }
}

/// the named entity, or the id of what the store returned for it
fn same_entity(a: &Arena, v: Vid, first: &Option<String>) -> bool {
    let id = |v: Vid| access(a, v) == *first;
    id(v)
        || match a.get(v) {
            Val::Field(b, f) if f == "id" => match a.get(*b) {
                Val::Call { f, args } => f.starts_with("metadata::") && args.get(1).map_or(false, |x| id(*x)),
                _ => false,
            },
            _ => false,
        }
}

pub fn check(ck: &mut Ck) {
    ck.rule("every access of an operation to stored data is reached only after its permission check succeeded (must-dataflow over all paths), as is every successful result");
    ck.rule("the check asks for the documented permission, for the caller's organization and the project or organization the call names");
    ck.rule("the data then accessed belongs to the project or organization that was checked");
    ck.rule("listed entities the caller may not view are dropped");
    let m = ck.m;
    let mut seen = BTreeSet::new();
    for f in operations(m) {
        let name = f.path.trim_start_matches("platform::").to_string();
        if f.self_name() == "Auth" && OWN.contains(&f.name.as_str()) {
            continue;
        }
        one(ck, f, &name);
        seen.insert(name);
    }
    for o in OPS {
        ck.req("operations", seen.contains(o.0), format!("{}:missing", o.0), ("src/platform/src/lib.rs", 1), format!("operation {} with a caller context not found", o.0));
    }
    ck.floor("guard", 60);
    ck.floor("guard-access", 120);
    ck.floor("guard-scope", 120);
    foreign(ck);
    identity(ck);
    no_bypass(ck);
}

fn one<'m>(ck: &mut Ck<'m>, f: &'m FnDef, name: &str) {
    let mut it = op_interp(ck.m);
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let at = (f.file.as_str(), f.line);
    let ci = ctx_param(f).unwrap();
    let cname = pat_name(&f.params[ci].0);
    // the entity the call names: the first id after the context
    let first = f.params.iter().skip(ci + 1).find(|p| p.1.name() == "u64").map(|p| pat_name(&p.0));
    let spec = OPS.iter().find(|o| o.0 == name);
    let org = format!("{cname}.organization_id");
    let want: Vec<String> = match spec {
        Some((_, "server", p)) => vec![format!("check_permission({cname}, Permission::{p})")],
        Some((_, "org", p)) => vec![format!("check_organization_permission({cname}, {org}, OrganizationPermission::{p})")],
        Some((_, "org:arg", p)) => vec![format!("check_organization_permission({cname}, {}, OrganizationPermission::{p})", first.clone().unwrap_or_default())],
        Some((_, _, p)) => vec![format!("check_project_permission({cname}, {org}, {}, ProjectPermission::{p})", first.clone().unwrap_or_default())],
        None => vec![],
    };
    let holds = |it: &Interp, set: &Set| -> bool {
        let r = it.facts(set).any(|x| match x {
            Fact::Ok(v) => match it.a.get(*v) {
                Val::Call { f, args } if last_of(f).starts_with("check_") && f.contains("Context") => {
                    let t = format!("{}({})", last_of(f), args.iter().map(|x| short(&it.a.show_d(*x, 8))).collect::<Vec<_>>().join(", "));
                    want.is_empty() || want.contains(&t)
                }
                _ => false,
            },
            _ => false,
        });
        r
    };
    let txt = want.first().cloned().unwrap_or_else(|| "a permission check".into());
    let mut n = 0;
    for e in it.events.iter() {
        if !data_access(&it, e) {
            continue;
        }
        n += 1;
        ck.req("guard-access", holds(&it, &e.must), format!("{name}:{}", last_of(&e.f)), (&e.file, e.line), format!("{name} reaches {} without {txt} having succeeded", short(&e.f)));
        // the accessed entity is the checked one
        if let Some(fd) = e.fid.map(|i| &it.m.fns[i]) {
            for (i, p) in fd.params.iter().enumerate() {
                let Some(&av) = e.args.get(i + fd.has_self as usize) else { continue };
                let pn = pat_name(&p.0);
                let project = pn == "project_id" && p.1.name() == "u64";
                let subject = i == 0 && p.1.name() == "u64" && matches!((spec.map(|s| s.1), fd.self_name()), (Some("project"), "Projects") | (Some("org:arg"), "Organizations"));
                let scoped = spec.map_or(false, |s| s.1 == "project");
                if project && scoped || subject {
                    ck.req("guard-scope", same_entity(&it.a, av, &first), format!("{name}:{}:scope", last_of(&e.f)), (&e.file, e.line), format!("{name} checks {} but accesses {} of {}", first.clone().unwrap_or_default(), last_of(&e.f), it.a.show_d(av, 4)));
                }
            }
        }
        // query engines take their project from a context value
        for &av in &e.args {
            if let Some((c, fs)) = ctor(&it.a, av) {
                if c.starts_with("query::") && c.ends_with("::Context") {
                    let p = fs.iter().find(|x| x.0 == "project_id").map(|x| x.1);
                    ck.req("guard-scope", p.map_or(false, |p| access(&it.a, p) == first), format!("{name}:{}:scope", last_of(&e.f)), (&e.file, e.line), format!("{name} runs a query on project {}", p.map_or("?".into(), |p| it.a.show_d(p, 4))));
                }
            }
        }
    }
    ck.req("operations", n > 0, format!("{name}:access"), at, format!("no data access recognised in {name}"));
    for e in &ex {
        let ok = it.a.alts(e.v).iter().any(|v| ctor(&it.a, *v).map_or(true, |c| c.0 != "Err"));
        if ok {
            ck.req("guard", holds(&it, &e.s.must), format!("{name}:result"), (&f.file, e.line), format!("{name} succeeds without {txt}"));
        }
    }
    // per-entity filters of listings
    for (n, chk, perm) in LISTS.iter().filter(|l| l.0 == name) {
        let mut conds: BTreeSet<String> = BTreeSet::new();
        for e in &it.events {
            if e.f == ".filter" || e.f == ".retain" || e.f == ".filter_map" {
                if let Some(p) = e.args.get(1) {
                    conds.insert(short(&it.a.show_d(*p, 12)));
                }
            }
            if e.loops > 0 && e.f != ".filter" {
                for x in it.facts(&e.must) {
                    match x {
                        Fact::Ok(v) => conds.insert(format!(".is_ok({})", short(&it.a.show_d(*v, 12)))),
                        Fact::Cond(v, true) => conds.insert(short(&it.a.show_d(*v, 12))),
                        _ => false,
                    };
                }
            }
        }
        let by_perm = conds.iter().any(|c| c.starts_with(".is_ok(") && c.contains(&format!("{chk}({cname}")) && c.contains(&format!("Permission::{perm})")) && c.contains("elem("));
        ck.req("guard-list", by_perm, format!("{n}:filter"), at, format!("{n} returns entities without asking {chk}({perm}) for each; conditions found: {conds:?}"));
        if *chk == "check_project_permission" {
            let by_org = conds.iter().any(|c| c.contains(".organization_id == ") && c.contains(&org) && c.contains("elem("));
            ck.req("guard-list", by_org, format!("{n}:organization"), at, format!("{n} returns projects of other organizations; conditions found: {conds:?}"));
        }
    }
}

/// a grant through a role in an organization is only good for that organization's projects
fn foreign(ck: &mut Ck) {
    let m = ck.m;
    let Some(f) = ck.func("platform::context::Context::check_project_permission") else { return };
    let mut it = Interp::new(m);
    it.opaque = Box::new(|f| f.path.starts_with("platform::context::Context::"));
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let pid = it.param(&pat_name(&f.params[1].0));
    let mut n = 0;
    for e in ex.iter().filter(|e| ok_payload(&it.a, e.v).is_some()) {
        let fs: Vec<Vid> = it.facts(&e.s.must).filter_map(|x| match x { Fact::Ok(v) | Fact::Is(v, _) | Fact::Cond(v, true) => Some(*v), _ => None }).collect();
        let server = it.facts(&e.s.must).any(|x| matches!(x, Fact::Ok(v) | Fact::Cond(v, true) if it.a.show_d(*v, 6).contains("check_permission(")));
        if server {
            continue;
        }
        n += 1;
        let project = fs.iter().any(|v| mentions(&it.a, *v, pid));
        let role: BTreeSet<String> = it.facts(&e.s.must).filter_map(|x| match x { Fact::Is(_, p) => Some(last_seg(p).to_string()), _ => None }).collect();
        ck.req("foreign", project, format!("check_project_permission:foreign-project:{}", role.into_iter().collect::<Vec<_>>().join("+")), (&f.file, e.line), "permission for a project is granted on a role in the caller's organization without any regard to the project");
    }
    ck.req("foreign", n >= 2, "check_project_permission:grants", (&f.file, f.line), format!("only {n} grants found"));
}

/// the caller context is the account and organization of a verified access token
fn identity(ck: &mut Ck) {
    let m = ck.m;
    let Some(f) = m.fns.iter().find(|f| f.krate == "platform" && f.name == "from_request_parts" && f.self_name() == "Context" && f.block.is_some()) else {
        ck.fail("Context::from_request_parts", "src/platform/src/context.rs", 1, "extractor of the caller context not found");
        return;
    };
    let mut it = Interp::new(m);
    it.opaque = Box::new(|f| f.krate == "metadata" || f.path.ends_with("::parse_access_token"));
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let at = (f.file.as_str(), f.line);
    let mut n = 0;
    for e in &ex {
        for v in it.a.alts(e.v) {
            let Some(p) = ok_payload(&it.a, v) else { continue };
            let Some((_, fs)) = ctor(&it.a, p) else { continue };
            n += 1;
            let mut acc = None;
            let mut claims = None;
            for (k, x) in fs {
                let (x, want) = (*x, if k == "account_id" { "id" } else { k.as_str() });
                let Val::Field(b, g) = it.a.get(x) else {
                    ck.fail(format!("Context.{k}"), at.0, at.1, format!("the caller's {k} is not taken from the account or token: {}", it.a.show_d(x, 4)));
                    continue;
                };
                ck.req("identity", g == want, format!("Context.{k}"), at, format!("the caller's {k} is taken from {g}"));
                let src = if k == "organization_id" { &mut claims } else { &mut acc };
                ck.req("identity", src.map_or(true, |s| s == *b), format!("Context.{k}:source"), at, format!("the caller's {k} comes from {}", it.a.show_d(*b, 5)));
                *src = Some(*b);
            }
            let (Some(acc), Some(claims)) = (acc, claims) else {
                ck.fail("Context:source", at.0, at.1, "the caller context has no account or organization source");
                continue;
            };
            let cs = short(&it.a.show_d(claims, 10));
            ck.req("identity", cs.starts_with("parse_access_token("), "Context.claims", at, format!("the organization comes from {cs}, not from the verified access token"));
            let key = is_call(&it.a, claims, "parse_access_token").and_then(|a| a.get(1).copied());
            ck.req("identity", key.map_or(false, |k| matches!(it.a.get(k), Val::Field(_, f) if f == "auth_access_token")), "Context.key", at, "the access token is not verified with the access token key");
            let am = is_call(&it.a, acc, "get_by_id").and_then(|a| a.get(1).copied());
            let ok = am.map_or(false, |x| matches!(it.a.get(x), Val::Field(b, f) if f == "account_id" && *b == claims));
            ck.req("identity", ok, "Context.account", at, format!("the account is not the one named by the token: {}", short(&it.a.show_d(acc, 8))));
            let verified = it.has_ok(&e.s.must, claims);
            ck.req("identity", verified, "Context.verified", at, "a context is built although the token was not verified");
        }
    }
    ck.req("identity", n > 0, "Context", at, "no successful context found");
}

/// handlers only reach operations that take the caller context
fn no_bypass(ck: &mut Ck) {
    let m = ck.m;
    let fns: Vec<&FnDef> = m.fns.iter().filter(|f| f.krate == "platform" && f.path.starts_with("platform::http::") && f.sig.asyncness.is_some() && f.block.is_some() && f.self_ty.is_none()).collect();
    let mut n = 0;
    for f in fns {
        if !f.params.iter().any(|p| p.1.show().contains("Extension")) && ctx_param(f).is_none() {
            continue;
        }
        n += 1;
        for p in &f.params {
            let t = p.1.show();
            let direct = t.contains("metadata::") || t.contains("query::") || t.contains("storage::");
            ck.req("no-bypass", !direct || t.contains("OptionalProperty"), format!("{}:{}", f.path.trim_start_matches("platform::"), pat_name(&p.0)), (&f.file, f.line), format!("handler {} is given the store {t} directly", f.path));
        }
        let mut it = op_interp(m);
        let old = std::mem::replace(&mut it.opaque, Box::new(|_| false));
        it.opaque = Box::new(move |g| old(g) || CONVERT.contains(&g.name.as_str()) || g.krate == "platform" && g.has_self && !g.path.starts_with("platform::http::"));
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        for e in &it.events {
            let store = e.fid.map_or(false, |i| it.m.fns[i].krate == "metadata" && it.m.fns[i].has_self) || ["metadata", "query", "storage"].contains(&e.recv_ty.path().split("::").next().unwrap_or(""));
            ck.req("no-bypass", !store, format!("{}:{}", f.path.trim_start_matches("platform::"), last_of(&e.f)), (&e.file, e.line), format!("handler {} calls {} directly, without a permission check", f.path, e.f));
            // operations with a context get the caller's own
            if let Some(i) = e.fid {
                let g = &it.m.fns[i];
                if g.krate == "platform" {
                    if let Some(ci) = ctx_param(g) {
                        let a = e.args.get(ci + g.has_self as usize).copied();
                        let want = ctx_param(f).map(|i| pat_name(&f.params[i].0));
                        ck.req("caller", want.is_some() && a.map_or(false, |a| access(&it.a, a) == want), format!("{}:context", f.path.trim_start_matches("platform::")), (&e.file, e.line), format!("handler {} calls {} with another context than the caller's", f.path, g.path));
                    }
                }
            }
        }
    }
    ck.req("no-bypass", n >= 60, "handlers", ("src/platform/src/http/mod.rs", 1), format!("only {n} handlers found"));
    ck.floor("caller", 60);
}
