//! Role-based access decisions: constant propagation of every (role, permission) pair through the
//! three permission checks.
use std::collections::BTreeSet;

use crate::interp::*;
use crate::report::*;
use crate::val::*;

const ORG: &[(&str, &[&str])] = &[("Owner", &["*"]), ("Admin", &["ManageProjects"]), ("Member", &[])];
const PROJ: &[(&str, &[&str])] = &[
    ("Owner", &["*"]),
    ("Admin", &["ManageProject", "InviteMembers", "ManageMembers", "ExploreReports", "ManageReports", "ViewSchema", "ManageSchema"]),
    ("Member", &["ExploreReports", "ManageReports", "ViewSchema", "ManageSchema"]),
    ("Reader", &["ExploreReports", "ViewSchema"]),
];

fn grants(t: &[(&str, &[&str])], r: &str, p: &str) -> Option<bool> {
    t.iter().find(|x| x.0 == r).map(|x| x.1.contains(&"*") || x.1.contains(&p))
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Allow,
    Deny,
    /// allowed only under the fact that the other entry's id equals the asked one
    OnlyIfSame(&'static str),
}

struct Sc<'a> {
    role: Option<&'a str>,
    orgs: Option<Vec<(&'a str, &'a str)>>,
    projs: Option<Vec<(&'a str, &'a str)>>,
}

fn decide<'m>(ck: &mut Ck<'m>, func: &str, sc: &Sc, ids: &[&str], perm: (&str, &str), want: Want, tag: &str) {
    let f = match ck.func(func) {
        Some(f) => f,
        None => return,
    };
    let mut it = Interp::new(ck.m);
    it.eval_consts = true;
    it.precise = true;
    it.max_states = 200;
    let unit = |it: &mut Interp, p: &str| it.a.mk(Val::Ctor { p: p.into(), f: vec![] });
    let role = match sc.role {
        None => unit(&mut it, "None"),
        Some(r) => {
            let r = unit(&mut it, &format!("common::rbac::Role::{r}"));
            it.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), r)] })
        }
    };
    let mut list = |it: &mut Interp, l: &Option<Vec<(&str, &str)>>, e: &str| match l {
        None => unit(it, "None"),
        Some(l) => {
            let mut must = vec![];
            for (id, r) in l {
                let i = it.param(id);
                let r = unit(it, &format!("common::rbac::{e}::{r}"));
                must.push(it.a.mk(Val::Tuple(vec![i, r])));
            }
            let l = it.a.mk(Val::List { must, may: vec![] });
            it.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), l)] })
        }
    };
    let o = list(&mut it, &sc.orgs, "OrganizationRole");
    let p = list(&mut it, &sc.projs, "ProjectRole");
    let base = it.param("ctx");
    let s = it.a.upd(base, "role", role);
    let s = it.a.upd(s, "organizations", o);
    let s = it.a.upd(s, "projects", p);
    let mut args: Vec<Vid> = ids.iter().map(|x| it.param(x)).collect();
    args.push(unit(&mut it, &format!("common::rbac::{}::{}", perm.0, perm.1)));
    let ex = it.run(f.id, Some(args), Some(s));
    ck.absorb(&it);
    ck.paths += ex.len();
    let mut got = BTreeSet::new();
    let mut unjust = false;
    for e in &ex {
        for v in it.a.alts(e.v) {
            let t = match ctor(&it.a, v) {
                Some(("Ok", _)) => "allowed",
                Some(("Err", f)) => match ctor(&it.a, f[0].1) {
                    Some((p, _)) if p.ends_with("::Forbidden") => "forbidden",
                    _ => "refused, but not with Forbidden",
                },
                _ => "undecided",
            };
            if let (true, Want::OnlyIfSame(asked)) = (t == "allowed", want) {
                let just = it.facts(&e.s.must).any(|x| match x {
                    Fact::Cond(c, b) => match it.a.get(*c) {
                        Val::Bin(o, x, y) => (o == "==" && *b || o == "!=" && !*b) && {
                            let mut r = roots(&it.a, *x);
                            r.extend(roots(&it.a, *y));
                            r.contains("other") && r.contains(asked)
                        },
                        _ => false,
                    },
                    _ => false,
                });
                if !just {
                    unjust = true;
                }
                continue;
            }
            got.insert(t);
        }
    }
    let ok = match want {
        Want::Allow => got.len() == 1 && got.contains("allowed"),
        Want::Deny => got.len() == 1 && got.contains("forbidden"),
        Want::OnlyIfSame(_) => !unjust && got.iter().all(|x| *x == "forbidden"),
    };
    let w = match want {
        Want::Allow => "allowed",
        Want::Deny => "forbidden",
        Want::OnlyIfSame(_) => "forbidden unless the ids are equal",
    };
    let name = func.rsplit("::").next().unwrap();
    ck.req("access-decision", ok, format!("{name}({}) {tag}", perm.1), (&f.file, f.line), format!("{name}: {tag}: permission {} must be {w}, is {got:?}{}", perm.1, if unjust { ", allowed without comparing the ids" } else { "" }));
}

pub fn check(ck: &mut Ck) {
    ck.rule("constant propagation of every (role, membership list, permission) combination through Context::check_permission / check_organization_permission / check_project_permission, ids symbolic: the set of exits must be exactly {Ok} or exactly {Err(Forbidden)}; for entries of another organization or project an Ok exit needs a dominating id-equality fact");
    let vs = |ck: &Ck, e: &str| -> Vec<String> { ck.m.enums.get(&format!("common::rbac::{e}")).map(|e| e.variants.iter().map(|v| v.name.clone()).collect()).unwrap_or_default() };
    let (gp, op, pp) = (vs(ck, "Permission"), vs(ck, "OrganizationPermission"), vs(ck, "ProjectPermission"));
    let (or, pr) = (vs(ck, "OrganizationRole"), vs(ck, "ProjectRole"));
    for (e, have, want) in [("Permission", gp.len(), 7), ("OrganizationPermission", op.len(), 6), ("ProjectPermission", pp.len(), 11), ("OrganizationRole", or.len(), 3), ("ProjectRole", pr.len(), 4)] {
        if have < want {
            ck.fail(format!("anchor:common::rbac::{e}"), "", 0, format!("enum {e}: {have} variants, {want} known"));
        }
    }
    let (cp, co, cj) = ("platform::context::Context::check_permission", "platform::context::Context::check_organization_permission", "platform::context::Context::check_project_permission");
    for p in &gp {
        let k = ("Permission", p.as_str());
        decide(ck, cp, &Sc { role: Some("Admin"), orgs: None, projs: None }, &[], k, Want::Allow, "global Admin");
        decide(ck, cp, &Sc { role: None, orgs: Some(vec![("org", "Owner")]), projs: Some(vec![("proj", "Owner")]) }, &[], k, Want::Deny, "no global role");
    }
    for p in &op {
        let k = ("OrganizationPermission", p.as_str());
        decide(ck, co, &Sc { role: Some("Admin"), orgs: None, projs: None }, &["org"], k, Want::Allow, "global Admin");
        decide(ck, co, &Sc { role: None, orgs: None, projs: Some(vec![("org", "Owner")]) }, &["org"], k, Want::Deny, "no organizations");
        decide(ck, co, &Sc { role: None, orgs: Some(vec![("other", "Owner")]), projs: None }, &["org"], k, Want::OnlyIfSame("org"), "Owner of another organization");
        for r in &or {
            match grants(ORG, r, p) {
                None => ck.fail(format!("anchor:role {r}"), "", 0, "organization role without a recorded grant table"),
                Some(g) => {
                    let w = if g { Want::Allow } else { Want::Deny };
                    decide(ck, co, &Sc { role: None, orgs: Some(vec![("org", r)]), projs: None }, &["org"], k, w, &format!("organization {r}"));
                    if !g {
                        decide(ck, co, &Sc { role: None, orgs: Some(vec![("org", r), ("other", "Owner")]), projs: None }, &["org"], k, w, &format!("organization {r}, Owner elsewhere"));
                    }
                }
            }
        }
    }
    for p in &pp {
        let k = ("ProjectPermission", p.as_str());
        let ids = ["org", "proj"];
        decide(ck, cj, &Sc { role: Some("Admin"), orgs: None, projs: None }, &ids, k, Want::Allow, "global Admin");
        decide(ck, cj, &Sc { role: None, orgs: None, projs: None }, &ids, k, Want::Deny, "no memberships");
        decide(ck, cj, &Sc { role: None, orgs: Some(vec![("org", "Member")]), projs: None }, &ids, k, Want::Deny, "organization Member, no project role");
        decide(ck, cj, &Sc { role: None, orgs: Some(vec![("org", "Owner")]), projs: None }, &ids, k, Want::Allow, "organization Owner");
        decide(ck, cj, &Sc { role: None, orgs: Some(vec![("org", "Admin")]), projs: None }, &ids, k, Want::Allow, "organization Admin");
        decide(ck, cj, &Sc { role: None, orgs: Some(vec![("other", "Owner")]), projs: None }, &ids, k, Want::OnlyIfSame("org"), "Owner of another organization");
        decide(ck, cj, &Sc { role: None, orgs: None, projs: Some(vec![("other", "Owner")]) }, &ids, k, Want::OnlyIfSame("proj"), "Owner of another project");
        decide(ck, cj, &Sc { role: None, orgs: Some(vec![("other", "Owner")]), projs: None }, &["org", "other"], k, Want::OnlyIfSame("org"), "Owner of an organization whose id is the project's");
        decide(ck, cj, &Sc { role: None, orgs: None, projs: Some(vec![("other", "Owner")]) }, &["other", "proj"], k, Want::OnlyIfSame("proj"), "Owner of a project whose id is the organization's");
        for r in &pr {
            match grants(PROJ, r, p) {
                None => ck.fail(format!("anchor:role {r}"), "", 0, "project role without a recorded grant table"),
                Some(g) => {
                    let w = if g { Want::Allow } else { Want::Deny };
                    decide(ck, cj, &Sc { role: None, orgs: None, projs: Some(vec![("proj", r)]) }, &ids, k, w, &format!("project {r}"));
                    decide(ck, cj, &Sc { role: None, orgs: Some(vec![("org", "Member")]), projs: Some(vec![("proj", r)]) }, &ids, k, w, &format!("organization Member, project {r}"));
                }
            }
        }
    }
    ck.floor("access-decision", 235);
}
