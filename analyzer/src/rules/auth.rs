//! Passwords, tokens and secrets.
use std::collections::BTreeSet;

use super::meta::*;
use super::tab::short;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

const A: &str = "platform::auth::provider::Auth::";
const FILE: &str = "src/platform/src/auth/provider.rs";

fn kept(f: &FnDef) -> bool {
    f.krate == "metadata" && f.has_self && f.name != "is_member" || f.path.starts_with("platform::auth::password::") || f.path.starts_with("platform::auth::token::make_a") || f.path.starts_with("platform::auth::token::make_r") || f.path.starts_with("platform::auth::token::parse_") || f.path.starts_with("platform::context::")
}
/// the function is `kept` under its own name wherever it is called
fn is(a: &Arena, v: Vid, name: &str) -> Option<Vec<Vid>> {
    match a.get(v) {
        Val::Call { f, args } if last_of(f) == name => Some(args.clone()),
        _ => None,
    }
}
fn field_of(a: &Arena, v: Vid, name: &str) -> Option<Vid> {
    match a.get(v) {
        Val::Field(b, f) if f == name => Some(*b),
        _ => None,
    }
}
/// an account read from the accounts store by the given key function and argument
fn account_by(it: &Interp, v: Vid, by: &str, arg: &str) -> bool {
    match it.a.get(v) {
        Val::Call { f, args } => f.ends_with(&format!("accounts::Accounts::{by}")) && args.get(1).map_or(false, |x| access(&it.a, *x).as_deref() == Some(arg)),
        _ => false,
    }
}
/// the password given is the password of `acc`: the successful verify facts of a state
fn verified(it: &Interp, set: &Set, pass: &str, acc: &dyn Fn(Vid) -> bool) -> bool {
    let r = it.facts(set).any(|x| match x {
        Fact::Ok(v) => is(&it.a, *v, "verify_password").map_or(false, |a| {
            access(&it.a, strip(&it.a, a[0])).as_deref() == Some(pass)
                && is(&it.a, a[1], "new").map_or(false, |h| field_of(&it.a, strip(&it.a, h[0]), "password_hash").map_or(false, |b| acc(b)))
        }),
        _ => false,
    });
    r
}
struct Own {
    op: &'static str,
    /// password that must have been verified
    verify: Option<&'static str>,
    /// flag of the account that must be set, and is cleared
    flag: Option<&'static str>,
    /// new password stored
    pass: Option<&'static str>,
    /// other account field written: (field, request path)
    sets: Option<(&'static str, &'static str)>,
    /// format checks that must have succeeded
    email: Option<&'static str>,
    tokens: bool,
}
const OWN: &[Own] = &[
    Own { op: "update_name", verify: None, flag: None, pass: None, sets: Some(("name", "req")), email: None, tokens: false },
    Own { op: "update_email", verify: Some("req.password"), flag: None, pass: None, sets: Some(("email", "req.email")), email: Some("req.email"), tokens: true },
    Own { op: "update_password", verify: Some("req.password"), flag: None, pass: Some("req.new_password"), sets: None, email: None, tokens: true },
    Own { op: "set_password", verify: None, flag: Some("force_update_password"), pass: Some("req.password"), sets: None, email: None, tokens: true },
    Own { op: "set_email", verify: None, flag: Some("force_update_email"), pass: None, sets: Some(("email", "req.email")), email: None, tokens: true },
];

fn op<'m>(ck: &mut Ck<'m>, name: &str) -> Option<(&'m FnDef, Interp<'m>, Vec<Exit>)> {
    let f = ck.func(&format!("{A}{name}"))?;
    let mut it = Interp::new(ck.m);
    it.opaque = Box::new(kept);
    it.max_states = 200;
    // parameters under their canonical names
    let mut args = vec![];
    for p in &f.params {
        let t = p.1.clone();
        let n = match t.name() {
            "Context" => "ctx".to_string(),
            x if x.ends_with("Request") || x == "String" => "req".to_string(),
            _ => pat_name(&p.0),
        };
        args.push(it.param(&n));
    }
    let ex = it.run(f.id, Some(args), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    Some((f, it, ex))
}
fn issued<'a>(it: &'a Interp) -> Vec<(&'a Event, &'static str)> {
    it.events
        .iter()
        .filter_map(|e| match last_of(&e.f) {
            "make_access_token" => Some((e, "access")),
            "make_refresh_token" => Some((e, "refresh")),
            _ => None,
        })
        .collect()
}

pub fn check(ck: &mut Ck) {
    ck.rule("tokens are issued and credentials are changed only on paths where the account's own password was verified (or the account is flagged for a forced change)");
    ck.rule("a stored password is the hash of one that passed the strength check; hashes use a fresh random salt");
    ck.rule("access and refresh tokens are signed and verified with their own key, one algorithm, and carry an expiry from now plus the configured duration");
    ck.rule("no response type or response value carries a password, hash, key or other secret");
    log_in(ck);
    sign_up(ck);
    own(ck);
    refresh(ck);
    make_tokens(ck);
    tokens(ck);
    passwords(ck);
    hashes(ck);
    secrets(ck);
    settings(ck);
    keys(ck);
    ck.floor("verified", 8);
    ck.floor("secret", 300);
}

fn token_for(ck: &mut Ck, it: &Interp, name: &str, who: &dyn Fn(Vid) -> bool, guard: &dyn Fn(&Set) -> bool, what: &str) -> usize {
    let mut n = 0;
    for (e, kind) in issued(it) {
        n += 1;
        ck.req("verified", guard(&e.must), format!("{name}:{kind}-token:unverified"), (&e.file, e.line), format!("{name} issues an {kind} token although {what} was not established"));
        let acc = e.args.first().copied().map_or(false, |x| who(x));
        ck.req("token-account", acc, format!("{name}:{kind}-token:account"), (&e.file, e.line), format!("{name} issues an {kind} token for {}", e.args.first().map_or("?".into(), |x| it.a.show_d(*x, 5))));
    }
    n
}

fn log_in(ck: &mut Ck) {
    let Some((f, it, ex)) = op(ck, "log_in") else { return };
    let acc = |v: Vid| account_by(&it, v, "get_by_email", "req.email");
    let guard = |s: &Set| verified(&it, s, "req.password", &acc);
    let n = token_for(ck, &it, "log_in", &|x| field_of(&it.a, x, "id").map_or(false, |b| acc(b)), &guard, "the account's password");
    ck.req("verified", n >= 2, "log_in:tokens", (FILE, f.line), "log_in issues no tokens");
    for e in &ex {
        if ok_payload(&it.a, e.v).is_some() {
            ck.req("verified", guard(&e.s.must), "log_in:result", (FILE, e.line), "log_in succeeds although the password was not verified");
        }
    }
    // the organization in the token: none, or one the account belongs to
    for (e, kind) in issued(&it).into_iter().filter(|x| x.1 == "access") {
        for o in it.a.alts(e.args[1]) {
            let t = it.a.show_d(o, 6);
            if t == "0" || t == "0u64" {
                continue;
            }
            let org = field_of(&it.a, o, "id");
            ck.req("token-account", org.is_some(), "log_in:organization", (&e.file, e.line), format!("the {kind} token of a log-in names organization {t}"));
        }
    }
    // membership was asked for the account, on the organization used
    let asked = it.events.iter().filter(|e| last_of(&e.f) == "is_member").count();
    let right = it.events.iter().filter(|e| last_of(&e.f) == "is_member" && e.args.get(1).map_or(false, |x| field_of(&it.a, *x, "id").map_or(false, |b| acc(b)))).count();
    ck.req("token-account", asked >= 2 && right == asked, "log_in:membership", (FILE, f.line), format!("{right} of {asked} membership questions are about the account logging in"));
    member_gate(ck, f);
}

/// the branch that takes the requested organization is only taken by its members
fn member_gate<'m>(ck: &mut Ck<'m>, f: &'m FnDef) {
    let mut it = Interp::new(ck.m);
    it.opaque = Box::new(|f| kept(f) || f.name == "is_member" || f.path.ends_with("::make_tokens"));
    it.precise = true;
    it.max_states = 400;
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let mut n = 0;
    let sets: Vec<(Vid, Set)> = ex.iter().flat_map(|e| it.facts(&e.s.must).filter_map(|x| match x { Fact::Ok(v) => Some(*v), _ => None }).filter(|v| is(&it.a, *v, "make_tokens").is_some()).map(|v| (v, e.s.must.clone())).collect::<Vec<_>>()).collect();
    for (v, must) in &sets {
        let a = is(&it.a, *v, "make_tokens").unwrap();
        let Some(&o) = a.get(2) else { continue };
        for o in it.a.alts(o) {
            if it.a.show_d(o, 4).starts_with('0') {
                continue;
            }
            n += 1;
            let org = field_of(&it.a, o, "id").unwrap_or(o);
            // found by a membership search, or asked
            let found = it.a.show_d(org, 10).contains("is_member(");
            let asked = it.facts(must).any(|x| matches!(x, Fact::Cond(c, true) if is(&it.a, *c, "is_member").map_or(false, |m| m[0] == org)));
            let by_find = it.events.iter().any(|e| last_of(&e.f) == "find" && e.val == org && e.args.get(1).map_or(false, |p| it.a.show_d(*p, 10).contains("is_member(")));
            ck.req("token-account", found || asked || by_find, "log_in:organization:member", (&f.file, f.line), format!("a log-in takes organization {} without membership", short(&it.a.show_d(o, 6))));
        }
    }
    ck.req("token-account", n >= 1, "log_in:organization:cases", (&f.file, f.line), "no organization case found");
}

fn sign_up(ck: &mut Ck) {
    let Some((f, it, _)) = op(ck, "sign_up") else { return };
    let mut n = 0;
    for e in it.events.iter().filter(|e| e.f.ends_with("accounts::Accounts::create")) {
        n += 1;
        let at = (e.file.as_str(), e.line);
        let ok = |n: &str, arg: &str| it.facts(&e.must).any(|x| matches!(x, Fact::Ok(v) | Fact::Cond(v, true) if is(&it.a, *v, n).map_or(false, |a| access(&it.a, a[0]).as_deref() == Some(arg))));
        ck.req("verified", ok("validate_email", "req.email"), "sign_up:email", at, "an account is created although the email was not validated");
        ck.req("verified", ok("check_password_complexity", "req.password"), "sign_up:strength", at, "an account is created although the password was not found strong enough");
        let Some((_, fs)) = ctor(&it.a, e.args[1]) else {
            ck.fail("sign_up:request", at.0, at.1, "account creation request not recognised");
            continue;
        };
        for (k, x) in fs {
            let t = short(&it.a.show_d(*x, 6));
            let good = match k.as_str() {
                "password_hash" => is(&it.a, *x, "make_password_hash").map_or(false, |a| access(&it.a, strip(&it.a, a[0])).as_deref() == Some("req.password")),
                "role" | "organizations" | "projects" | "teams" => t == "None",
                "email" | "name" => access(&it.a, *x) == Some(format!("req.{k}")),
                "force_update_password" | "force_update_email" => t == "false",
                _ => true,
            };
            ck.req("sign-up", good, format!("sign_up:{k}"), at, format!("a self-registered account gets {k} = {t}"));
        }
    }
    ck.req("verified", n == 1, "sign_up:create", (FILE, f.line), format!("{n} account creations in sign_up"));
    let created = |v: Vid| field_of(&it.a, v, "id").map_or(false, |b| matches!(it.a.get(b), Val::Call { f, .. } if f.ends_with("accounts::Accounts::create")));
    let guard = |s: &Set| it.facts(s).any(|x| matches!(x, Fact::Ok(v) if matches!(it.a.get(*v), Val::Call { f, .. } if f.ends_with("accounts::Accounts::create"))));
    token_for(ck, &it, "sign_up", &created, &guard, "the creation of the account");
}

fn own(ck: &mut Ck) {
    for o in OWN {
        let Some((f, it, ex)) = op(ck, o.op) else { continue };
        let acc = |v: Vid| account_by(&it, v, "get_by_id", "ctx.account_id");
        let guard = |s: &Set| {
            o.verify.map_or(true, |p| verified(&it, s, p, &acc))
                && o.flag.map_or(true, |fl| it.facts(s).any(|x| matches!(x, Fact::Cond(v, true) if field_of(&it.a, *v, fl).map_or(false, |b| acc(b)))))
                && o.email.map_or(true, |m| it.facts(s).any(|x| matches!(x, Fact::Cond(v, true) if is(&it.a, *v, "validate_email").map_or(false, |a| access(&it.a, a[0]).as_deref() == Some(m)))))
                && o.pass.map_or(true, |p| it.facts(s).any(|x| matches!(x, Fact::Ok(v) if is(&it.a, *v, "check_password_complexity").map_or(false, |a| access(&it.a, a[0]).as_deref() == Some(p)))))
        };
        let what = match (o.verify, o.flag) {
            (Some(_), _) => "the current password, and the form of the new value,",
            (_, Some(_)) => "that a change is forced, and the form of the new value,",
            _ => "the caller",
        };
        let mut n = 0;
        for e in it.events.iter().filter(|e| e.f.contains("accounts::Accounts::") && !last_of(&e.f).starts_with("get")) {
            n += 1;
            let at = (e.file.as_str(), e.line);
            ck.req("verified", e.f.ends_with("::update") && guard(&e.must), format!("{}:unverified", o.op), at, format!("{} changes the account although {what} was not established", o.op));
            ck.req("token-account", e.args.get(1).map_or(false, |x| access(&it.a, *x).as_deref() == Some("ctx.account_id") || field_of(&it.a, *x, "id").map_or(false, |b| acc(b))), format!("{}:account", o.op), at, format!("{} changes account {}", o.op, e.args.get(1).map_or("?".into(), |x| it.a.show_d(*x, 4))));
            let Some((_, fs)) = e.args.get(2).and_then(|x| ctor(&it.a, *x)) else {
                ck.fail(format!("{}:request", o.op), at.0, at.1, "account update request not recognised");
                continue;
            };
            for (k, x) in fs {
                let inner = match ctor(&it.a, *x) {
                    Some((c, f)) if c.ends_with("OptionalProperty::Some") => Some(f[0].1),
                    Some((c, _)) if c.ends_with("OptionalProperty::None") => None,
                    _ => Some(*x),
                };
                let t = inner.map_or("-".to_string(), |v| short(&it.a.show_d(v, 6)));
                let good = match k.as_str() {
                    "updated_by" => access(&it.a, *x).as_deref() == Some("ctx.account_id"),
                    "password_hash" if o.pass.is_some() => inner.map_or(false, |v| is(&it.a, v, "make_password_hash").map_or(false, |a| access(&it.a, strip(&it.a, a[0])).as_deref() == o.pass)),
                    k if Some(k) == o.flag => t == "false",
                    k if o.sets.map_or(false, |s| s.0 == k) => inner.map_or(false, |v| access(&it.a, strip(&it.a, v)).as_deref() == o.sets.map(|s| s.1)),
                    _ => inner.is_none(),
                };
                ck.req("own-change", good, format!("{}:{k}", o.op), at, format!("{} sets {k} of the account to {t}", o.op));
            }
        }
        ck.req("verified", n == 1, format!("{}:update", o.op), (FILE, f.line), format!("{n} account changes in {}", o.op));
        let who = |x: Vid| access(&it.a, x).as_deref() == Some("ctx.account_id") || field_of(&it.a, x, "id").map_or(false, |b| acc(b));
        let t = token_for(ck, &it, o.op, &who, &guard, what);
        ck.req("verified", (t >= 2) == o.tokens, format!("{}:tokens", o.op), (FILE, f.line), format!("{} issues {t} tokens", o.op));
        for e in &ex {
            if ok_payload(&it.a, e.v).is_some() {
                let done = it.facts(&e.s.must).any(|x| matches!(x, Fact::Ok(v) if is(&it.a, *v, "update").is_some()));
                ck.req("verified", guard(&e.s.must) && done, format!("{}:result", o.op), (FILE, e.line), format!("{} succeeds although {what} was not established or nothing was changed", o.op));
            }
        }
    }
}

fn refresh(ck: &mut Ck) {
    let Some((f, it, _)) = op(ck, "refresh_token") else { return };
    let claims = |v: Vid| {
        is(&it.a, v, "parse_refresh_token").map_or(false, |a| access(&it.a, a[0]).map_or(false, |s| !s.contains('.')) && field_of(&it.a, a[1], "auth_refresh_token").map_or(false, |s| is(&it.a, s, "load").is_some()))
    };
    let guard = |s: &Set| it.facts(s).any(|x| matches!(x, Fact::Ok(v) if claims(*v)));
    let n = token_for(ck, &it, "refresh_token", &|x| field_of(&it.a, x, "account_id").map_or(false, |b| claims(b)), &guard, "the refresh token");
    ck.req("verified", n >= 2, "refresh_token:tokens", (FILE, f.line), "refresh_token issues no tokens");
}

fn make_tokens(ck: &mut Ck) {
    // in whatever operation tokens are made
    for name in ["log_in", "sign_up", "refresh_token", "switch_organization"] {
        let Some((_, it, _)) = op(ck, name) else { continue };
        for (e, kind) in issued(&it) {
            let at = (e.file.as_str(), e.line);
            let k = *e.args.last().unwrap();
            ck.req("token-key", field_of(&it.a, k, &format!("auth_{kind}_token")).map_or(false, |s| is(&it.a, s, "load").is_some()), format!("{kind}-token:key"), at, format!("the {kind} token is signed with {}", it.a.show_d(k, 4)));
            let d = e.args[e.args.len() - 2];
            ck.req("token-key", access(&it.a, d) == Some(format!("self.cfg.auth.{kind}_token_duration")), format!("{kind}-token:duration"), at, format!("the {kind} token is valid for {}", it.a.show_d(d, 4)));
            if kind == "access" && name == "switch_organization" {
                let org = access(&it.a, e.args[1]);
                let checked = it.facts(&e.must).any(|x| matches!(x, Fact::Ok(v) if is(&it.a, *v, "check_organization_permission").map_or(false, |a| access(&it.a, a[1]) == org)));
                ck.req("token-account", checked && org.is_some(), "switch_organization:organization", at, "the token names an organization that was not checked");
            }
        }
    }
}

fn tokens(ck: &mut Ck) {
    let m = ck.m;
    let mut algs: BTreeSet<String> = BTreeSet::new();
    for (kind, fields) in [("access", &["account_id", "organization_id"][..]), ("refresh", &["account_id"][..])] {
        let Some(f) = ck.func(&format!("platform::auth::token::make_{kind}_token")) else { continue };
        let mut it = Interp::new(m);
        let args: Vec<Vid> = (0..f.params.len()).map(|i| it.param(&format!("a{i}"))).collect();
        let n = f.params.len();
        it.run(f.id, Some(args), None);
        ck.absorb(&it);
        let enc: Vec<&Event> = it.events.iter().filter(|e| e.f.ends_with("jsonwebtoken::encode")).collect();
        ck.req("token", enc.len() == 1, format!("make_{kind}_token:encode"), (&f.file, f.line), "the token is not encoded once");
        for e in enc {
            let at = (e.file.as_str(), e.line);
            algs.extend(variants(&it.a, e.args[0], "Algorithm"));
            let key = is(&it.a, e.args[2], "from_secret").map(|a| access(&it.a, strip(&it.a, a[0])));
            ck.req("token", key == Some(Some(format!("a{}", n - 1))), format!("make_{kind}_token:key"), at, "the token is not signed with the given key");
            let Some((_, fs)) = ctor(&it.a, e.args[1]) else {
                ck.fail(format!("make_{kind}_token:claims"), at.0, at.1, "claims not recognised");
                continue;
            };
            for (i, c) in fields.iter().enumerate() {
                let v = fs.iter().find(|x| x.0 == *c).map(|x| x.1);
                ck.req("token", v.map_or(false, |v| access(&it.a, v) == Some(format!("a{i}"))), format!("make_{kind}_token:{c}"), at, format!("claim {c} is not the {c} given"));
            }
            let exp = fs.iter().find(|x| x.0 == "exp").map(|x| it.a.show_d(x.1, 8)).unwrap_or_default();
            let d = format!("a{}", n - 2);
            let want = [format!(".timestamp((chrono::Utc::now() + {d}))"), format!(".timestamp(({d} + chrono::Utc::now()))"), format!("(.timestamp(chrono::Utc::now()) + .num_seconds({d}))")];
            ck.req("token", want.contains(&exp), format!("make_{kind}_token:exp"), at, format!("the token expires at {exp}"));
        }
        let Some(f) = ck.func(&format!("platform::auth::token::parse_{kind}_token")) else { continue };
        let mut it = Interp::new(m);
        let args: Vec<Vid> = (0..2).map(|i| it.param(&format!("a{i}"))).collect();
        let ex = it.run(f.id, Some(args), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let mut n = 0;
        for x in &ex {
            let Some(p) = ok_payload(&it.a, x.v) else { continue };
            n += 1;
            let d = field_of(&it.a, p, "claims").and_then(|b| is(&it.a, b, "decode"));
            let at = (f.file.as_str(), x.line);
            let Some(d) = d else {
                ck.fail(format!("parse_{kind}_token:decode"), at.0, at.1, format!("the claims are {}", it.a.show_d(p, 5)));
                continue;
            };
            ck.req("token", access(&it.a, strip(&it.a, d[0])).as_deref() == Some("a0"), format!("parse_{kind}_token:token"), at, "not the given token is decoded");
            let key = is(&it.a, d[1], "from_secret").map(|a| access(&it.a, strip(&it.a, a[0])));
            ck.req("token", key == Some(Some("a1".into())), format!("parse_{kind}_token:key"), at, "the token is not verified with the given key");
            // no check of the validation is switched off
            let v = it.a.show_d(d[2], 8);
            ck.req("token", is(&it.a, d[2], "new").is_some() && v.starts_with("jsonwebtoken::Validation::new("), format!("parse_{kind}_token:validation"), at, format!("the validation is altered: {v}"));
            algs.extend(variants(&it.a, d[2], "Algorithm"));
            let insecure: Vec<&str> = it.events.iter().map(|e| last_of(&e.f)).filter(|f| f.starts_with("insecure") || f.starts_with("dangerous")).collect();
            ck.req("token", insecure.is_empty(), format!("parse_{kind}_token:insecure"), at, format!("validation is switched off: {insecure:?}"));
            ck.req("token", it.has_ok(&x.s.must, it.a.kids(it.a.get(p))[0]), format!("parse_{kind}_token:verified"), at, "claims are returned although decoding failed");
        }
        ck.req("token", n == 1, format!("parse_{kind}_token:result"), (&f.file, f.line), format!("{n} results"));
    }
    ck.req("token", algs.len() == 1 && algs.iter().all(|a| a.starts_with("HS")), "token:algorithm", ("src/platform/src/auth/token.rs", 1), format!("tokens are signed and verified with {algs:?}"));
}
fn variants(a: &Arena, v: Vid, of: &str) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    a.walk(v, &mut |i, _| {
        let p = match a.get(i) {
            Val::Ctor { p, .. } => p.clone(),
            Val::Const(p) => p.clone(),
            _ => return true,
        };
        if p.rsplit("::").nth(1) == Some(of) {
            r.insert(last_seg(&p).to_string());
        }
        true
    });
    r
}

fn passwords(ck: &mut Ck) {
    let m = ck.m;
    if let Some(f) = ck.func("platform::auth::password::make_password_hash") {
        let mut it = Interp::new(m);
        let p = it.param("pw");
        let ex = it.run(f.id, Some(vec![p]), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        for x in &ex {
            let Some(v) = ok_payload(&it.a, x.v) else { continue };
            let g = is(&it.a, strip(&it.a, v), "generate");
            let t = short(&it.a.show_d(v, 8));
            let ok = g.as_ref().map_or(false, |a| a.len() == 3 && access(&it.a, strip(&it.a, a[1])).as_deref() == Some("pw") && is(&it.a, a[2], "generate").map_or(false, |s| it.a.show_d(s[0], 4).contains("rng")));
            ck.req("password", ok, "make_password_hash", (&f.file, x.line), format!("the stored hash is {t}: not the hash of the password under a fresh random salt"));
        }
    }
    if let Some(f) = ck.func("platform::auth::password::verify_password") {
        let mut it = Interp::new(m);
        let a: Vec<Vid> = ["pw", "hash"].iter().map(|n| it.param(n)).collect();
        let ex = it.run(f.id, Some(a), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let mut n = 0;
        for x in &ex {
            if ctor(&it.a, x.v).map_or(false, |c| c.0 == "Err") {
                continue;
            }
            n += 1;
            let ok = it.facts(&x.s.must).any(|f| matches!(f, Fact::Ok(v) if is(&it.a, *v, "verify_password").map_or(false, |a| access(&it.a, a[0]).as_deref() == Some("hash") && a.last().map_or(false, |p| access(&it.a, strip(&it.a, *p)).as_deref() == Some("pw")))));
            ck.req("password", ok, "verify_password", (&f.file, x.line), "verification succeeds although the password was not matched against the hash");
        }
        ck.req("password", n > 0, "verify_password:result", (&f.file, f.line), "verify_password never succeeds");
    }
    if let Some(f) = ck.func("platform::auth::password::check_password_complexity") {
        let mut it = Interp::new(m);
        it.precise = true;
        let a: Vec<Vid> = ["pw", "inputs"].iter().map(|n| it.param(n)).collect();
        let ex = it.run(f.id, Some(a), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        for x in &ex {
            if ctor(&it.a, x.v).map_or(false, |c| c.0 == "Err") {
                continue;
            }
            let fs: Vec<String> = it.facts(&x.s.must).filter_map(|f| match f { Fact::Cond(v, b) => Some(format!("{b} {}", short(&it.a.show_d(*v, 6)))), Fact::Ok(v) => Some(format!("ok {}", short(&it.a.show_d(*v, 6)))), _ => None }).collect();
            let est = fs.iter().any(|t| t.starts_with("ok zxcvbn(pw") || t.starts_with("ok zxcvbn::zxcvbn(pw"));
            let strong = fs.iter().any(|t| (t.starts_with("false (.score(zxcvbn") && t.ends_with("< 3)")) || (t.starts_with("true (.score(zxcvbn") && (t.ends_with(">= 3)") || t.ends_with("> 2)"))) || (t.starts_with("false (.score(zxcvbn") && t.ends_with("<= 2)")));
            ck.req("password", est && strong, "check_password_complexity", (&f.file, x.line), format!("a password passes with only {fs:?}"));
        }
    }
}

/// whatever is stored as a password hash is one
fn hashes(ck: &mut Ck) {
    let m = ck.m;
    let mut n = 0;
    for f in m.fns.iter().filter(|f| ["platform", "cmd"].contains(&f.krate.as_str()) && f.block.is_some()) {
        let src = f.block.as_ref().map(|b| quote::quote!(#b).to_string()).unwrap_or_default();
        if !src.contains("password_hash") || f.path.contains("auth::password") {
            continue;
        }
        let mut it = Interp::new(m);
        let file = f.file.clone();
        it.opaque = Box::new(move |g| g.path.starts_with("platform::auth::") || g.file != file && !(g.krate == "platform" && g.self_ty.is_none()));
        it.run(f.id, None, None);
        ck.absorb(&it);
        for e in &it.events {
            let Some((c, fs)) = ctor(&it.a, e.val) else { continue };
            if !c.starts_with("metadata::accounts::") {
                continue;
            }
            for (_, x) in fs.iter().filter(|x| x.0 == "password_hash") {
                for x in it.a.alts(*x) {
                    let inner = match ctor(&it.a, x) {
                        Some((c, _)) if c.ends_with("::None") || c == "None" => continue,
                        Some((_, f)) if f.len() == 1 => f[0].1,
                        _ => x,
                    };
                    if it.a.show_d(inner, 3).contains("default(") {
                        continue;
                    }
                    n += 1;
                    let ok = is(&it.a, strip(&it.a, inner), "make_password_hash").is_some();
                    ck.req("hashed", ok, format!("{}:password_hash", f.path), (&e.file, e.line), format!("{} stores {} as a password hash", f.path, short(&it.a.show_d(inner, 4))));
                }
            }
        }
        for e in it.events.iter().filter(|e| e.f == ".insert" && e.args.len() == 2 && field_of(&it.a, e.args[0], "password_hash").is_some()) {
            n += 1;
            ck.req("hashed", is(&it.a, strip(&it.a, e.args[1]), "make_password_hash").is_some(), format!("{}:password_hash", f.path), (&e.file, e.line), format!("{} stores {} as a password hash", f.path, short(&it.a.show_d(e.args[1], 4))));
        }
    }
    ck.req("hashed", n >= 5, "password_hash:stores", (FILE, 1), format!("only {n} stores of a password hash found"));
}

const SECRET: &[&str] = &["password_hash", "password", "salt", "auth_access_token", "auth_refresh_token", "auth_admin_default_password", "backup_encryption_password", "backup_provider_s3_secret_key", "backup_provider_gcp_key", "iv", "secret_key", "private_key"];
/// response fields that exist for requests only and are always left empty
const EMPTIED: &[&str] = &["Settings"];

fn secrets(ck: &mut Ck) {
    let m = ck.m;
    let mut todo: Vec<(String, String)> = vec![];
    for f in m.fns.iter().filter(|f| f.krate == "platform" && f.path.starts_with("platform::http::") && f.block.is_some()) {
        let mut st = vec![f.ret.clone()];
        while let Some(t) = st.pop() {
            match t {
                Ty::Path(p, a) => {
                    if m.structs.contains_key(&p) || m.enums.contains_key(&p) {
                        todo.push((p.clone(), f.path.clone()));
                    }
                    st.extend(a);
                }
                Ty::Tuple(a) => st.extend(a),
                _ => {}
            }
        }
    }
    let mut seen = BTreeSet::new();
    while let Some((t, via)) = todo.pop() {
        if !seen.insert(t.clone()) {
            continue;
        }
        let mut fields: Vec<(String, Ty)> = vec![];
        let (mut file, mut line) = (String::new(), 0);
        if let Some(s) = m.structs.get(&t) {
            fields.extend(s.fields.iter().map(|x| (x.0.clone(), x.1.clone())));
            (file, line) = (s.file.clone(), s.line);
        }
        if let Some(e) = m.enums.get(&t) {
            for v in &e.variants {
                fields.extend(v.fields.iter().map(|x| (x.0.clone(), x.1.clone())));
            }
            (file, line) = (e.file.clone(), e.line);
        }
        for (n, ty) in fields {
            let emptied = EMPTIED.contains(&last_seg(&t)) && t.starts_with("platform::");
            ck.req("secret", emptied || !SECRET.contains(&n.as_str()), format!("{t}.{n}"), (&file, line), format!("responses ({via}) carry {t}.{n}"));
            let mut st = vec![ty];
            while let Some(x) = st.pop() {
                match x {
                    Ty::Path(p, a) => {
                        if m.structs.contains_key(&p) || m.enums.contains_key(&p) {
                            todo.push((p, via.clone()));
                        }
                        st.extend(a);
                    }
                    Ty::Tuple(a) => st.extend(a),
                    _ => {}
                }
            }
        }
    }
    ck.req("secret", seen.len() >= 40, "responses", ("src/platform/src/http/mod.rs", 1), format!("only {} response types found", seen.len()));
}

fn settings(ck: &mut Ck) {
    let m = ck.m;
    for name in ["get", "set"] {
        let Some(f) = ck.func(&format!("platform::settings::SettingsProvider::{name}")) else { continue };
        let mut it = Interp::new(m);
        it.opaque = Box::new(|f| f.krate == "metadata" && f.has_self || f.path.starts_with("platform::context"));
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let mut n = 0;
        for e in &ex {
            for v in it.a.alts(e.v) {
                let Some(p) = ok_payload(&it.a, v) else { continue };
                for p in it.a.alts(p) {
                    let Some((c, fs)) = ctor(&it.a, p) else {
                        ck.fail(format!("settings.{name}:result"), &f.file, e.line, format!("settings are answered with {}", it.a.show_d(p, 3)));
                        continue;
                    };
                    if !c.ends_with("settings::Settings") {
                        continue;
                    }
                    n += 1;
                    for (k, x) in fs.iter().filter(|x| SECRET.contains(&x.0.as_str())) {
                        ck.req("secret", short(&it.a.show_d(*x, 3)) == "None", format!("settings.{name}:{k}"), (&f.file, e.line), format!("the settings answered by {name} reveal {k}"));
                    }
                    // a secret does not travel in another field either
                    for (k, x) in fs {
                        let r = roots(&it.a, *x);
                        let leak = r.iter().any(|p| SECRET.iter().any(|s| p.ends_with(&format!(".{s}"))));
                        let t = it.a.show_d(*x, 8);
                        let leak = leak || SECRET.iter().any(|s| t.contains(&format!(".{s}")));
                        ck.req("secret", !leak, format!("settings.{name}:{k}:source"), (&f.file, e.line), format!("the settings answered by {name} reveal a secret in {k}"));
                    }
                }
            }
        }
        ck.req("secret", n > 0, format!("settings.{name}"), (&f.file, f.line), "no settings answer found");
    }
}

/// signing keys are random, separate, and never replaced once set
fn keys(ck: &mut Ck) {
    let m = ck.m;
    let Some(f) = m.fns.iter().find(|f| f.krate == "cmd" && f.name == "init_settings" && f.block.is_some()) else {
        ck.fail("init_settings", "src/cmd/src/lib.rs", 1, "initialisation of the settings not found");
        return;
    };
    let mut it = Interp::new(m);
    it.opaque = Box::new(|f| f.krate == "metadata" && f.has_self || f.name.starts_with("get_random"));
    it.precise = true;
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let saves: Vec<Event> = it.events.iter().filter(|e| e.f.ends_with("::save")).cloned().collect();
    ck.req("keys", !saves.is_empty(), "init_settings:save", (&f.file, f.line), "settings are not saved");
    let mut found = BTreeSet::new();
    for e in &saves {
        let v = e.args[1];
        let vals: Vec<Vid> = ["auth_access_token", "auth_refresh_token"].iter().map(|k| it.a.field(v, k)).collect();
        for (k, x) in ["auth_access_token", "auth_refresh_token"].iter().zip(&vals) {
            let whole = *x;
            for x in it.a.alts(*x) {
                let t = short(&it.a.show_d(x, 10));
                if t.contains("get_random_key64(") {
                    found.insert(k.to_string());
                    // only where it was empty
                    let asked = it.events.iter().any(|e| last_of(&e.f) == "is_empty" && it.a.alts(e.args[0]).iter().any(|x| field_of(&it.a, *x, k).is_some()));
                    let old = it.a.alts(whole).iter().any(|x| it.a.show(*x) == "\"\"" || field_of(&it.a, *x, k).is_some());
                    let empty = it.facts(&e.must).any(|f| matches!(f, Fact::Cond(c, true) if is(&it.a, *c, "is_empty").map_or(false, |a| it.a.alts(a[0]).iter().any(|x| it.a.show(*x) == "\"\"" || field_of(&it.a, *x, k).is_some()))));
                    ck.req("keys", asked && (old || empty), format!("init_settings:{k}:kept"), (&e.file, e.line), format!("{k} is replaced although it was set: every token becomes invalid"));
                } else {
                    let own = t.ends_with(&format!(".{k}")) || t.contains("default()") || t == "\"\"";
                    ck.req("keys", own, format!("init_settings:{k}"), (&e.file, e.line), format!("{k} is initialised with {t}"));
                }
            }
        }
    }
    ck.req("keys", found.len() == 2, "init_settings:random", (&f.file, f.line), format!("random keys are generated for {found:?} only"));
    // one generation per key: under the key's own condition, or several unconditional ones
    let gens: Vec<BTreeSet<&str>> = it
        .events
        .iter()
        .filter(|e| last_of(&e.f).starts_with("get_random_key"))
        .map(|e| {
            it.facts(&e.must)
                .filter_map(|f| match f {
                    Fact::Cond(c, true) => is(&it.a, *c, "is_empty").and_then(|a| it.a.alts(a[0]).into_iter().find_map(|x| ["auth_access_token", "auth_refresh_token"].into_iter().find(|k| field_of(&it.a, x, k).is_some()))),
                    _ => None,
                })
                .collect()
        })
        .collect();
    let own = ["auth_access_token", "auth_refresh_token"].iter().all(|k| gens.iter().any(|g| g.len() == 1 && g.contains(k)));
    ck.req("keys", own || gens.iter().filter(|g| g.is_empty()).count() >= 2, "init_settings:separate", (&f.file, f.line), "access and refresh tokens share one key");
}
