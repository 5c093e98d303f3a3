//! C05: error -> HTTP status mapping, error values keep their parts, JSON body rejection.
use std::collections::BTreeSet;

use super::eval::*;
use super::tab::{case, fresh, short};
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

pub fn statuses(a: &Arena, v: Vid) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    a.walk(v, &mut |_, x| {
        match x {
            Val::Const(c) | Val::Ctor { p: c, .. } if c.contains("StatusCode::") => {
                r.insert(last_seg(c).to_string());
            }
            _ => {}
        }
        true
    });
    r
}

const PLAT: &[(&str, &str)] = &[
    ("InvalidFields", "BAD_REQUEST"),
    ("BadRequest", "BAD_REQUEST"),
    ("Unimplemented", "NOT_IMPLEMENTED"),
    ("AlreadyExists", "CONFLICT"),
    ("Unauthorized", "UNAUTHORIZED"),
    ("Forbidden", "FORBIDDEN"),
    ("NotFound", "NOT_FOUND"),
    ("Internal", "INTERNAL_SERVER_ERROR"),
    ("EntityMap", "INTERNAL_SERVER_ERROR"),
    ("Serde", "BAD_REQUEST"),
    ("PasswordHash", "INTERNAL_SERVER_ERROR"),
    ("JSONWebToken", "INTERNAL_SERVER_ERROR"),
    ("Decimal", "BAD_REQUEST"),
    ("Axum", "INTERNAL_SERVER_ERROR"),
    ("Hyper", "INTERNAL_SERVER_ERROR"),
    ("Other", "INTERNAL_SERVER_ERROR"),
];
const META: &[(&str, &str)] = &[("AlreadyExists", "CONFLICT"), ("NotFound", "NOT_FOUND"), ("BadRequest", "BAD_REQUEST"), ("Forbidden", "FORBIDDEN")];
const QUERY: &[(&str, &str)] = &[("Unimplemented", "NOT_IMPLEMENTED")];
const COMMON: &[(&str, &str)] = &[("BadRequest", "BAD_REQUEST"), ("Serde", "BAD_REQUEST")];
const AUTH: &[(&str, &str)] = &[("InvalidCredentials", "UNAUTHORIZED"), ("InvalidRefreshToken", "UNAUTHORIZED"), ("CantParseBearerHeader", "UNAUTHORIZED"), ("CantParseAccessToken", "UNAUTHORIZED")];
const ING: &[(&str, &str)] = &[("BadRequest", "BAD_REQUEST"), ("Serde", "BAD_REQUEST")];
const ING_META: &[(&str, &str)] = &[("AlreadyExists", "CONFLICT"), ("NotFound", "NOT_FOUND"), ("BadRequest", "?"), ("Forbidden", "?")];

fn want<'a>(t: &'a [(&'a str, &'a str)], v: &str) -> &'a str {
    t.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or("INTERNAL_SERVER_ERROR")
}

fn variant_status<'m>(ck: &mut Ck<'m>, f: &'m FnDef, outer: &str, v: &str, inner: Option<(&str, &str)>, want: &str) {
    let mut it = Interp::new(ck.m);
    let mut s = variant(&mut it, outer, v);
    let tag = match inner {
        Some((e, iv)) => {
            let k = variant(&mut it, e, iv);
            s = it.a.mk(Val::Ctor { p: format!("{outer}::{v}"), f: vec![("0".into(), k)] });
            format!("{v}({iv})")
        }
        None => v.to_string(),
    };
    if want == "?" {
        return;
    }
    let r = results(ck, &mut it, f, Some(s), None, false);
    let mut got = BTreeSet::new();
    let mut carries = true;
    let payload = matches!(inner, Some((e, iv)) if ck.m.enums[e].variants.iter().any(|x| x.name == iv && !x.fields.is_empty())) || inner.is_none();
    for x in &r {
        got.extend(statuses(&it.a, *x));
        // a payload-carrying error explains itself in the response
        if payload {
            let rs = roots(&it.a, *x);
            carries &= rs.iter().any(|p| p.contains('~'));
        }
    }
    let at = (f.file.as_str(), f.line);
    let name = f.self_name();
    ck.req("error-status", got.len() == 1 && got.contains(want), format!("{name}::{tag}"), at, format!("{name}::{tag} must answer {want}, answers {got:?}"));
    ck.req("error-text", carries, format!("{name}::{tag}.message"), at, format!("{name}::{tag}: the response does not carry the error's own content"));
}

pub fn check(ck: &mut Ck) {
    ck.rule("each error variant (nested variants expanded) evaluated through the conversion to a response: exactly one status constant, the documented one, and the variant's payload reaches the response");
    ck.rule("ApiError constructors use their namesake status; with_* helpers change only their own part");
    ck.rule("JSON body extractor: Err exits are 400, Ok exits carry the parsed value");
    if let Some(f) = ck.func("platform::error::PlatformError::into_api_error") {
        let pe = "platform::error::PlatformError";
        for v in variants(ck.m, pe) {
            let nested: Option<(&str, &[(&str, &str)])> = match v.as_str() {
                "Metadata" => Some(("metadata::error::MetadataError", META)),
                "Query" => Some(("query::error::QueryError", QUERY)),
                "Common" => Some(("common::error::CommonError", COMMON)),
                "Auth" => Some(("platform::error::AuthError", AUTH)),
                _ => None,
            };
            match nested {
                Some((e, t)) => {
                    for iv in variants(ck.m, e) {
                        variant_status(ck, f, pe, &v, Some((e, &iv)), want(t, &iv));
                    }
                }
                None if v == "Wrapped" => {
                    let mut it = Interp::new(ck.m);
                    it.opaque = Box::new(|_| true);
                    let s = variant(&mut it, pe, &v);
                    let r = results(ck, &mut it, f, Some(s), None, false);
                    let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
                    ck.req("error-status", g.len() == 1 && g[0].contains("into_api_error(Wrapped~1"), "PlatformError::Wrapped", (&f.file, f.line), format!("a wrapped error must answer as its outer error, answers {g:?}"));
                }
                None => {
                    if !PLAT.iter().any(|p| p.0 == v) {
                        ck.fail(format!("PlatformError::{v}"), &f.file, f.line, "variant without a recorded status");
                        continue;
                    }
                    variant_status(ck, f, pe, &v, None, want(PLAT, &v));
                }
            }
        }
    }
    if let Some(f) = ck.impl_fn("ingester", "IngesterError", "IntoResponse", "", "into_response") {
        let e = "ingester::error::IngesterError";
        for v in variants(ck.m, e) {
            if v == "Metadata" {
                for iv in variants(ck.m, "metadata::error::MetadataError") {
                    variant_status(ck, f, e, &v, Some(("metadata::error::MetadataError", &iv)), want(ING_META, &iv));
                }
            } else {
                variant_status(ck, f, e, &v, None, want(ING, &v));
            }
        }
    }
    if let Some(f) = ck.impl_fn("platform", "PlatformError", "IntoResponse", "", "into_response") {
        let mut it = Interp::new(ck.m);
        it.opaque = Box::new(|_| true);
        let r = results(ck, &mut it, f, None, None, false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        ck.req("error-status", g.len() == 1 && g[0].contains("into_api_error(self"), "PlatformError::into_response", (&f.file, f.line), format!("must answer with the API error, answers {g:?}"));
    }
    for (c, s) in [
        ("bad_request", "BAD_REQUEST"),
        ("unimplemented", "NOT_IMPLEMENTED"),
        ("forbidden", "FORBIDDEN"),
        ("unauthorized", "UNAUTHORIZED"),
        ("conflict", "CONFLICT"),
        ("not_found", "NOT_FOUND"),
        ("internal", "INTERNAL_SERVER_ERROR"),
    ] {
        let Some(f) = ck.func(&format!("common::http::ApiError::{c}")) else { continue };
        let mut it = Interp::new(ck.m);
        let p = it.param("err");
        let r = results(ck, &mut it, f, None, Some(vec![p]), false);
        let ok = r.len() == 1 && {
            let s2 = it.a.field(r[0], "status");
            let m = it.a.field(r[0], "message");
            let cd = it.a.field(r[0], "code");
            statuses(&it.a, s2) == [s.to_string()].into() && roots(&it.a, m) == ["err".to_string()].into() && roots(&it.a, cd).is_empty()
        };
        ck.req("api-error", ok, format!("ApiError::{c}"), (&f.file, f.line), format!("ApiError::{c} must build status {s} with the given message, builds {}", r.iter().map(|x| it.a.show(*x)).collect::<Vec<_>>().join(" or ")));
    }
    // helpers: field -> sources
    for (h, ch) in [("with_fields", "fields"), ("with_message", "message"), ("append_inner_message", "message")] {
        let Some(f) = ck.func(&format!("common::http::ApiError::{h}")) else { continue };
        let mut it = Interp::new(ck.m);
        let arg = it.param("arg");
        let r = results(ck, &mut it, f, None, Some(vec![arg]), false);
        for fl in ["status", "code", "message", "fields"] {
            let mut got = BTreeSet::new();
            for x in &r {
                let v = it.a.field(*x, fl);
                got.extend(roots(&it.a, v));
            }
            let mut w: BTreeSet<String> = [format!("self.{fl}")].into();
            if fl == ch {
                if h != "append_inner_message" {
                    w.clear();
                }
                w.insert("arg".into());
            }
            ck.req("api-error", got == w, format!("ApiError::{h}.{fl}"), (&f.file, f.line), format!("{h}: {fl} must come from {w:?}, comes from {got:?}"));
        }
    }
    {
        let d = "common::http::ApiError { status: s, code: c, message: M, fields: f }";
        let w = |m: &str, f: &str| format!("ApiError{{code: c, fields: {f}, message: {m}, status: s}}");
        for (m, mw) in [("m", "m"), ("None", "None"), ("Some(m)", "Some{0: m}")] {
            let s = d.replace('M', m);
            case(ck, "api-error", "common::http::ApiError::with_fields", Some(&s), &["arg"], &[&w(mw, "arg")]);
            case(ck, "api-error", "common::http::ApiError::with_message", Some(&s), &["arg"], &[&w("Some{0: arg}", "f")]);
        }
        case(ck, "api-error", "common::http::ApiError::append_inner_message", Some(&d.replace('M', "None")), &["arg"], &[&w("None", "f")]);
    }
    if let Some(f) = ck.func("common::http::ApiError::new") {
        let mut it = Interp::new(ck.m);
        let p = it.param("status");
        let r = results(ck, &mut it, f, None, Some(vec![p]), false);
        let ok = r.len() == 1 && {
            let s = it.a.field(r[0], "status");
            s == p && ["code", "message", "fields"].iter().all(|x| {
                let v = it.a.field(r[0], x);
                roots(&it.a, v).is_empty()
            })
        };
        ck.req("api-error", ok, "ApiError::new", (&f.file, f.line), "ApiError::new must carry the given status and nothing else");
    }
    if let Some(f) = ck.impl_fn("common", "ApiError", "IntoResponse", "", "into_response") {
        let mut it = Interp::new(ck.m);
        let r = results(ck, &mut it, f, None, None, false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        let mut has = (false, false);
        for x in &r {
            it.a.walk(*x, &mut |_, v| {
                if let Val::Tuple(t) = v {
                    if t.len() == 2 && access(&it.a, t[0]).as_deref() == Some("self.status") {
                        has.0 = true;
                        has.1 = roots(&it.a, t[1]).contains("self");
                    }
                }
                true
            });
        }
        ck.req("api-error", r.len() == 1 && has.0 && has.1, "ApiError::into_response", (&f.file, f.line), format!("the response must be (error's status, error as JSON), is {g:?}"));
    }
    if let Some(f) = ck.func("common::http::serialize_http_code") {
        let mut it = Interp::new(ck.m);
        let r = results(ck, &mut it, f, None, None, false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        ck.req("api-error", g == [".serialize_u16(ser, .as_u16(status))"], "serialize_http_code", (&f.file, f.line), format!("the status must be serialized as its number, is {g:?}"));
    }
    if let Some(f) = ck.impl_fn("common", "Json", "FromRequest", "", "from_request") {
        let mut it = Interp::new(ck.m);
        it.precise = true;
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        let (mut oks, mut errs) = (0, 0);
        let mut bad = vec![];
        for e in &ex {
            for v in it.a.alts(e.v) {
                match it.a.get(v).clone() {
                    Val::Ctor { p, f } if p == "Ok" => {
                        oks += 1;
                        let s = it.a.show(f[0].1);
                        if !s.contains("from_request(req, state)") || s.contains("Err") {
                            bad.push(s);
                        }
                    }
                    Val::Ctor { p, f } if p == "Err" => {
                        errs += 1;
                        let st = it.a.field(f[0].1, "status");
                        let s = statuses(&it.a, st);
                        if s != ["BAD_REQUEST".to_string()].into() {
                            bad.push(format!("{s:?}"));
                        }
                    }
                    _ => bad.push(it.a.show(v)),
                }
            }
        }
        ck.req("json-body", bad.is_empty() && oks > 0 && errs > 0, "Json::from_request", (&f.file, f.line), format!("a body that does not parse must be refused with 400 and a parsed one passed on; found {bad:?}"));
    }
    rejection(ck);
    measured(ck);
    if let Some(f) = ck.impl_fn("common", "Json", "IntoResponse", "", "into_response") {
        let mut it = Interp::new(ck.m);
        let r = results(ck, &mut it, f, None, None, false);
        ck.req("json-body", r.len() == 1 && roots(&it.a, r[0]) == ["self.0".to_string()].into() && arith(&it.a, r[0]), "Json::into_response", (&f.file, f.line), "the response body must be the wrapped value");
    }
    if let Some(f) = ck.func("common::http::content_length") {
        let mut it = Interp::new(ck.m);
        let r = results(ck, &mut it, f, None, None, false);
        let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
        ck.req("api-error", g.iter().any(|s| s.contains("CONTENT_LENGTH")) && !g.iter().any(|s| s.contains(" + ") || s.contains(" * ")), "content_length", (&f.file, f.line), format!("must read the Content-Length header, reads {g:?}"));
    }
    // request middlewares hand the request on and the response back unchanged
    for n in ["measure_request_response", "print_request_response"] {
        let Some(f) = ck.func(&format!("common::http::{n}")) else { continue };
        let mut it = Interp::new(ck.m);
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        let mut ok = false;
        let mut bad = vec![];
        for e in &ex {
            for v in it.a.alts(e.v) {
                if let Some(("Ok", f)) = ctor(&it.a, v) {
                    match it.a.get(f[0].1) {
                        Val::Call { f, args } if f == ".run" && access(&it.a, args[0]).as_deref() == Some("next") && roots(&it.a, args[1]).iter().any(|r| r.starts_with("req")) => ok = true,
                        _ => bad.push(it.a.show(f[0].1)),
                    }
                }
            }
        }
        ck.req("middleware", ok && bad.is_empty(), n, (&f.file, f.line), format!("{n} must return the response of the inner service, returns {bad:?}"));
    }
    ck.floor("error-status", 60);
    ck.floor("api-error", 20);
    ck.floor("json-body", 2);
    ck.floor("middleware", 2);
}
/// what the client is told about a body that does not parse: the reason, its cause, and for a wrong or
/// missing field the field's name
fn rejection<'m>(ck: &mut Ck<'m>) {
    let Some(f) = ck.impl_fn("common", "Json", "FromRequest", "", "from_request") else { return };
    let at = (f.file.as_str(), f.line);
    let mut it = fresh(ck);
    let ex = it.run(f.id, None, None);
    ck.absorb(&it);
    let req = "Json::from_request(req, state)~Err.0";
    let inner = format!(".source(.source({req}))");
    let cap = format!(".captures(Regex::new(\"(\\\\w+?) field `(.+?)`\"), {inner})");
    let (mut msgs, mut flds) = (BTreeSet::new(), BTreeSet::new());
    let mut pairs = BTreeSet::new();
    for e in &ex {
        for v in it.a.alts(e.v) {
            let Some(("Err", fs)) = ctor(&it.a, v) else { continue };
            let e = fs[0].1;
            let (m, fl) = (it.a.field(e, "message"), it.a.field(e, "fields"));
            let (m, fl) = (short(&it.a.show_d(m, 14)), short(&it.a.show_d(fl, 14)));
            pairs.insert((m.contains(".source("), fl.contains("captures")));
            msgs.insert(m);
            flds.insert(fl);
        }
    }
    let wm: BTreeSet<String> = [format!("Some{{0: {req}}}"), format!("Some{{0: fmt(\"{{}}: {{}}\", {req}, {inner})}}")].into();
    ck.req("json-body", msgs == wm, "from_request.message", at, format!("the message must be the rejection, with its cause when there is one; is {msgs:?}"));
    let wf: BTreeSet<String> = ["BTreeMap::new()".to_string(), format!("BTreeMap::from([({cap}[2], {cap}[1]) | ])")].into();
    ck.req("json-body", flds == wf, "from_request.fields", at, format!("the field named by the cause must be reported with its problem; is {flds:?}"));
    ck.req("json-body", pairs == [(false, false), (true, false), (true, true)].into(), "from_request.cases", at, format!("message and field must both be reported, pairs (cause, field) are {pairs:?}"));
    let errp = "JsonRejection::";
    for ev in it.events.iter().filter(|e| e.f == "common::http::ApiError::with_fields" || e.f == "unreachable!").cloned().collect::<Vec<_>>() {
        let is: Vec<String> = it.facts(&ev.must).filter_map(|f| match f {
            Fact::Is(_, c) if c.contains(errp) => Some(last_seg(c).to_string()),
            _ => None,
        }).collect();
        let not: BTreeSet<String> = it.facts(&ev.must).filter_map(|f| match f {
            Fact::NotIs(_, c) if c.contains(errp) => Some(last_seg(c).to_string()),
            _ => None,
        }).collect();
        if ev.f == "unreachable!" {
            let all: BTreeSet<String> = ["JsonDataError", "JsonSyntaxError", "MissingJsonContentType", "BytesRejection"].iter().map(|s| s.to_string()).collect();
            ck.req("json-body", not.is_superset(&all), "from_request.reachable", (&ev.file, ev.line), format!("a rejected body must never panic: only {not:?} are told apart before"));
        } else {
            ck.req("json-body", is == ["JsonDataError"], "from_request.data-error", (&ev.file, ev.line), format!("fields are reported for bodies of the wrong shape, here for {is:?}"));
        }
    }
    // the error's own text
    if let Some(f) = ck.impl_fn("common", "ApiError", "Display", "", "fmt") {
        let mut it = fresh(ck);
        let r = results(ck, &mut it, f, None, None, false);
        let g: BTreeSet<String> = r.iter().flat_map(|v| roots(&it.a, *v)).filter(|x| x != "f").collect();
        ck.req("api-error", g == ["self.message".to_string()].into() && r.iter().all(|v| {
            let t = it.a.show(*v);
            t.matches('"').count() == 0 || t.contains("\"{}\"") && t.matches('"').count() == 2
        }), "ApiError::fmt", (&f.file, f.line), format!("an error must print its message, prints {g:?}"));
    }
    case(ck, "api-error", "common::http::ApiError::append_inner_message", Some("common::http::ApiError { status: s, code: c, message: Some(m), fields: f }"), &["arg"], &["ApiError{code: c, fields: f, message: Some{0: fmt(\"{}: {}\", m, arg)}, status: s}"]);
    if let Some(f) = ck.func("common::http::buffer_and_print") {
        let mut it = fresh(ck);
        let ex = it.run(f.id, None, None);
        ck.absorb(&it);
        let mut g: BTreeSet<String> = BTreeSet::new();
        for e in &ex {
            for v in it.a.alts(e.v) {
                match ctor(&it.a, v) {
                    Some(("Err", _)) => {
                        let s = statuses(&it.a, v);
                        g.insert(format!("Err {s:?}"));
                    }
                    _ => {
                        g.insert(it.a.show(v));
                    }
                }
            }
        }
        let w: BTreeSet<String> = ["Ok{0: .to_bytes(body)}".to_string(), "Err {\"BAD_REQUEST\"}".to_string()].into();
        ck.req("middleware", g == w, "buffer_and_print", (&f.file, f.line), format!("a body must be passed on whole and one that cannot be read refused with 400; gives {g:?}"));
    }
}
/// every request but a preflight one is counted and timed once, under its path and status
fn measured<'m>(ck: &mut Ck<'m>) {
    let Some(f) = ck.func("common::http::measure_request_response") else { return };
    let mut it = fresh(ck);
    it.run(f.id, None, None);
    ck.absorb(&it);
    let mut n = [0, 0];
    for ev in it.events.iter().filter(|e| e.f == ".record" || e.f == ".increment").cloned().collect::<Vec<_>>() {
        let s = short(&it.a.show_d(ev.val, 14));
        let pre = it.facts(&ev.must).any(|f| match f {
            Fact::Cond(c, b) => {
                let s = it.a.show(*c);
                s.contains(".method(req)") && s.contains("Method::OPTIONS") && (s.contains("!=") == *b)
            }
            _ => false,
        });
        let m = if ev.f == ".record" { "METRIC_HTTP_REQUEST_TIME_SECONDS" } else { "METRIC_HTTP_REQUESTS_TOTAL" };
        let arg = if ev.f == ".record" { ".as_millis(.elapsed(Instant::now()))" } else { ", 1)" };
        n[(ev.f == ".record") as usize] += 1;
        let labels = s.contains("\"path\", .path(.uri(req))") && s.contains("\"status\", .as_u16(.status(.run(next, req)))");
        let metric = ev.args.first().map_or(false, |a| it.a.show(*a).contains(m)) || s.contains(&const_text(ck, m));
        ck.req("middleware", pre && labels && metric && s.contains(arg), format!("measure{}", ev.f), (&ev.file, ev.line), format!("every request but OPTIONS is measured as {m} under its path and status; here {s}, not for OPTIONS: {pre}"));
    }
    ck.req("middleware", n == [1, 1], "measure", (&f.file, f.line), format!("one time and one count per request, found {n:?}"));
}
fn const_text<'m>(ck: &Ck<'m>, n: &str) -> String {
    let mut it = Interp::new(ck.m);
    match it.const_val(&format!("common::types::{n}")) {
        Some(v) => it.a.show(v),
        None => n.to_string(),
    }
}
fn arith(a: &Arena, v: Vid) -> bool {
    super::conv::arithmetic(a, v).is_none()
}
