//! C18: which requests are refused before anything is planned, and what is normalised.
use std::collections::BTreeSet;
use std::rc::Rc;

use super::plan;
use super::tab::*;
use crate::interp::*;
use crate::report::*;
use crate::val::*;

/// metadata of the cases: names that begin with "no" exist nowhere, nothing exists in another project
fn model(a: &mut Arena, f: &str, args: &[Vid]) -> Option<Vid> {
    let l = f.rsplit("::").next().unwrap_or(f).trim_start_matches('.').to_string();
    let txt = |a: &Arena, i: usize| args.get(i).map(|v| plan::norm(a, *v)).unwrap_or_default();
    let missing = |a: &mut Arena| {
        let n = a.mk(Val::Ctor { p: "metadata::error::MetadataError::NotFound".into(), f: vec![] });
        Some(a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), n)] }))
    };
    match (l.as_str(), args.len()) {
        ("get_by_name", 3) if txt(a, 0).contains("_properties") || txt(a, 0).ends_with(".events") => {
            if txt(a, 1) != "project_id" || txt(a, 2).starts_with("\"no") {
                return missing(a);
            }
        }
        ("get_by_id", 3) if txt(a, 0).ends_with(".custom_events") => {
            if txt(a, 1) != "project_id" || txt(a, 2) == "9" {
                return missing(a);
            }
        }
        ("get", 2) if txt(a, 0).ends_with("group_properties") => {
            let Ok(n) = txt(a, 1).parse::<usize>() else { return None };
            if n >= 5 {
                return Some(a.mk(Val::Ctor { p: "None".into(), f: vec![] }));
            }
            let v = a.mk(Val::Index(args[0], args[1]));
            return Some(a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), v)] }));
        }
        _ => {}
    }
    plan::model(a, f, args)
}

/// how a validator ends: "ok", or the kind of refusal
fn outcome<'m>(ck: &mut Ck<'m>, path: &str, args: &[&str]) -> Option<(BTreeSet<String>, (&'m str, usize))> {
    let f = ck.func(path)?;
    let mut it = plan::interp(ck);
    it.ext = Some(Rc::new(model));
    let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
    let ex = it.run(f.id, Some(av), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let mut out = BTreeSet::new();
    for e in ex {
        for v in it.a.alts(e.v) {
            out.insert(match it.a.get(v) {
                Val::Ctor { p, .. } if p == "Ok" => "ok".to_string(),
                Val::Ctor { p, f } if p == "Err" && f.len() == 1 => {
                    for e in it.a.alts(f[0].1) {
                        out.insert(match it.a.get(e) {
                            Val::Ctor { p, .. } => p.rsplit("::").next().unwrap().to_string(),
                            _ => format!("Err({})", short(&it.a.show_d(e, 4))),
                        });
                    }
                    continue;
                }
                _ => short(&it.a.show_d(v, 6)),
            });
        }
    }
    Some((out, (&f.file, f.line)))
}

const PR: &str = "platform::PropertyRef";
fn ev(n: &str) -> String {
    format!("{PR}::Event{{property_name: {n:?}}}")
}
fn gr(n: &str, g: usize) -> String {
    format!("{PR}::Group{{property_name: {n:?}, group: {g}}}")
}
fn opn(o: &str) -> String {
    format!("platform::PropValueOperation::{o}")
}
fn filter(p: &str, o: &str, v: &str) -> String {
    format!("platform::PropValueFilter::Property{{property: {p}, operation: {}, value: {v}}}", opn(o))
}

pub fn check(ck: &mut Ck) {
    ck.rule("each request validator interpreted over a matrix of requests (each part in turn valid, unknown, of another kind or out of range; symbolic elsewhere) against a model of the metadata: it ends with success exactly for the requests that can be planned, else with the documented refusal");
    props(ck);
    refs(ck);
    segmentation(ck);
    funnel(ck);
    events(ck);
    groups(ck);
    values(ck);
    normalise(ck);
    operations(ck);
    conversions(ck);
}

fn expect<'m>(ck: &mut Ck<'m>, kind: &str, path: &str, what: &str, args: &[&str], want: &str) {
    let Some((got, at)) = outcome(ck, path, args) else { return };
    let n = path.trim_start_matches("platform::");
    let ok = got.len() == 1 && (got.contains(want) || want == "refused" && !got.contains("ok") && got.iter().all(|g| g == "BadRequest" || g == "Unimplemented" || g == "NotFound"));
    ck.req(kind, ok, format!("{n}:{what}"), at, format!("{n}: a request with {what} must end with {want}, ends with {got:?}"));
}

/// the ways a property reference can be good or bad
fn prop_refs() -> Vec<(&'static str, String, &'static str)> {
    vec![
        ("an event property", ev("a"), "ok"),
        ("a property of group 0", gr("a", 0), "ok"),
        ("a property of group 4", gr("a", 4), "ok"),
        ("an unknown event property", ev("no"), "BadRequest"),
        ("an unknown group property", gr("no", 1), "BadRequest"),
        ("a property of group 5", gr("a", 5), "BadRequest"),
        ("a custom property", format!("{PR}::Custom{{property_id: 1}}"), "Unimplemented"),
    ]
}
fn event_refs() -> Vec<(&'static str, &'static str, &'static str)> {
    vec![
        ("a known event", "platform::EventRef::Regular{event_name: \"e\"}", "ok"),
        ("a known custom event", "platform::EventRef::Custom{event_id: 7}", "ok"),
        ("an unknown event", "platform::EventRef::Regular{event_name: \"no\"}", "BadRequest"),
        ("an unknown custom event", "platform::EventRef::Custom{event_id: 9}", "BadRequest"),
    ]
}
/// a filter that passes, one whose value does not fit, one on an unknown property
fn filters() -> Vec<(&'static str, String, &'static str)> {
    let s = "Some([serde_json::Value::String(s)])";
    let n = "Some([serde_json::Value::String(s), serde_json::Value::Number(n)])";
    vec![
        ("a fitting filter", filter(&ev("a"), "Eq", s), "ok"),
        ("a filter on an unknown property", filter(&ev("no"), "Eq", s), "BadRequest"),
        ("a filter on a property of group 7", filter(&gr("a", 7), "Eq", s), "BadRequest"),
        ("a filter with a second value of another kind", filter(&ev("a"), "Eq", n), "BadRequest"),
        ("a filter with an operation of another kind", filter(&ev("a"), "Gt", s), "BadRequest"),
    ]
}
fn refs(ck: &mut Ck) {
    for (w, p, want) in prop_refs() {
        expect(ck, "reference", "platform::validate_event_property", w, &["md", "project_id", &p, "prefix"], want);
        expect(ck, "reference", "platform::validate_event_filter_property", w, &["md", "project_id", &p, &opn("Eq"), "Some([serde_json::Value::String(s)])", "prefix"], want);
        expect(ck, "reference", "platform::validate_event_property", &format!("{w} of another project"), &["md", "other", &p, "prefix"], "refused");
    }
    for (w, e, want) in event_refs() {
        expect(ck, "reference", "platform::validate_event", w, &["md", "project_id", e, "i", "prefix"], want);
    }
}
/// (what, from, to, fine?) for two comparable bounds
const BOUNDS: &[(&str, &str, &str, &str)] = &[("ordered", "1", "2", "ok"), ("equal", "2", "2", "ok"), ("reversed", "2", "1", "BadRequest")];
fn req(path: &str, base: &[(&str, String)], over: &[(&str, String)]) -> String {
    let f: Vec<String> = base.iter().map(|(k, v)| format!("{k}: {}", over.iter().find(|o| o.0 == *k).map(|o| &o.1).unwrap_or(v))).collect();
    format!("{path}{{{}}}", f.join(", "))
}
fn one_of(what: &str, l: &[String]) -> String {
    let _ = what;
    format!("[{}]", l.join(", "))
}
fn grouped(f: &[&str]) -> String {
    format!("Some(platform::EventGroupedFilters{{groups_condition: gc, groups: [platform::EventGroupedFilterGroup{{filters_condition: fc, filters: [{}]}}]}})", f.join(", "))
}
type Case = (String, String, &'static str);

/// cases common to the requests that carry a time range and grouped filters
fn common(base: &[(&str, String)], path: &str, opt_time: bool, empty_group: Option<&'static str>) -> Vec<Case> {
    let mut c: Vec<Case> = vec![("no fault".into(), req(path, base, &[]), "ok")];
    let t = |s: String| if opt_time { format!("Some({s})") } else { s };
    for (w, x, y, want) in BOUNDS {
        c.push((format!("{w} time bounds"), req(path, base, &[("time", t(format!("platform::QueryTime::Between{{from: {x}, to: {y}}}")))]), want));
    }
    c.push(("an open time range".into(), req(path, base, &[("time", t("platform::QueryTime::From{from: x}".into()))]), "ok"));
    c.push(("a relative time range".into(), req(path, base, &[("time", t("platform::QueryTime::Last{last: x, unit: u}".into()))]), "ok"));
    for (w, f, want) in filters() {
        c.push((w.to_string(), req(path, base, &[("filters", grouped(&[&f]))]), want));
        let good = &filters()[0].1;
        c.push((format!("{w} in second place"), req(path, base, &[("filters", grouped(&[good, &f]))]), want));
        let two = format!("Some(platform::EventGroupedFilters{{groups_condition: gc, groups: [platform::EventGroupedFilterGroup{{filters_condition: fc, filters: [{good}]}}, platform::EventGroupedFilterGroup{{filters_condition: fc, filters: [{f}]}}]}})");
        c.push((format!("{w} in the second group"), req(path, base, &[("filters", two)]), want));
    }
    c.push(("no filter groups".into(), req(path, base, &[("filters", "Some(platform::EventGroupedFilters{groups_condition: gc, groups: []})".into())]), "BadRequest"));
    if let Some(w) = empty_group {
        c.push(("an empty filter group".into(), req(path, base, &[("filters", grouped(&[]))]), w));
    }
    c
}
fn run(ck: &mut Ck, path: &str, cases: Vec<Case>) {
    for (w, r, want) in cases {
        expect(ck, "request", path, &w, &["md", "project_id", &r], want);
    }
}
fn group_ids(base: &[(&str, String)], path: &str) -> Vec<Case> {
    ["0", "4", "5", "6"].iter().map(|g| (format!("group {g}"), req(path, base, &[("group", g.to_string())]), if *g < "5" { "ok" } else { "BadRequest" })).collect()
}
fn breakdown(p: &str) -> String {
    format!("platform::Breakdown::Property{{property: {p}}}")
}

fn segmentation(ck: &mut Ck) {
    let path = "platform::event_segmentation::EventSegmentationRequest";
    let good = &filters()[0].1;
    let event = |e: &str, f: &str, b: &str, q: &str| format!("platform::event_segmentation::Event{{event: {e}, filters: {f}, breakdowns: {b}, queries: {q}}}");
    let e0 = event_refs()[0].1;
    let q0 = "[platform::event_segmentation::Query::CountEvents]";
    let ge = event(e0, "None", "None", q0);
    let base: Vec<(&str, String)> = vec![
        ("time", "platform::QueryTime::From{from: x}".into()),
        ("group", "1".into()),
        ("interval_unit", "u".into()),
        ("chart_type", "c".into()),
        ("analysis", "an".into()),
        ("compare", "None".into()),
        ("events", one_of("", &[ge.clone()])),
        ("filters", "None".into()),
        ("breakdowns", "None".into()),
        ("segments", "None".into()),
    ];
    let mut c = common(&base, path, false, Some("BadRequest"));
    c.extend(group_ids(&base, path));
    c.push(("no events".into(), req(path, &base, &[("events", "[]".into())]), "BadRequest"));
    c.push(("segments".into(), req(path, &base, &[("segments", "Some([s])".into())]), "Unimplemented"));
    // every position in the first and in the second event
    let mut at = |w: String, e: String, want: &'static str| {
        c.push((format!("{w} (first event)"), req(path, &base, &[("events", format!("[{e}, {ge}]"))]), want));
        c.push((format!("{w} (second event)"), req(path, &base, &[("events", format!("[{ge}, {e}]"))]), want));
    };
    for (w, e, want) in event_refs() {
        at(w.into(), event(e, "None", "None", q0), want);
    }
    for (w, f, want) in filters() {
        at(format!("event filter: {w}"), event(e0, &format!("Some([{f}])"), "None", q0), want);
        at(format!("second event filter: {w}"), event(e0, &format!("Some([{good}, {f}])"), "None", q0), want);
    }
    at("no queries".into(), event(e0, "None", "None", "[]"), "BadRequest");
    for (w, p, want) in prop_refs() {
        at(format!("event breakdown: {w}"), event(e0, "None", &format!("Some([{}])", breakdown(&p)), q0), want);
        for q in [format!("platform::event_segmentation::Query::AggregateProperty{{property: {p}, aggregate: ag}}"), format!("platform::event_segmentation::Query::AggregatePropertyPerGroup{{property: {p}, aggregate_per_group: pg, aggregate: ag}}")] {
            let n = short(&q).split('{').next().unwrap().to_string();
            at(format!("{n}: {w}"), event(e0, "None", "None", &format!("[{q}]")), want);
            at(format!("second query {n}: {w}"), event(e0, "None", "None", &format!("[platform::event_segmentation::Query::CountEvents, {q}]")), want);
        }
    }
    for (w, p, want) in prop_refs() {
        c.push((format!("breakdown: {w}"), req(path, &base, &[("breakdowns", format!("Some([{}])", breakdown(&p)))]), want));
        c.push((format!("second breakdown: {w}"), req(path, &base, &[("breakdowns", format!("Some([{}, {}])", breakdown(&ev("b")), breakdown(&p)))]), want));
    }
    run(ck, "platform::event_segmentation::validate_request", c);
}

fn funnel(ck: &mut Ck) {
    let path = "platform::funnel::FunnelRequest";
    let good = &filters()[0].1;
    let event = |e: &str, f: &str| format!("platform::funnel::Event{{event: {e}, filters: {f}}}");
    let step = |l: &[String], o: &str| format!("platform::funnel::Step{{events: [{}], order: platform::funnel::StepOrder::{o}}}", l.join(", "));
    let e0 = event_refs()[0].1;
    let ge = event(e0, "None");
    let gs = step(&[ge.clone()], "Exact");
    let base: Vec<(&str, String)> = vec![
        ("time", "platform::QueryTime::From{from: x}".into()),
        ("group", "1".into()),
        ("steps", format!("[{gs}, {gs}]")),
        ("time_window", "tw".into()),
        ("chart_type", "ct".into()),
        ("count", "co".into()),
        ("filter", "None".into()),
        ("touch", "None".into()),
        ("holding_constants", "None".into()),
        ("exclude", "None".into()),
        ("breakdowns", "None".into()),
        ("segments", "None".into()),
        ("filters", "None".into()),
    ];
    let mut c = common(&base, path, false, None);
    c.extend(group_ids(&base, path));
    for n in [0usize, 1, 5, 6] {
        c.push((format!("{n} steps"), req(path, &base, &[("steps", format!("[{}]", vec![gs.clone(); n].join(", ")))]), if (1..=5).contains(&n) { "ok" } else { "BadRequest" }));
    }
    c.push(("segments".into(), req(path, &base, &[("segments", "Some([s])".into())]), "Unimplemented"));
    let mut at = |w: String, s: String, want: &'static str| {
        c.push((format!("{w} (first step)"), req(path, &base, &[("steps", format!("[{s}, {gs}]"))]), want));
        c.push((format!("{w} (second step)"), req(path, &base, &[("steps", format!("[{gs}, {s}]"))]), want));
    };
    at("no events".into(), step(&[], "Exact"), "BadRequest");
    for (w, e, want) in event_refs() {
        at(w.into(), step(&[event(e, "None")], "Exact"), want);
        at(format!("second event: {w}"), step(&[ge.clone(), event(e, "None")], "Exact"), want);
    }
    for (w, f, want) in filters() {
        at(format!("step filter: {w}"), step(&[event(e0, &format!("Some([{f}])"))], "Exact"), want);
        at(format!("second step filter: {w}"), step(&[ge.clone(), event(e0, &format!("Some([{good}, {f}])"))], "Exact"), want);
    }
    for (w, o, want) in [("an order within the steps", "[(0, 1)]", "ok"), ("an order from a missing step", "[(2, 1)]", "BadRequest"), ("an order to a missing step", "[(0, 2)]", "BadRequest"), ("a second order to a missing step", "[(0, 1), (1, 2)]", "BadRequest")] {
        at(w.into(), step(&[ge.clone()], &format!("Any{{steps: {o}}}")), want);
    }
    let excl = |e: &str, f: &str, s: &str| format!("platform::funnel::Exclude{{event: {e}, filters: {f}, steps: {s}}}");
    let x0 = excl(e0, "None", "None");
    let mut at = |w: String, x: String, want: &'static str| {
        c.push((format!("exclusion: {w}"), req(path, &base, &[("exclude", format!("Some([{x}])"))]), want));
        c.push((format!("second exclusion: {w}"), req(path, &base, &[("exclude", format!("Some([{x0}, {x}])"))]), want));
    };
    for (w, e, want) in event_refs() {
        at(w.into(), excl(e, "None", "None"), want);
    }
    for (w, f, want) in filters() {
        at(w.into(), excl(e0, &format!("Some([{f}])"), "None"), want);
        at(format!("second filter: {w}"), excl(e0, &format!("Some([{good}, {f}])"), "None"), want);
    }
    for (w, x, y, want) in [("steps within range", 0, 1, "ok"), ("from a missing step", 2, 1, "BadRequest"), ("to a missing step", 0, 2, "BadRequest")] {
        at(w.into(), excl(e0, "None", &format!("Some(platform::funnel::ExcludeSteps::Between{{from: {x}, to: {y}}})")), want);
    }
    at("all steps".into(), excl(e0, "None", "Some(platform::funnel::ExcludeSteps::All)"), "ok");
    for (w, p, want) in prop_refs() {
        c.push((format!("breakdown: {w}"), req(path, &base, &[("breakdowns", format!("Some([{}])", breakdown(&p)))]), want));
        c.push((format!("second breakdown: {w}"), req(path, &base, &[("breakdowns", format!("Some([{}, {}])", breakdown(&ev("b")), breakdown(&p)))]), want));
        c.push((format!("holding constant: {w}"), req(path, &base, &[("holding_constants", format!("Some([{p}])"))]), want));
        c.push((format!("second holding constant: {w}"), req(path, &base, &[("holding_constants", format!("Some([{}, {p}])", ev("b")))]), want));
    }
    c.push(("the same breakdown twice".into(), req(path, &base, &[("breakdowns", format!("Some([{0}, {0}])", breakdown(&ev("a"))))]), "BadRequest"));
    for (w, x, y, want) in BOUNDS {
        c.push((format!("{w} conversion times"), req(path, &base, &[("filter", format!("Some(platform::funnel::Filter::TimeToConvert{{from: {x}, to: {y}}})"))]), want));
    }
    for f in ["DropOffOnAnyStep", "DropOffOnStep{step: n}"] {
        c.push((f.to_string(), req(path, &base, &[("filter", format!("Some(platform::funnel::Filter::{f})").replace("DropOffOnAnyStep", "DropOffOnAnyStep"))]), "ok"));
    }
    run(ck, "platform::funnel::validate_request", c);
}

fn properties(c: &mut Vec<Case>, base: &[(&str, String)], path: &str) {
    for (w, p, want) in prop_refs() {
        c.push((format!("shown property: {w}"), req(path, base, &[("properties", format!("Some([{p}])"))]), want));
        c.push((format!("second shown property: {w}"), req(path, base, &[("properties", format!("Some([{}, {p}])", ev("b")))]), want));
    }
}
fn events(ck: &mut Ck) {
    let path = "platform::event_records::EventRecordsSearchRequest";
    let good = &filters()[0].1;
    let event = |e: &str, f: &str| format!("platform::event_records::Event{{event: {e}, filters: {f}}}");
    let e0 = event_refs()[0].1;
    let ge = event(e0, "None");
    let base: Vec<(&str, String)> = vec![("time", "platform::QueryTime::From{from: x}".into()), ("events", "None".into()), ("filters", "None".into()), ("properties", "None".into())];
    let mut c = common(&base, path, false, Some("BadRequest"));
    c.push(("no events".into(), req(path, &base, &[("events", "Some([])".into())]), "BadRequest"));
    let mut at = |w: String, e: String, want: &'static str| {
        c.push((format!("{w} (first event)"), req(path, &base, &[("events", format!("Some([{e}, {ge}])"))]), want));
        c.push((format!("{w} (second event)"), req(path, &base, &[("events", format!("Some([{ge}, {e}])"))]), want));
    };
    for (w, e, want) in event_refs() {
        at(w.into(), event(e, "None"), want);
    }
    for (w, f, want) in filters() {
        at(format!("event filter: {w}"), event(e0, &format!("Some([{f}])")), want);
        at(format!("second event filter: {w}"), event(e0, &format!("Some([{good}, {f}])")), want);
    }
    properties(&mut c, &base, path);
    run(ck, "platform::event_records::validate_search_request", c);
}
fn groups(ck: &mut Ck) {
    let path = "platform::group_records::GroupRecordsSearchRequest";
    let base: Vec<(&str, String)> = vec![("time", "None".into()), ("group", "1".into()), ("filters", "None".into()), ("properties", "None".into()), ("sort", "None".into())];
    let mut c = common(&base, path, true, Some("BadRequest"));
    c.extend(group_ids(&base, path));
    properties(&mut c, &base, path);
    run(ck, "platform::group_records::validate_search_request", c);
}
fn values(ck: &mut Ck) {
    let path = "platform::properties::ListPropertyValuesRequest";
    let base: Vec<(&str, String)> = vec![("property", ev("a")), ("event", "None".into()), ("filter", "None".into())];
    let mut c: Vec<Case> = vec![("no fault".into(), req(path, &base, &[]), "ok")];
    for (w, p, want) in prop_refs() {
        c.push((w.into(), req(path, &base, &[("property", p)]), want));
    }
    for (w, e, want) in event_refs() {
        c.push((w.into(), req(path, &base, &[("event", format!("Some({e})"))]), want));
    }
    for (w, o, v, want) in [("a fitting filter", "Like", "Some([serde_json::Value::String(s)])", "ok"), ("a filter with an operation of another kind", "Gt", "Some([serde_json::Value::String(s)])", "BadRequest"), ("a filter with a value of another kind", "Eq", "Some([serde_json::Value::Number(s)])", "BadRequest")] {
        c.push((w.into(), req(path, &base, &[("filter", format!("Some(platform::properties::Filter{{operation: {}, value: {v}}})", opn(o)))]), want));
    }
    run(ck, "platform::properties::validate_request", c);
}

fn props(ck: &mut Ck) {
    let types = ["s", "a_i8", "a_i16", "a_i32", "a_i64", "a_dec", "a_bool", "a_ts", "a_list"];
    let ops = ["Eq", "Neq", "Gt", "Gte", "Lt", "Lte", "True", "False", "Exists", "Empty", "Like", "NotLike", "Regex", "NotRegex"];
    let vals = ["None", "Some([])", "Some([serde_json::Value::Null])", "Some([serde_json::Value::Bool(b)])", "Some([serde_json::Value::Number(n)])", "Some([serde_json::Value::String(s)])", "Some([serde_json::Value::Array(l)])", "Some([serde_json::Value::Object(o)])"];
    for t in types {
        for null in [false, true] {
            let name = if null { format!("opt_{t}") } else { t.to_string() };
            for o in ops {
                for v in vals {
                    let num = ["i8", "i16", "i32", "i64", "dec", "ts"].iter().any(|x| t.ends_with(&format!("_{x}")));
                    let fits = match o {
                        "Gt" | "Gte" | "Lt" | "Lte" => num,
                        "True" | "False" => t == "a_bool",
                        "Exists" | "Empty" => null,
                        "Like" | "NotLike" | "Regex" | "NotRegex" => t == "s",
                        _ => true,
                    };
                    let bare = matches!(o, "True" | "False" | "Exists" | "Empty");
                    let (val, refusal) = match v {
                        "None" => (null, "BadRequest"),
                        "Some([])" => (bare, "BadRequest"),
                        _ if v.contains("Null") => (false, if null { "Unimplemented" } else { "BadRequest" }),
                        _ if v.contains("Bool") => (t == "a_bool", "BadRequest"),
                        _ if v.contains("Number") => (num, "BadRequest"),
                        _ if v.contains("String") => (t == "s", "BadRequest"),
                        _ => (false, "Unimplemented"),
                    };
                    let want = if !fits { "BadRequest" } else if val { "ok" } else { refusal };
                    let p = ev(&name);
                    let Some((got, at)) = outcome(ck, "platform::validate_event_filter_property", &["md", "project_id", &p, &opn(o), v, "prefix"]) else { return };
                    ck.req("filter-value", got.len() == 1 && got.contains(want), format!("{name} {o} {}", short(v)), at, format!("a filter {o} on property {name} with value {} must end with {want}, ends with {got:?}", short(v)));
                }
            }
        }
    }
    ck.floor("filter-value", 1500);
}

// ---- normalisation of accepted requests

fn cprop(p: &str) -> String {
    format!("common::query::PropertyRef::Event({p:?})")
}
fn cfilter(p: &str, v: &str) -> String {
    format!("common::query::PropValueFilter::Property{{property: {}, operation: op, value: {v}}}", cprop(p))
}
/// what a normaliser returns, as text; a value list is reduced to the set of its values
fn normalised<'m>(ck: &mut Ck<'m>, path: &str, args: &[&str]) -> Option<(BTreeSet<String>, (&'m str, usize))> {
    let f = ck.func(path)?;
    let mut it = plan::interp(ck);
    it.ext = Some(Rc::new(model));
    let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
    let ex = it.run(f.id, Some(av), None);
    ck.absorb(&it);
    ck.paths += ex.len();
    let out = ex.iter().flat_map(|e| it.a.alts(e.v)).map(|v| plan::norm(&it.a, v)).collect();
    Some((out, (&f.file, f.line)))
}
fn same(ck: &mut Ck, path: &str, what: &str, args: &[&str], want: &str) {
    let Some((got, at)) = normalised(ck, path, args) else { return };
    let mut it = plan::interp(ck);
    let w = term(&mut it, &format!("Ok({want})"));
    let w = plan::norm(&it.a, w);
    let n = path.trim_start_matches("query::");
    ck.req("normalise", got.len() == 1 && got.contains(&w), format!("{n}:{what}"), at, format!("{n}: {what} must become {}, becomes {:?}", short(&w), got.iter().map(|g| short(g)).collect::<Vec<_>>()));
}
/// (what, given filters, normalised filters)
fn filter_lists() -> Vec<(&'static str, String, String)> {
    let dec = "datafusion_common::scalar::ScalarValue::Decimal128(Some(ms), p, s)";
    let ts = "datafusion_common::scalar::ScalarValue::TimestampMillisecond(Some(ms), None)";
    let f = |p: &str, v: &str| cfilter(p, &format!("Some([{v}])"));
    vec![
        ("no filters", "None".into(), "None".into()),
        ("an empty filter list", "Some([])".into(), "None".into()),
        ("filters on text and number", format!("Some([{}, {}])", f("a", "v"), f("a_i8", dec)), format!("Some([{}, {}])", f("a", "v"), f("a_i8", dec))),
        ("a filter without a value", format!("Some([{}])", cfilter("opt_s", "None")), format!("Some([{}])", cfilter("opt_s", "None"))),
        ("a filter on a timestamp", format!("Some([{}])", f("a_ts", dec)), format!("Some([{}])", f("a_ts", ts))),
        ("a filter on a timestamp in second place", format!("Some([{}, {}])", f("a", "v"), f("a_ts", dec)), format!("Some([{}, {}])", f("a", "v"), f("a_ts", ts))),
    ]
}
pub fn normalise(ck: &mut Ck) {
    let fs = filter_lists();
    for (w, g, n) in &fs {
        if let (Some(g), Some(n)) = (g.strip_prefix("Some([").and_then(|x| x.strip_suffix("])")), n.strip_prefix("Some([").and_then(|x| x.strip_suffix("])"))) {
            if !g.is_empty() && !g.contains(", common::query::PropValueFilter") {
                same(ck, "query::fix_filter", w, &["md", "project_id", g], n);
            }
        }
    }
    let ev = "common::query::EventRef::RegularName(n)";
    for (w, g, n) in &fs {
        // every position a filter list can have
        let p = "query::event_records::EventRecordsSearchRequest";
        let mk = |e: &str, f: &str, pr: &str| format!("{p}{{time: t, events: {e}, filters: {f}, properties: {pr}}}");
        let e = |f: &str| format!("query::event_records::Event{{event: {ev}, filters: {f}}}");
        let fx = "query::event_records::fix_search_request";
        same(ck, fx, w, &["md", "project_id", &mk("None", g, "Some([pr])")], &mk("None", n, "Some([pr])"));
        same(ck, fx, &format!("{w} of the second event"), &["md", "project_id", &mk(&format!("Some([{}, {}])", e("None"), e(g)), "None", "Some([])")], &mk(&format!("Some([{}, {}])", e("None"), e(n)), "None", "None"));

        let p = "query::group_records::GroupRecordsSearchRequest";
        let mk = |f: &str, pr: &str| format!("{p}{{time: t, group_id: g, filters: {f}, properties: {pr}, sort: so}}");
        let fx = "query::group_records::fix_search_request";
        same(ck, fx, w, &["md", "project_id", &mk(g, "Some([pr])")], &mk(n, "Some([pr])"));
        same(ck, fx, &format!("{w} and no properties"), &["md", "project_id", &mk(g, "Some([])")], &mk(n, "None"));

        let p = "common::event_segmentation::EventSegmentationRequest";
        let mk = |e: &str, f: &str| format!("{p}{{time: t, group_id: g, interval_unit: iu, chart_type: ct, analysis: an, compare: co, events: {e}, filters: {f}, breakdowns: br, segments: se}}");
        let e = |f: &str| format!("common::event_segmentation::Event{{event: {ev}, filters: {f}, breakdowns: eb, queries: q}}");
        let fx = "query::event_segmentation::fix_request";
        same(ck, fx, w, &["md", "project_id", &mk(&format!("[{}]", e("None")), g)], &mk(&format!("[{}]", e("None")), n));
        same(ck, fx, &format!("{w} of the second event"), &["md", "project_id", &mk(&format!("[{}, {}]", e("None"), e(g)), "None")], &mk(&format!("[{}, {}]", e("None"), e(n)), "None"));

        let p = "common::funnel::Funnel";
        let mk = |s: &str, h: &str, x: &str, b: &str, f: &str| format!("{p}{{time: t, group_id: g, steps: {s}, time_window: tw, chart_type: ct, count: co, filter: fi, touch: to, holding_constants: {h}, exclude: {x}, breakdowns: {b}, segments: se, filters: {f}}}");
        let st = |l: &[String]| format!("common::funnel::Step{{events: [{}], order: o}}", l.join(", "));
        let e = |f: &str| format!("common::funnel::Event{{event: {ev}, filters: {f}}}");
        let x = |f: &str| format!("common::funnel::Exclude{{event: {ev}, filters: {f}, steps: xs}}");
        let fx = "query::funnel::fix_request";
        let s0 = st(&[e("None")]);
        same(ck, fx, w, &["md", "project_id", &mk(&format!("[{s0}]"), "None", "None", "None", g)], &mk(&format!("[{s0}]"), "None", "None", "None", n));
        same(ck, fx, &format!("{w} of the second step's second event"), &["md", "project_id", &mk(&format!("[{s0}, {}]", st(&[e("None"), e(g)])), "Some([])", "Some([])", "Some([])", "None")], &mk(&format!("[{s0}, {}]", st(&[e("None"), e(n)])), "None", "None", "None", "None"));
        same(ck, fx, &format!("{w} of the second exclusion"), &["md", "project_id", &mk(&format!("[{s0}]"), "Some([h])", &format!("Some([{}, {}])", x("None"), x(g)), "Some([b])", "None")], &mk(&format!("[{s0}]"), "Some([h])", &format!("Some([{}, {}])", x("None"), x(n)), "Some([b])", "None"));
    }
}

// ---- the operations: refuse, then normalise, then plan

/// the conversions a value went through, without their paths
fn converted(s: &str) -> String {
    let s = short(s);
    let mut out = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find('(') {
        let (h, t) = rest.split_at(i);
        let k = h.rfind(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':' || c == '.')).map(|k| k + 1).unwrap_or(0);
        let name = h[k..].rsplit([':', '.']).next().unwrap_or("");
        out.push_str(&h[..k]);
        out.push_str(if name == "into" || name == "from" { "conv" } else { name });
        out.push('(');
        rest = &t[1..];
    }
    (out + rest).replace("{0: ", "(").replace('}', ")")
}
/// operation, its validator, its normaliser, the provider's method, does it answer in two formats?
const OPS: &[(&str, &str, &str, &str, bool)] = &[
    ("platform::event_segmentation::EventSegmentation::event_segmentation", "platform::event_segmentation::validate_request", "query::event_segmentation::fix_request", "query::event_segmentation::EventSegmentationProvider::event_segmentation", true),
    ("platform::funnel::Funnel::funnel", "platform::funnel::validate_request", "query::funnel::fix_request", "query::funnel::FunnelProvider::funnel", false),
    ("platform::event_records::EventRecords::search", "platform::event_records::validate_search_request", "query::event_records::fix_search_request", "query::event_records::EventRecordsProvider::search", true),
    ("platform::group_records::GroupRecords::search", "platform::group_records::validate_search_request", "query::group_records::fix_search_request", "query::group_records::GroupRecordsProvider::search", true),
    ("platform::properties::Properties::values", "platform::properties::validate_request", "", "query::properties::PropertiesProvider::values", false),
];
pub fn operations(ck: &mut Ck) {
    for (op, val, fix, prov, two) in OPS {
        let Some(f) = ck.func(op) else { continue };
        let at = (f.file.as_str(), f.line);
        let n = op.trim_start_matches("platform::");
        let name = |s: &str| s.rsplit("::").next().unwrap().to_string();
        for fmt in ["None", "Some(platform::QueryResponseFormat::Json)", "Some(platform::QueryResponseFormat::JsonCompact)"] {
            for ts in ["None", "Some(sec)"] {
                if fix.is_empty() && (fmt, ts) != ("None", "None") {
                    continue;
                }
                let mut it = plan::interp(ck);
                it.ext = None;
                let keep: Vec<String> = vec![val.to_string(), fix.to_string(), prov.to_string()];
                it.opaque = Box::new(move |g| keep.contains(&g.path) || matches!(g.name.as_str(), "into" | "from" | "columns_to_json" | "columns_to_json_compact" | "check_project_permission") || g.krate == "metadata");
                let q = format!("platform::QueryParams{{format: {fmt}, timestamp: {ts}}}");
                let args: Vec<Vid> = if fix.is_empty() { vec!["ctx", "project_id", "req"] } else { vec!["ctx", "project_id", "req", &q] }.iter().map(|s| term(&mut it, s)).collect();
                let ex = it.run(f.id, Some(args), None);
                ck.absorb(&it);
                ck.paths += ex.len();
                let case = format!("{n}:{}:{}", short(fmt), short(ts));
                // planned only after the request was found good
                let calls: Vec<usize> = it.events.iter().enumerate().filter(|e| e.1.f == *prov || it.m.fns.get(e.1.fid.unwrap_or(usize::MAX)).map_or(false, |g| g.path == *prov)).map(|e| e.0).collect();
                ck.req("order", !calls.is_empty(), format!("{case}:planned"), at, format!("{n} never reaches {prov}"));
                for c in calls {
                    let e = it.events[c].clone();
                    let good = it.events.iter().any(|x| x.f == *val && x.args.len() == 3 && plan::norm(&it.a, x.args[1]) == "project_id" && plan::norm(&it.a, x.args[2]) == "req" && it.has_ok(&e.must, x.val));
                    ck.req("order", good, format!("{case}:validated"), (at.0, e.line), format!("{n}: the query is planned although {val} of this request and project has not succeeded"));
                    // the request of the caller, normalised for the project
                    let a: Vec<String> = e.args.iter().map(|x| plan::norm(&it.a, *x)).collect();
                    let own = |s: &str| s == "req" || s.ends_with("into(req)") || s.ends_with("from(req)");
                    let last = a.last().cloned().unwrap_or_default();
                    let ok = if fix.is_empty() {
                        own(&last)
                    } else {
                        last.strip_prefix(&format!("{}(self.md, project_id, ", name(fix))).and_then(|x| x.strip_suffix(')')).map_or(false, own)
                    };
                    ck.req("order", ok, format!("{case}:normalised"), (at.0, e.line), format!("{n}: the planned request is {last}, not the caller's request normalised for the project"));
                    let c = a.iter().rev().nth(1).cloned().unwrap_or_default();
                    if fix.is_empty() {
                        ck.req("order", c == "Context(project_id)" || c == "Default::default(){..project_id: project_id}" || c.starts_with("Context(cur_time: now(), ") && c.ends_with("project_id: project_id)"), format!("{case}:context"), (at.0, e.line), format!("{n}: the query runs in context {c}"));
                    } else {
                        let now = if ts == "None" { "now()" } else { "from_timestamp(sec, 0)" };
                        let form = if fmt.contains("Compact") { "Compact" } else { "Regular" };
                        ck.req("order", c == format!("Context(cur_time: {now}, format: {form}, project_id: project_id)"), format!("{case}:context"), (at.0, e.line), format!("{n}: with format {} and timestamp {ts} the query runs in context {c}", short(fmt)));
                    }
                }
                // the answer is the provider's, in the format asked for
                if *two {
                    let conv = if fmt.contains("Compact") { "columns_to_json_compact" } else { "columns_to_json" };
                    for e in &ex {
                        for v in it.a.alts(e.v) {
                            let s = plan::norm(&it.a, v);
                            if s.starts_with("Err(") {
                                continue;
                            }
                            let s = s.trim_start_matches("Ok(").to_string();
                            // no columns instead of columns without rows
                            let empty = s.starts_with(&format!("{conv}([])"))
                                && it.facts(&e.s.must).any(|f| match f {
                                    Fact::Cond(c, true) => {
                                        let c = plan::norm(&it.a, *c);
                                        c.starts_with("is_empty(") && c.contains(&format!("{}(", name(prov))) && (c.ends_with(".columns[0].data)") || c.starts_with("is_empty(elem(") && c.ends_with(".columns).data)"))
                                    }
                                    _ => false,
                                });
                            let ok = empty || s.starts_with(&format!("{conv}(")) && s.contains(&format!("{}(", name(prov)));
                            ck.req("answer", ok, format!("{case}:answer"), (at.0, e.line), format!("{n}: with format {} the answer is {}", short(fmt), short(&s)));
                        }
                    }
                }
                if ts != "None" {
                    let bad = ex.iter().any(|e| it.a.alts(e.v).iter().any(|v| plan::norm(&it.a, *v).starts_with("Err(BadRequest(")));
                    let panics = it.events.iter().any(|e| e.f.ends_with("unwrap") && e.args.iter().any(|x| plan::norm(&it.a, *x).contains("from_timestamp(")));
                    ck.req("order", bad && !panics, format!("{case}:timestamp"), at, format!("{n}: a timestamp out of range must be refused"));
                }
            }
        }
    }
    ck.floor("order", 50);
    // each column of the answer carries its own parts, in order
    for f in ["columns_to_json", "columns_to_json_compact"] {
        let path = format!("platform::QueryResponse::{f}");
        let Some(d) = ck.func(&path) else { continue };
        let mut it = plan::interp(ck);
        it.ext = None;
        it.opaque = Box::new(|g| matches!(g.name.as_str(), "into" | "from" | "array_ref_to_json_values"));
        let c = |n: &str| format!("query::Column{{property: Some({n}p), name: {n}n, typ: {n}t, is_nullable: {n}i, data_type: {n}y, hidden: {n}h, data: {n}d}}");
        let l = term(&mut it, &format!("[{}, {}]", c("a"), c("b")));
        let ex = it.run(d.id, Some(vec![l]), None);
        ck.absorb(&it);
        let got: BTreeSet<String> = ex.iter().flat_map(|e| it.a.alts(e.v)).map(|v| converted(&it.a.show_d(v, 20))).collect();
        let w = if f == "columns_to_json" {
            let c = |n: &str| format!("platform::Column{{property: Some(conv({n}p)), typ: conv({n}t), name: {n}n, is_nullable: {n}i, data_type: conv({n}y), data: array_ref_to_json_values({n}d), compare_values: None}}");
            format!("Ok(platform::QueryResponse::JSON(platform::JSONQueryResponse{{columns: [{}, {}]}}))", c("a"), c("b"))
        } else {
            "Ok(platform::QueryResponse::JSONCompact(platform::JSONCompactQueryResponse([array_ref_to_json_values(ad), array_ref_to_json_values(bd)])))".to_string()
        };
        let w = term(&mut it, &w);
        let w = converted(&it.a.show_d(w, 20));
        ck.req("answer", got.len() == 1 && got.contains(&w), f, (&d.file, d.line), format!("{f} of two columns must be {w}, is {got:?}"));
    }
}

// ---- values between JSON and the query

pub fn conversions(ck: &mut Ck) {
    let sv = "datafusion_common::scalar::ScalarValue";
    let js = "serde_json::Value";
    let mut one = |path: &str, arg: String, null: bool, want: &str| {
        let Some(f) = ck.func(path) else { return };
        let mut it = plan::interp(ck);
        it.ext = Some(Rc::new(move |a: &mut Arena, f: &str, args: &[Vid]| {
            if f.ends_with("is_null") && args.len() == 1 {
                return Some(a.lit(if null { "true" } else { "false" }));
            }
            None
        }));
        let v = term(&mut it, &arg);
        let ex = it.run(f.id, Some(vec![v]), None);
        ck.absorb(&it);
        let got: BTreeSet<String> = ex.iter().flat_map(|e| it.a.alts(e.v)).map(|v| plan::norm(&it.a, v)).collect();
        let at = (f.file.as_str(), f.line);
        let name = path.rsplit("::").next().unwrap();
        ck.req("value", got.iter().map(|g| g.as_str()).eq(want.split(" | ").filter(|w| !w.is_empty())), format!("{name}:{}", short(&arg)), at, format!("{name}: {} must become {want}, becomes {got:?}", short(&arg)));
    };
    for (v, w) in [("Bool(b)", "Boolean(b)"), ("Number(n)", "Decimal128(mantissa(try_from(as_f64(n))), 28, scale(try_from(as_f64(n))))"), ("String(s)", "Utf8(s)")] {
        one("platform::json_value_to_scalar", format!("{js}::{v}"), false, w);
    }
    for (v, w) in [("Boolean", "Bool(x)"), ("Utf8", "String(x)"), ("Int8", "Number(from(x))"), ("Int16", "Number(from(x))"), ("Int32", "Number(from(x))"), ("Int64", "Number(from(x))")] {
        for f in ["scalar_to_json", "scalar_to_json_value"] {
            if f == "scalar_to_json" || !v.starts_with("Int") {
                one(&format!("platform::{f}"), format!("{sv}::{v}(Some(x))"), false, w);
                one(&format!("platform::{f}"), format!("{sv}::{v}(None)"), true, "Null");
            }
        }
    }
    one("platform::scalar_to_json", format!("{sv}::TimestampMillisecond(Some(x), z)"), false, "Number(from(x))");
    one("platform::scalar_to_json", format!("{sv}::TimestampMillisecond(None, z)"), true, "Null");
    for (f, w) in [("scalar_to_json", "Number(from_f64(to_f64(round_dp(from_i128_with_scale(x, 16), 3))))"), ("scalar_to_json_value", "Number(from_f64(to_f64(Decimal(x, s))))")] {
        one(&format!("platform::{f}"), format!("{sv}::Decimal128(Some(x), p, s)"), false, w);
        one(&format!("platform::{f}"), format!("{sv}::Decimal128(None, p, s)"), true, "Null");
    }
    // columns
    for t in ["Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Boolean", "Utf8", "Timestamp(arrow_schema::TimeUnit::Millisecond, z)", "Decimal128(p, s)"] {
        let Some(f) = ck.func("platform::array_ref_to_json_values") else { return };
        let mut it = plan::interp(ck);
        let d = term(&mut it, &format!("arrow_schema::DataType::{t}"));
        it.ext = Some(Rc::new(move |_: &mut Arena, f: &str, args: &[Vid]| if f.ends_with("data_type") && args.len() == 1 { Some(d) } else { None }));
        let v = it.param("arr");
        let ex = it.run(f.id, Some(vec![v]), None);
        ck.absorb(&it);
        let els: Vec<Vid> = ex.iter().map(|e| it.a.elem(e.v)).collect();
        let got: BTreeSet<String> = els.into_iter().flat_map(|e| it.a.alts(e)).map(|v| short(&it.a.show_d(v, 14))).collect();
        let ty = t.split('(').next().unwrap();
        let array = match ty {
            "Utf8" => "StringArray".to_string(),
            "Timestamp" => "TimestampMillisecondArray".to_string(),
            _ => format!("{ty}Array"),
        };
        let el = format!("elem(downcast_ref(arr, {array}))");
        let zero = "Value::Number(Number::from_f64(0.0))";
        let val = match ty {
            "Boolean" | "Utf8" | "Timestamp" => vec![format!("json!({el})")],
            "Decimal128" => vec![zero.into(), format!("Value::Number(Number::from_f64(to_f64(round_dp(Decimal::from_i128_with_scale({el}, 16), into(3)))))")],
            "Float32" => vec![zero.into(), format!("json!(map({el} => (trunc(((elem({el}) as f64) * 1000000.0)) / 1000000.0)))")],
            _ => vec![zero.into(), format!("json!({el})")],
        };
        let want: BTreeSet<String> = val.into_iter().collect();
        let clean = |s: &str| s.replace(" .", " ").replace("(.", "(").trim_start_matches('.').to_string();
        let got: BTreeSet<String> = got.iter().map(|g| clean(g)).collect();
        ck.req("value", got == want, format!("array_ref_to_json_values:{ty}"), (&f.file, f.line), format!("array_ref_to_json_values: an element of a column of {ty} must become {want:?}, becomes {got:?}"));
    }
}
