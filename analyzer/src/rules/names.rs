//! C06: names of columns, labels and well-known identifiers.
use std::collections::{BTreeMap, BTreeSet};

use super::eval::*;
use super::tab::*;
use crate::interp::*;
use crate::report::*;
use crate::val::*;

pub fn check(ck: &mut Ck) {
    ck.rule("case-by-case abstract evaluation of every naming function, result compared with the documented name");
    ck.rule("constants that name columns, properties, events, metrics or paths: pairwise distinct within their family, and of the released value");
    let dt = [("String", "str"), ("Int8", "i8"), ("Int16", "i16"), ("Int32", "i32"), ("Int64", "i64"), ("Decimal", "d"), ("Boolean", "b"), ("Timestamp", "ts")];
    let d = "common::types::DType";
    for v in variants(ck.m, d) {
        if v != "List" && !dt.iter().any(|x| x.0 == v) {
            ck.fail(format!("DType::{v}"), "", 0, "data type without a recorded short name");
        }
    }
    for (v, n) in dt {
        case(ck, "name", "common::types::DType::short_name", Some(&format!("{d}::{v}")), &[], &[&format!("{n:?}")]);
        case(ck, "name", "common::types::DType::short_name", Some(&format!("{d}::List({d}::{v})")), &[], &[&format!("\"l_{n}\"")]);
    }
    let q = "common::query";
    let es = "common::event_segmentation";
    case(ck, "name", "common::query::PropertyRef::name", Some("common::query::PropertyRef::Group(n, g)"), &[], &["n"]);
    case(ck, "name", "common::query::PropertyRef::name", Some("common::query::PropertyRef::Event(n)"), &[], &["n"]);
    for v in ["RegularName", "Regular", "Custom"] {
        case(ck, "name", "common::query::EventRef::name", Some(&format!("{q}::EventRef::{v}(x)")), &[], &["x"]);
    }
    for v in variants(ck.m, "common::query::PropValueOperation") {
        let w = ["True", "False", "Exists", "Empty"].contains(&v.as_str());
        case(ck, "predicate", "common::query::PropValueOperation::is_without_value", Some(&format!("{q}::PropValueOperation::{v}")), &[], &[if w { "true" } else { "false" }]);
    }
    for v in variants(ck.m, "common::query::QueryAggregate") {
        let w = format!("AggregateFunction::{v}");
        let w: Vec<&str> = if ["Min", "Max", "Sum", "Avg"].contains(&v.as_str()) { vec![&w] } else { vec![] };
        case(ck, "name", "common::query::QueryAggregate::aggregate_function", Some(&format!("{q}::QueryAggregate::{v}")), &[], &w);
    }
    let aggs = ["Count", "Sum", "Min", "Max", "Avg"];
    for (v, init, name) in [
        ("CountEvents", "count", "Count"),
        ("CountUniqueGroups", "partitioned_count", "Count unique"),
        ("DailyActiveGroups", "partitioned_count", "Daily active"),
        ("WeeklyActiveGroups", "", "Weekly active"),
        ("MonthlyActiveGroups", "", "Monthly active"),
    ] {
        let s = format!("{es}::Query::{v}");
        let i = format!("{init:?}");
        let w: Vec<&str> = if init.is_empty() { vec![] } else { vec![&i] };
        case(ck, "name", "common::event_segmentation::Query::initial_name", Some(&s), &[], &w);
        case(ck, "name", "common::event_segmentation::Query::name", Some(&s), &[], &[&format!("{name:?}")]);
    }
    for a in aggs {
        let s = format!("{es}::Query::CountPerGroup {{ aggregate: {q}::AggregateFunction::{a} }}");
        case(ck, "name", "common::event_segmentation::Query::name", Some(&s), &[], &[&format!("{a:?}")]);
        case(ck, "name", "common::event_segmentation::Query::initial_name", Some(&s), &[], &["\"partitioned_count\""]);
    }
    let pg = "common::event_segmentation::Query::AggregatePropertyPerGroup { property: common::query::PropertyRef::Event(n), aggregate_per_group: per, aggregate: agg }";
    let ap = "common::event_segmentation::Query::AggregateProperty { property: common::query::PropertyRef::Group(n, g), aggregate: agg }";
    case(ck, "name", "common::event_segmentation::Query::name", Some(pg), &[], &["fmt(\"{}({}({}))\", agg, per, n)"]);
    case(ck, "name", "common::event_segmentation::Query::name", Some(ap), &[], &["fmt(\"{}({})\", agg, n)"]);
    case(ck, "name", "common::event_segmentation::Query::initial_name", Some(pg), &[], &["\"partitioned_agg\""]);
    case(ck, "name", "common::event_segmentation::Query::initial_name", Some(ap), &[], &["\"agg\""]);
    case(ck, "name", "common::event_segmentation::Query::name", Some("common::event_segmentation::Query::QueryFormula { formula: f }"), &[], &["f"]);
    case(ck, "copy", "common::event_segmentation::NamedQuery::new", None, &["agg", "name"], &["NamedQuery{agg: agg, name: name}", ]);
    case(ck, "copy", "common::event_segmentation::Event::new", None, &["event", "filters", "breakdowns", "queries"], &["Event{breakdowns: breakdowns, event: event, filters: filters, queries: queries}"]);
    case(ck, "name", "common::group_col", None, &["id"], &["fmt(\"group_{}\", id)"]);
    // storage column of a property
    let p = "metadata::properties::Property";
    for (v, n) in dt {
        let b = format!("data_type: {d}::{v}, order: o, name: n, ..x");
        case(ck, "column", "metadata::properties::Property::column_name", Some(&format!("{p} {{ is_system: false, typ: metadata::properties::Type::Event, {b} }}")), &[], &[&format!("fmt(\"e_{n}_{{}}\", o)")]);
        case(ck, "column", "metadata::properties::Property::column_name", Some(&format!("{p} {{ is_system: false, typ: metadata::properties::Type::Group(gid), {b} }}")), &[], &[&format!("fmt(\"g_{{}}_{n}_{{}}\", gid, o)")]);
    }
    case(ck, "column", "metadata::properties::Type::path", Some("metadata::properties::Type::Event"), &[], &["\"event_properties\""]);
    case(ck, "column", "metadata::properties::Type::path", Some("metadata::properties::Type::Group(g)"), &[], &["fmt(\"group_{}_properties\", g)"]);
    case(ck, "name", "metadata::properties::Property::name", Some(&format!("{p} {{ display_name: None, name: n, ..x }}")), &[], &["n"]);
    case(ck, "name", "metadata::properties::Property::name", Some(&format!("{p} {{ display_name: Some(d), name: n, ..x }}")), &[], &["d"]);
    case(ck, "name", "metadata::properties::Property::reference", Some(&format!("{p} {{ typ: metadata::properties::Type::Event, name: n, display_name: d, ..x }}")), &[], &["PropertyRef::Event{0: n}"]);
    case(ck, "name", "metadata::properties::Property::reference", Some(&format!("{p} {{ typ: metadata::properties::Type::Group(g), name: n, display_name: d, ..x }}")), &[], &["PropertyRef::Group{0: n, 1: g}"]);
    for e in ["AggregateFunction", "PartitionedAggregateFunction"] {
        let Some(f) = ck.impl_fn("common", e, "Display", "", "fmt") else { continue };
        for v in variants(ck.m, &format!("{q}::{e}")) {
            let mut it = fresh(ck);
            it.concrete = true;
            let me = term(&mut it, &format!("{q}::{e}::{v}"));
            let r = results(ck, &mut it, f, Some(me), None, false);
            let g: Vec<String> = r.iter().filter_map(|x| written(&it.a, *x)).collect();
            ck.req("name", g.len() == r.len() && g.iter().all(|t| *t == v.to_uppercase()) && !g.is_empty(), format!("{e}::{v}.fmt"), (&f.file, f.line), format!("{e}::{v} must be shown as {}, is {:?}", v.to_uppercase(), if g.len() == r.len() { g.clone() } else { r.iter().map(|x| it.a.show(*x)).collect() }));
        }
    }
    constants(ck);
    ck.floor("name", 60);
    ck.floor("column", 18);
}

/// the text a Display implementation writes, when it is constant
fn written(a: &Arena, v: Vid) -> Option<String> {
    match a.get(v).clone() {
        Val::Call { f, args } if f == "write!" => fill(a, args.get(1).map(|x| a.get(*x).clone())?, &args[2..]),
        Val::Call { f, args } if [".write_str", ".pad", "Display::fmt", ".fmt"].iter().any(|n| f.ends_with(n)) => args.iter().filter_map(|x| text(a, *x)).next(),
        _ => None,
    }
}
fn fill(a: &Arena, spec: Val, args: &[Vid]) -> Option<String> {
    let Val::Lit(s) = spec else { return None };
    fill_s(a, s.trim_matches('"'), args)
}
fn fill_s(a: &Arena, s: &str, args: &[Vid]) -> Option<String> {
    let mut out = String::new();
    let mut it = args.iter();
    let mut r = s;
    while let Some(i) = r.find('{') {
        let j = i + r[i..].find('}')?;
        out.push_str(&r[..i]);
        out.push_str(&text(a, *it.next()?)?);
        r = &r[j + 1..];
    }
    out.push_str(r);
    Some(out)
}
/// the constant text of a value: literals, names of unit variants, formatting and case changes of those
fn text(a: &Arena, v: Vid) -> Option<String> {
    match a.get(v).clone() {
        Val::Lit(s) if s.starts_with('"') => Some(s.trim_matches('"').to_string()),
        Val::Ctor { p, f } if f.is_empty() => p.rsplit("::").next().map(|s| s.to_string()),
        Val::Fmt(s, args) => fill_s(a, &s, &args),
        Val::Call { f, args } if f == ".to_uppercase" || f == ".to_ascii_uppercase" => text(a, *args.first()?).map(|s| s.to_uppercase()),
        Val::Call { f, args } if f == ".to_lowercase" || f == ".to_ascii_lowercase" => text(a, *args.first()?).map(|s| s.to_lowercase()),
        Val::Call { f, args } if f == ".to_string" && args.len() == 1 => text(a, args[0]),
        _ => None,
    }
}

/// families of string constants whose values must not collide
fn constants(ck: &mut Ck) {
    let fam: &[(&str, &str)] = &[
        ("EVENT_PROPERTY_", "event property"),
        ("RESERVED_COLUMN_", "result column"),
        ("METRIC_", "metric"),
        ("EVENT_", "system event"),
        ("GROUP_COLUMN_", "group column"),
        ("COLUMN_", "event column"),
        ("DATA_PATH_", "data directory"),
        ("TABLE_", "table"),
    ];
    let mut by: BTreeMap<String, BTreeMap<String, BTreeSet<String>>> = BTreeMap::new();
    let names: Vec<String> = ck.m.consts.keys().filter(|k| k.starts_with("common::")).cloned().collect();
    for n in names {
        let l = n.rsplit("::").next().unwrap().to_string();
        let Some((f, _)) = fam.iter().find(|(f, _)| l.starts_with(f)) else { continue };
        let mut it = fresh(ck);
        let v = it.const_val(&n).map(|v| it.a.show(v)).unwrap_or("?".into());
        if !v.starts_with('"') {
            continue;
        }
        by.entry(f.to_string()).or_default().entry(v).or_default().insert(l);
    }
    for (f, d) in fam {
        for (v, ns) in by.get(*f).cloned().unwrap_or_default() {
            ck.req("constant", ns.len() == 1, format!("{f}{v}"), ("src/common/src/types.rs", 1), format!("{d} constants {ns:?} have the same value {v}"));
        }
    }
    for (n, w) in super::consts::RELEASED {
        // a constant that is gone is a matter for the compiler
        if !ck.m.consts.contains_key(*n) {
            continue;
        }
        let mut it = fresh(ck);
        let v = it.const_val(n).map(|v| it.a.show(v)).unwrap_or("?".into());
        let file = if n.starts_with("common::types") { "src/common/src/types.rs" } else { "src/common/src/lib.rs" };
        ck.req("released", v == *w, n.to_string(), (file, 1), format!("{n} is {w} in stored data and to clients, is {v} now"));
    }
    ck.floor("constant", 60);
    ck.floor("released", 60);
}
