//! C02: API <-> domain conversions; C03: type, scalar and operator conversions.
use std::collections::BTreeSet;

use super::conv::*;
use super::eval::*;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

const P: &str = "platform::";
const PLATFORM: Table = Table {
    rows: &[
        ("metadata::backups::Backup->platform::backups::Backup", "failed_error", "status"),
        ("metadata::backups::Backup->platform::backups::Backup", "in_progress_progress", "status"),
        ("platform::event_segmentation::Query->common::event_segmentation::Query", "Formula", "=QueryFormula"),
        ("common::event_segmentation::Query->platform::event_segmentation::Query", "QueryFormula", "=Formula"),
        ("platform::event_segmentation::Event->common::event_segmentation::Event", "queries", "event,queries"),
        ("platform::event_segmentation::EventSegmentationRequest->common::event_segmentation::EventSegmentationRequest", "group_id", "group"),
        ("common::event_segmentation::EventSegmentationRequest->platform::event_segmentation::EventSegmentationRequest", "group", "group_id"),
        ("platform::funnel::StepOrder->common::funnel::StepOrder", "Any.0", "steps"),
        ("platform::funnel::StepOrder->common::funnel::StepOrder", "Any.steps", "?"),
        ("common::funnel::StepOrder->platform::funnel::StepOrder", "Any.steps", "0"),
        ("common::funnel::StepOrder->platform::funnel::StepOrder", "Any.0", "?"),
        ("platform::funnel::ExcludeSteps->common::funnel::ExcludeSteps", "Between.0", "from"),
        ("platform::funnel::ExcludeSteps->common::funnel::ExcludeSteps", "Between.1", "to"),
        ("platform::funnel::ExcludeSteps->common::funnel::ExcludeSteps", "Between.from", "?"),
        ("platform::funnel::ExcludeSteps->common::funnel::ExcludeSteps", "Between.to", "?"),
        ("common::funnel::ExcludeSteps->platform::funnel::ExcludeSteps", "Between.from", "0"),
        ("common::funnel::ExcludeSteps->platform::funnel::ExcludeSteps", "Between.to", "1"),
        ("common::funnel::ExcludeSteps->platform::funnel::ExcludeSteps", "Between.0", "?"),
        ("common::funnel::ExcludeSteps->platform::funnel::ExcludeSteps", "Between.1", "?"),
        ("platform::funnel::Filter->common::funnel::Filter", "DropOffOnStep.0", "step"),
        ("platform::funnel::Filter->common::funnel::Filter", "DropOffOnStep.step", "?"),
        ("platform::funnel::Filter->common::funnel::Filter", "TimeToConvert.0", "from"),
        ("platform::funnel::Filter->common::funnel::Filter", "TimeToConvert.1", "to"),
        ("platform::funnel::Filter->common::funnel::Filter", "TimeToConvert.from", "?"),
        ("platform::funnel::Filter->common::funnel::Filter", "TimeToConvert.to", "?"),
        ("common::funnel::Filter->platform::funnel::Filter", "DropOffOnStep.step", "0"),
        ("common::funnel::Filter->platform::funnel::Filter", "DropOffOnStep.0", "?"),
        ("common::funnel::Filter->platform::funnel::Filter", "TimeToConvert.from", "0"),
        ("common::funnel::Filter->platform::funnel::Filter", "TimeToConvert.to", "1"),
        ("common::funnel::Filter->platform::funnel::Filter", "TimeToConvert.0", "?"),
        ("common::funnel::Filter->platform::funnel::Filter", "TimeToConvert.1", "?"),
        ("platform::funnel::FunnelRequest->common::funnel::Funnel", "group_id", "group"),
        ("common::funnel::Funnel->platform::funnel::FunnelRequest", "group", "group_id"),
        ("platform::group_records::GroupRecordsSearchRequest->query::group_records::GroupRecordsSearchRequest", "group_id", "group"),
        ("metadata::projects::Project->platform::projects::Project", "sdk_token", "token"),
        ("platform::properties::Property->metadata::properties::Property", "typ", "group_id"),
        ("metadata::properties::Property->platform::properties::Property", "group_id", "typ"),
        ("platform::EventRef->common::query::EventRef", "Regular", "=RegularName"),
        ("platform::EventRef->common::query::EventRef", "Regular.0", "event_name"),
        ("platform::EventRef->common::query::EventRef", "Regular.event_name", "?"),
        ("common::query::EventRef->platform::EventRef", "RegularName.event_name", "0"),
        ("common::query::EventRef->platform::EventRef", "RegularName.0", "?"),
        ("platform::EventRef->common::query::EventRef", "Custom.0", "event_id"),
        ("platform::EventRef->common::query::EventRef", "Custom.event_id", "?"),
        ("common::query::EventRef->platform::EventRef", "RegularName", "=Regular"),
        ("common::query::EventRef->platform::EventRef", "Regular", "!"),
        ("common::query::EventRef->platform::EventRef", "Custom.event_id", "0"),
        ("common::query::EventRef->platform::EventRef", "Custom.0", "?"),
        ("platform::PropertyRef->common::query::PropertyRef", "Group.0", "property_name"),
        ("platform::PropertyRef->common::query::PropertyRef", "Group.1", "group"),
        ("platform::PropertyRef->common::query::PropertyRef", "Group.property_name", "?"),
        ("platform::PropertyRef->common::query::PropertyRef", "Group.group", "?"),
        ("platform::PropertyRef->common::query::PropertyRef", "Event.0", "property_name"),
        ("platform::PropertyRef->common::query::PropertyRef", "Event.property_name", "?"),
        ("platform::PropertyRef->common::query::PropertyRef", "Custom.0", "property_id"),
        ("platform::PropertyRef->common::query::PropertyRef", "Custom.property_id", "?"),
        ("common::query::PropertyRef->platform::PropertyRef", "Group.group", "1"),
        ("common::query::PropertyRef->platform::PropertyRef", "Group.property_name", "0"),
        ("common::query::PropertyRef->platform::PropertyRef", "Group.0", "?"),
        ("common::query::PropertyRef->platform::PropertyRef", "Group.1", "?"),
        ("common::query::PropertyRef->platform::PropertyRef", "Event.property_name", "0"),
        ("common::query::PropertyRef->platform::PropertyRef", "Event.0", "?"),
        ("common::query::PropertyRef->platform::PropertyRef", "Custom.property_id", "0"),
        ("common::query::PropertyRef->platform::PropertyRef", "Custom.0", "?"),
        ("platform::QueryTime->common::query::QueryTime", "From.0", "from"),
        ("platform::QueryTime->common::query::QueryTime", "From.from", "?"),
        ("common::query::QueryTime->platform::QueryTime", "From.from", "0"),
        ("common::query::QueryTime->platform::QueryTime", "From.0", "?"),
        ("platform::Breakdown->common::query::Breakdown", "Property.0", "property"),
        ("platform::Breakdown->common::query::Breakdown", "Property.property", "?"),
        ("common::query::Breakdown->platform::Breakdown", "Property.property", "0"),
        ("common::query::Breakdown->platform::Breakdown", "Property.0", "?"),
        ("platform::SegmentTime->common::query::SegmentTime", "Last.n", "last"),
        ("platform::SegmentTime->common::query::SegmentTime", "Last.last", "?"),
        ("platform::SegmentTime->common::query::SegmentTime", "WindowEach", "=Each"),
        ("common::query::SegmentTime->platform::SegmentTime", "Last.last", "n"),
        ("common::query::SegmentTime->platform::SegmentTime", "Last.n", "?"),
        ("common::query::SegmentTime->platform::SegmentTime", "Each", "=WindowEach"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "ApproxDistinct", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "ArrayAgg", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "Variance", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "VariancePop", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "Stddev", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "StddevPop", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "Covariance", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "CovariancePop", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "Correlation", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "ApproxPercentileCont", "!"),
        ("platform::AggregateFunction->common::query::AggregateFunction", "ApproxMedian", "!"),
        ("platform::QueryAggregate->common::query::QueryAggregate", "Percentile25", "=Percentile25th"),
        ("platform::QueryAggregate->common::query::QueryAggregate", "Percentile75", "=Percentile75th"),
        ("platform::QueryAggregate->common::query::QueryAggregate", "Percentile90", "=Percentile90th"),
        ("platform::QueryAggregate->common::query::QueryAggregate", "Percentile99", "=Percentile99th"),
        ("common::query::QueryAggregate->platform::QueryAggregate", "Percentile25th", "=Percentile25"),
        ("common::query::QueryAggregate->platform::QueryAggregate", "Percentile75th", "=Percentile75"),
        ("common::query::QueryAggregate->platform::QueryAggregate", "Percentile90th", "=Percentile90"),
        ("common::query::QueryAggregate->platform::QueryAggregate", "Percentile99th", "=Percentile99"),
    ],
};

pub fn check_api(ck: &mut Ck) {
    ck.rule("every From/Into/TryFrom/TryInto impl of the platform crate between sibling types: each enum variant becomes its namesake, each payload and struct field comes from exactly its namesake (recorded renames excepted), no arithmetic, no two variants onto one");
    let _ = P;
    sweep(ck, &["platform"], &|f| f.path.contains("::error::") || conv_target(f).name() == "ApiError", &PLATFORM);
    ck.rule("every optional or list field of those conversions, evaluated absent, empty and with two elements: all elements arrive once and in order, nothing appears from nothing");
    lists(ck);
    ck.floor("enum-conversion", 470);
    ck.floor("struct-conversion", 200);
}

const TYPES: Table = Table {
    rows: &[
        ("common::query::AggregateFunction->datafusion::physical_plan::aggregates::AggregateFunction", "Sum", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "True", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "False", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "Exists", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "Empty", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "Like", "!"),
        ("common::query::PropValueOperation->common::query::Operator", "NotLike", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "True", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "False", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "Exists", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "Empty", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "Like", "!"),
        ("common::query::PropValueOperation->datafusion_expr::Operator", "NotLike", "!"),
        ("common::scalar::ScalarValueRef->datafusion_common::ScalarValue", "IntervalDayTime", "!"),
        ("common::scalar::ScalarValueRef->datafusion_common::ScalarValue", "IntervalMonthDayNano", "!"),
        ("common::scalar::ScalarValueRef->datafusion_common::ScalarValue", "Dictionary", "!"),
        // list types are checked by element
        ("common::types::DType->arrow::datatypes::DataType", "List", "?"),
        ("common::types::DType->arrow2::datatypes::DataType", "List", "?"),
        ("storage::parquet::ParquetValue->storage::KeyValue", "Boolean", "!"),
        ("storage::parquet::ParquetValue->storage::KeyValue", "Int96", "!"),
        ("storage::parquet::ParquetValue->storage::KeyValue", "Float", "!"),
        ("storage::parquet::ParquetValue->storage::KeyValue", "Double", "!"),
        ("storage::parquet::ParquetValue->storage::KeyValue", "ByteArray", "!"),
        ("storage::Value->storage::KeyValue", "Null", "!"),
        ("storage::Value->storage::KeyValue", "Boolean", "!"),
        ("storage::Value->storage::KeyValue", "Decimal", "!"),
        ("storage::Value->storage::KeyValue", "ListInt8", "!"),
        ("storage::Value->storage::KeyValue", "ListInt16", "!"),
        ("storage::Value->storage::KeyValue", "ListInt32", "!"),
        ("storage::Value->storage::KeyValue", "ListInt64", "!"),
        ("storage::Value->storage::KeyValue", "ListBoolean", "!"),
        ("storage::Value->storage::KeyValue", "ListTimestamp", "!"),
        ("storage::Value->storage::KeyValue", "ListDecimal", "!"),
        ("storage::Value->storage::KeyValue", "ListString", "!"),
    ],
};

/// conversions out of external enums: (source type, target type, variants with payload arity)
const EXT: &[(&str, &str, &[(&str, usize)])] = &[
    ("datafusion::physical_plan::aggregates::AggregateFunction", "common::query::AggregateFunction", &[("Count", 0), ("Min", 0), ("Max", 0), ("Avg", 0)]),
    (
        "datafusion_expr::Operator",
        "common::query::Operator",
        &[("Eq", 0), ("NotEq", 0), ("Lt", 0), ("LtEq", 0), ("Gt", 0), ("GtEq", 0), ("RegexMatch", 0), ("RegexNotMatch", 0)],
    ),
    ("arrow_schema::TimeUnit", "common::query::TimeUnit", &[("Second", 0), ("Millisecond", 0), ("Microsecond", 0), ("Nanosecond", 0)]),
    (
        "arrow_schema::DataType",
        "common::types::DType",
        &[("Boolean", 0), ("Int8", 0), ("Int16", 0), ("Int32", 0), ("Int64", 0), ("Utf8", 0), ("Decimal128", 2), ("Timestamp", 2)],
    ),
    (
        "arrow2::datatypes::DataType",
        "common::types::DType",
        &[("Boolean", 0), ("Int8", 0), ("Int16", 0), ("Int32", 0), ("Int64", 0), ("Utf8", 0), ("Decimal", 2), ("Timestamp", 2)],
    ),
];

pub fn check_types(ck: &mut Ck) {
    ck.rule("every conversion between type, scalar, operator and unit enums (common, storage), both directions, evaluated per variant: variant becomes its namesake (or is refused where recorded), payload carried unchanged");
    ck.rule("timestamps are milliseconds, decimals have precision 28 and scale 16 (constants evaluated)");
    ck.rule("list types convert as their element type");
    sweep(ck, &["common", "storage"], &|f| f.module.contains("test_util") || conv_target(f).name() == "ApiError" || f.path.contains("::error::"), &TYPES);
    let m = ck.m;
    let is = |f: &&FnDef, s: &str, t: &str| f.trait_.is_some() && f.block.is_some() && f.krate == "common" && conv_source(f).peel().path() == s && conv_target(f).peel().path() == t;
    for (s, t, vs) in EXT {
        let Some(f) = m.fns.iter().find(|f| is(f, s, t)) else {
            ck.fail(format!("anchor:{s}->{t}"), "", 0, "conversion not found");
            continue;
        };
        let list: Vec<(String, Vec<String>)> = vs.iter().map(|v| (v.0.to_string(), (0..v.1).map(|i| i.to_string()).collect())).collect();
        // payloads of Decimal/Timestamp are fixed by the system and not carried
        let mut kept = vec![];
        for (v, fs) in list {
            let mut it = Interp::new(ck.m);
            let pf: Vec<(String, Vid)> = fs.iter().map(|n| (n.clone(), it.param(&format!("{v}~{n}")))).collect();
            let r = eval_variant(ck, f, &format!("{s}::{v}"), &pf, &mut it);
            ck.absorb(&it);
            let got: BTreeSet<String> = r.iter().map(|x| res_name(&it.a, *x)).collect();
            ck.req("enum-conversion", got.len() == 1 && alias(got.iter().next().unwrap()) == alias(&v), format!("{s}->{t}#{v}"), (&f.file, f.line), format!("{}: {v} must become its namesake, becomes {got:?}", f.path));
            kept.push(v);
        }
    }
    // ScalarValue -> ScalarValueRef: the variants ScalarValueRef has, with the payload arity it has
    if let Some(e) = m.enums.get("common::scalar::ScalarValueRef") {
        let vs: Vec<(String, Vec<String>)> = e.variants.iter().filter(|v| !matches!(v.name.as_str(), "IntervalDayTime" | "IntervalMonthDayNano" | "Dictionary")).map(|v| (v.name.clone(), v.fields.iter().map(|x| x.0.clone()).collect())).collect();
        match m.fns.iter().find(|f| is(f, "datafusion_common::ScalarValue", "common::scalar::ScalarValueRef")) {
            Some(f) => check_enum(ck, f, &vs, "datafusion_common::ScalarValue", &TYPES, "enum-conversion"),
            None => ck.fail("anchor:ScalarValue->ScalarValueRef", "", 0, "conversion not found"),
        }
    }
    // type parameters and list elements
    let dts = ["String", "Int8", "Int16", "Int32", "Int64", "Decimal", "Boolean", "Timestamp"];
    for (t, dec) in [("arrow::datatypes::DataType", "Decimal128"), ("arrow2::datatypes::DataType", "Decimal")] {
        let Some(f) = m.fns.iter().find(|f| is(f, "common::types::DType", t)) else {
            ck.fail(format!("anchor:DType->{t}"), "", 0, "conversion not found");
            continue;
        };
        let at = (f.file.as_str(), f.line);
        for list in [false, true] {
            for d in dts {
                let mut it = Interp::new(ck.m);
                it.eval_consts = true;
                let inner = it.a.mk(Val::Ctor { p: format!("common::types::DType::{d}"), f: vec![] });
                let r = if list {
                    eval_variant(ck, f, "common::types::DType::List", &[("0".into(), inner)], &mut it)
                } else {
                    eval_variant(ck, f, &format!("common::types::DType::{d}"), &[], &mut it)
                };
                ck.absorb(&it);
                let key = format!("DType->{t}#{}{d}", if list { "List of " } else { "" });
                let names: BTreeSet<String> = r.iter().map(|x| res_name(&it.a, *x)).collect();
                let mut ok = names.len() == 1 && alias(names.iter().next().unwrap()) == alias(d);
                let mut why = format!("becomes {names:?}");
                for x in &r {
                    let fs: Vec<Vid> = res_fields(&it.a, *x).into_iter().map(|x| x.1).collect();
                    match d {
                        "Decimal" => {
                            let g: Vec<String> = fs.iter().map(|x| pshow(&poly(&it.a, *x))).collect();
                            if g != ["28", "16"] || !names.contains(dec) {
                                ok = false;
                                why = format!("precision/scale {g:?}");
                            }
                        }
                        "Timestamp" => {
                            let g: Vec<String> = fs.iter().map(|x| it.a.show(*x)).collect();
                            if g.len() != 2 || !g[0].contains("TimeUnit::Millisecond") || !g[1].starts_with("None") {
                                ok = false;
                                why = format!("parameters {g:?}");
                            }
                        }
                        _ => {}
                    }
                }
                ck.req("type-parameters", ok, key, at, format!("{}: {d} {}: {why}", f.path, if list { "(list)" } else { "" }));
            }
        }
    }
    for (s, vs) in [(EXT[3].0, EXT[3].2), (EXT[4].0, EXT[4].2)] {
        let Some(f) = m.fns.iter().find(|f| is(f, s, "common::types::DType")) else { continue };
        for (v, n) in vs {
            let mut it = Interp::new(ck.m);
            let ef: Vec<(String, Vid)> = (0..*n).map(|i| (i.to_string(), it.param(&format!("p{i}")))).collect();
            let inner = it.a.mk(Val::Ctor { p: format!("{s}::{v}"), f: ef });
            it.ext = Some(std::rc::Rc::new(|a: &mut Arena, f: &str, x: &[Vid]| if f == ".data_type" { Some(a.field(x[0], "data_type")) } else { None }));
            let b = it.param("field");
            let b = it.a.upd(b, "data_type", inner);
            let r = eval_variant(ck, f, &format!("{s}::List"), &[("0".into(), b)], &mut it);
            ck.absorb(&it);
            let names: BTreeSet<String> = r.iter().map(|x| res_name(&it.a, *x)).collect();
            ck.req("type-parameters", names.len() == 1 && alias(names.iter().next().unwrap()) == alias(v), format!("{s}->DType#List of {v}"), (&f.file, f.line), format!("{}: list of {v} becomes {names:?}", f.path));
        }
    }
    for (c, want) in [("common::types::DECIMAL_PRECISION", "28"), ("common::types::DECIMAL_SCALE", "16"), ("common::types::TIME_UNIT", "arrow_schema::TimeUnit::Millisecond{}")] {
        let mut it = Interp::new(ck.m);
        it.eval_consts = true;
        let g = it.const_val(c).map(|v| it.a.show(v)).unwrap_or("missing".into());
        let (file, line) = ck.m.consts.get(c).map(|c| (c.file.clone(), 0)).unwrap_or_default();
        ck.req("type-parameters", g == want, format!("const {c}"), (&file, line), format!("{c} must be {want}, is {g}"));
    }
    // one decimal is the power of ten of the scale, and a column of decimals has the decimal type
    {
        let c = "common::types::DECIMAL_MULTIPLIER";
        let mut it = Interp::new(ck.m);
        it.eval_consts = true;
        let g = it.const_val(c).map(|v| it.a.show(v)).unwrap_or("missing".into());
        let (file, line) = ck.m.consts.get(c).map(|c| (c.file.clone(), 0)).unwrap_or_default();
        let n: String = g.chars().filter(|c| c.is_ascii_alphanumeric()).collect();
        let ok = n == "10000000000000000" || n.starts_with("pow10") && n[3..].strip_prefix("10").map(|r| r.trim_start_matches("i128").starts_with("16")).unwrap_or(false);
        ck.req("type-parameters", ok, format!("const {c}"), (&file, line), format!("{c} must be ten to the power of the scale, is {g}"));
        if let Some(f) = ck.func("common::arrow::DecimalBuilder::with_capacity") {
            let mut it = Interp::new(ck.m);
            it.eval_consts = true;
            let a = it.param("capacity");
            let out = it.run(f.id, Some(vec![a]), None);
            ck.absorb(&it);
            for e in out {
                let g = it.a.show(e.v);
                let ok = g.contains("28") && g.contains("16") && g.find("28") < g.find("16") && g.contains("precision_and_scale") && g.contains("with_capacity(capacity)");
                ck.req("type-parameters", ok, "DecimalBuilder", (&f.file, e.line as usize), format!("a decimal column must have precision 28 and scale 16, is {g}"));
            }
        }
    }
    ck.floor("enum-conversion", 150);
    ck.floor("type-parameters", 50);
}

/// lists and options cross a conversion whole: every element once, in order, and nothing becomes something
fn lists(ck: &mut Ck) {
    let m = ck.m;
    for f in &m.fns {
        if f.krate != "platform" || f.block.is_none() || f.path.contains("::error::") || conv_target(f).name() == "ApiError" {
            continue;
        }
        let tr = f.trait_.as_deref().map(last_seg).unwrap_or("");
        if !matches!((tr, f.name.as_str()), ("From", "from") | ("Into", "into") | ("TryFrom", "try_from") | ("TryInto", "try_into")) {
            continue;
        }
        let s = conv_source(f).peel();
        let mut shapes: Vec<(String, Vec<(String, Ty)>)> = vec![];
        if let Some(e) = m.enums.get(s.path()) {
            for v in &e.variants {
                shapes.push((format!("{}::{}", e.path, v.name), v.fields.clone()));
            }
        } else if let Some(st) = m.structs.get(s.path()) {
            shapes.push((st.path.clone(), st.fields.clone()));
        }
        for (cp, fields) in shapes {
            for (i, (fname, ty)) in fields.iter().enumerate() {
                let t = ty.peel();
                let (opt, inner) = if t.name() == "Option" { (true, t.arg(0).peel()) } else { (false, t.clone()) };
                let list = inner.name() == "Vec";
                let grouped = inner.name() == "EventGroupedFilters";
                if !opt && !list && !grouped {
                    continue;
                }
                let nested = list && inner.arg(0).peel().name() == "Vec";
                // (case, the field's value, elements expected in the result, recorded key suffix)
                let wrap = |x: &str| if opt { format!("Some({x})") } else { x.to_string() };
                let grp = |x: &[&str], c: &str| format!("platform::EventGroupedFilters{{groups_condition: gc, groups: [{}]}}", x.iter().map(|l| format!("platform::EventGroupedFilterGroup{{filters_condition: platform::EventGroupedFilterGroupCondition::{c}, filters: [{l}]}}")).collect::<Vec<_>>().join(", "));
                let mut cases: Vec<(&str, String, Vec<&str>)> = vec![];
                if grouped {
                    cases.push(("two", wrap(&grp(&["el_one, el_two"], "And")), vec!["el_one", "el_two"]));
                    cases.push(("second-group", wrap(&grp(&["el_one", "el_two"], "And")), vec!["el_one", "el_two"]));
                } else if nested {
                    cases.push(("two", wrap("[[el_one, el_two], [el_three]]"), vec!["el_one", "el_two", "el_three"]));
                } else if list {
                    cases.push(("two", wrap("[el_one, el_two]"), vec!["el_one", "el_two"]));
                    cases.push(("empty", wrap("[]"), vec![]));
                } else {
                    cases.push(("some", wrap("el_one"), vec!["el_one"]));
                }
                if opt {
                    cases.push(("none", "None".into(), vec![]));
                }
                let mut target: Option<BTreeSet<String>> = None;
                for (case, val, want) in cases {
                    let mut it = super::plan::interp(ck);
                    it.ext = None;
                    it.opaque = Box::new(|g| {
                        matches!(g.trait_.as_deref().map(last_seg).unwrap_or(""), "From" | "Into" | "TryFrom" | "TryInto") || matches!(g.name.as_str(), "json_value_to_scalar" | "scalar_to_json_value" | "scalar_to_json")
                    });
                    let v = super::tab::term(&mut it, &val);
                    let mut fs = vec![];
                    for (j, (n, _)) in fields.iter().enumerate() {
                        let x = if i == j { v } else { it.param(&format!("other~{n}")) };
                        fs.push((n.clone(), x));
                    }
                    let arg = it.a.mk(Val::Ctor { p: cp.clone(), f: fs });
                    let ex = if f.has_self { it.run(f.id, None, Some(arg)) } else { it.run(f.id, Some(vec![arg]), None) };
                    ck.absorb(&it);
                    ck.paths += ex.len();
                    let key = format!("{}#{}{fname}:{case}", label(f), if cp.contains("::") && fields.len() > 0 && m.enums.contains_key(s.path()) { format!("{}.", last_seg(&cp)) } else { String::new() });
                    let at = (f.file.as_str(), f.line);
                    for e in ex {
                        for x in it.a.alts(e.v) {
                            let x = match it.a.get(x).clone() {
                                Val::Ctor { p, f } if (p == "Ok" || p == "Some") && f.len() == 1 => f[0].1,
                                Val::Ctor { p, .. } if p == "Err" => continue,
                                _ => x,
                            };
                            for y in it.a.alts(x) {
                                let rf = res_fields(&it.a, y);
                                // the fields this one feeds, learnt from its full form
                                if target.is_none() {
                                    let t: BTreeSet<String> = rf.iter().filter(|r| it.a.show_d(r.1, 40).contains("el_one")).map(|r| r.0.clone()).collect();
                                    if ck.dump && t.is_empty() {
                                        println!("DUMP list {key} feeds nothing");
                                    }
                                    target = Some(t);
                                }
                                for (n, r) in rf {
                                    if !target.as_ref().unwrap().contains(&n) {
                                        continue;
                                    }
                                  for r in it.a.alts(r) {
                                    let s = it.a.show_d(r, 40);
                                    let mut els: Vec<(usize, &str)> = vec![];
                                    for w in ["el_one", "el_two", "el_three"] {
                                        els.extend(s.match_indices(w).map(|x| (x.0, w)));
                                    }
                                    els.sort();
                                    let got: Vec<&str> = els.iter().map(|x| x.1).collect();
                                    let bare = !s.starts_with("Some{0: ") || s == "Some{0: [ | ]}" || case == "empty" && s.contains("filters: [ | ]");
                                    let ok = got == want && (!want.is_empty() || bare);
                                    ck.req("list-conversion", ok, &key, at, format!("{}: {fname} given as {} becomes {n} = {}", f.path, super::tab::short(&val), super::tab::short(&s)));
                                  }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ck.floor("list-conversion", 100);
}
