//! C21: query operators keep what they were planned with: parameters, inputs, types, decimal scale.
use std::collections::BTreeSet;

use super::calls::*;
use crate::model::*;
use crate::report::*;

const NODE: &[&str] = &["UserDefinedLogicalNode", "UserDefinedLogicalNodeCore"];

fn set(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn world() -> World {
    let mut w = World::new(&[]);
    w.build = vec!["try_new", "new"];
    w.pure_ = vec![("as_any", "@"), ("into_datafusion_plan_error", "@"), ("into_datafusion_execution_error", "@")];
    w
}
/// what a constructor is given, by parameter: is it an input plan, a list, an optional list of them, or a value?
#[derive(Clone, Copy, PartialEq)]
enum Arg {
    Plan,
    Plans,
    MaybePlans,
    Value,
}
fn is_plan(t: &Ty) -> bool {
    let t = t.peel();
    t.name().ends_with("LogicalPlan") || t.name().ends_with("ExecutionPlan")
}
fn arg(t: &Ty) -> Arg {
    let t = t.peel();
    match last_seg(t.name()) {
        _ if is_plan(&t) => Arg::Plan,
        "Vec" if is_plan(&t.arg(0)) => Arg::Plans,
        "Option" if last_seg(t.arg(0).peel().name()) == "Vec" && is_plan(&t.arg(0).peel().arg(0)) => Arg::MaybePlans,
        _ => Arg::Value,
    }
}
struct Made {
    name: String,
    path: String,
    /// parameter, kind, field it is kept in
    params: Vec<(String, Arg, String)>,
}
/// the constructor of a type and the field each parameter is kept in
fn made<'m>(ck: &mut Ck<'m>, sd: &'m StructDef) -> Option<Made> {
    let m = ck.m;
    let f = m.fns.iter().find(|f| ["try_new", "new"].contains(&f.name.as_str()) && !f.has_self && f.trait_.is_none() && self_path(f) == sd.path)?;
    let mut params: Vec<(String, Arg, String)> = f.params.iter().map(|p| ("_".to_string(), arg(&p.1), String::new())).collect();
    for (i, p) in f.params.iter().enumerate() {
        if let syn::Pat::Ident(id) = &p.0 {
            params[i].0 = id.ident.to_string();
        }
    }
    let names: Vec<String> = params.iter().map(|p| format!("{}_", p.0)).collect();
    let args: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut w = World::new(&[]);
    w.shut = vec!["compute_properties"];
    let d = w.run(ck, f, None, &args);
    let name = last_seg(&sd.path).to_string();
    let kept: Vec<&String> = d.out.iter().filter(|o| !o.starts_with("Err(")).collect();
    for p in params.iter_mut() {
        let want = format!("{}_", p.0);
        let field = sd.fields.iter().map(|x| x.0.clone()).find(|x| !kept.is_empty() && kept.iter().all(|o| top(o).iter().any(|(n, v)| n == x && *v == want)));
        ck.req("kept", field.is_some(), format!("{name}: {}", p.0), (&f.file, f.line), format!("{} must keep its {} unchanged, gives {}", f.path, p.0, kept.iter().map(|s| short_of(s)).collect::<Vec<_>>().join(" or ")));
        p.2 = field.unwrap_or(p.0.clone());
    }
    Some(Made { name, path: sd.path.clone(), params })
}
fn short_of(s: &str) -> String {
    s.chars().take(400).collect()
}
/// the fields of the outermost struct of a text
fn top(s: &str) -> Vec<(String, String)> {
    let Some(i) = s.find('{') else { return vec![] };
    let mut out = vec![];
    let (mut depth, mut q, mut cur) = (0, false, String::new());
    let mut prev = ' ';
    for c in s[i + 1..].chars() {
        let arrow = prev == '=' && c == '>';
        prev = c;
        if arrow {
            cur.push(c);
            continue;
        }
        if c == '"' {
            q = !q;
        }
        if !q {
            match c {
                '(' | '[' | '{' | '<' => depth += 1,
                ')' | ']' | '>' => depth -= 1,
                '}' if depth == 0 => break,
                '}' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
        }
        cur.push(c);
    }
    out.push(cur);
    out.iter().filter_map(|x| x.split_once(':').map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))).collect()
}

fn strip_ok(s: &str) -> String {
    let mut s = s.to_string();
    while s.starts_with("Ok(") && s.ends_with(')') {
        s = s[3..s.len() - 1].to_string();
    }
    s
}

/// a rebuilt operator has the new inputs and everything else of the old one
fn rebuilt(ck: &mut Ck, mk: &Made, f: &FnDef, given: &str, list: &[&str], exprs: Option<&str>) {
    let f = &ck.m.fns[f.id];
    let l = format!("[{}]", list.join(", "));
    let mut args = vec![];
    if let Some(e) = exprs {
        args.push(e);
    }
    args.push(&l);
    let d = world().run(ck, f, Some("self_"), &args);
    let want: Vec<Vec<String>> = mk
        .params
        .iter()
        .map(|(_, k, fld)| match k {
            Arg::Plan => vec![list[0].to_string()],
            Arg::Plans => vec![l.clone()],
            Arg::MaybePlans => vec![format!("self_.{fld}"), format!("Some([{}])", list[1..].join(", "))],
            Arg::Value => vec![format!("self_.{fld}")],
        })
        .collect();
    let mut forms = vec![format!("{}(", mk.name)];
    for (i, w) in want.iter().enumerate() {
        forms = forms.iter().flat_map(|p| w.iter().map(move |x| format!("{p}{}{x}", if i > 0 { ", " } else { "" }))).collect();
    }
    let forms: BTreeSet<String> = forms.into_iter().map(|s| s + ")").collect();
    let got: BTreeSet<String> = d.out.iter().map(|s| strip_ok(s)).collect();
    let ok = got.len() == 1 && {
        let g = got.iter().next().unwrap();
        forms.contains(g) || {
            // the struct itself, with all its fields
            let fs = top(g);
            g.starts_with(&format!("{}{{", mk.name))
                && ck.m.structs[&mk.path].fields.iter().all(|(n, _)| {
                    let v = fs.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or_default();
                    match mk.params.iter().position(|p| p.2 == *n) {
                        Some(i) => want[i].contains(&v),
                        None => v == format!("self_.{n}"),
                    }
                })
        }
    };
    ck.req("rebuild", ok, format!("{}::{}", mk.name, f.name), (&f.file, f.line), format!("{}::{} must rebuild the operator on the {given} with all its parameters ({:?}), gives {:?}", mk.name, f.name, forms, got.iter().map(|s| short_of(s)).collect::<Vec<_>>()));
}
fn inputs(ck: &mut Ck, mk: &Made, f: &FnDef, all: bool) {
    let f = &ck.m.fns[f.id];
    let mut upd = vec![];
    let mut want = vec![];
    for (_, k, fld) in &mk.params {
        match k {
            Arg::Plan => want.push(format!("self_.{fld}")),
            Arg::Plans => {
                upd.push(format!("{fld}: [p0, p1]"));
                want.extend(["p0".to_string(), "p1".into()]);
            }
            Arg::MaybePlans => {
                upd.push(format!("{fld}: Some([p2, p3])"));
                want.extend(["p2".to_string(), "p3".into()]);
            }
            Arg::Value => {}
        }
    }
    let s = if upd.is_empty() { "self_".to_string() } else { format!("T {{ {}, ..self_ }}", upd.join(", ")) };
    let d = World::new(&[]).run(ck, f, Some(&s), &[]);
    let w = set(&[&format!("[{}]", want.join(", "))]);
    // an execution plan may keep its side inputs to itself; the planner only plans the inputs a node names
    let main: Vec<String> = want.iter().filter(|x| !["p2", "p3"].contains(&x.as_str())).cloned().collect();
    ck.req("inputs", d.out == w || !all && d.out == set(&[&format!("[{}]", main.join(", "))]), format!("{}::{}", mk.name, f.name), (&f.file, f.line), format!("{} must name all its inputs {w:?}, names {:?}", mk.name, d.out));
}
fn operators(ck: &mut Ck) {
    let m = ck.m;
    let mut n = 0;
    for sd in m.structs.values() {
        if !sd.path.starts_with("query::") {
            continue;
        }
        let of = |tr: &[&str], name: &str| m.fns.iter().find(|f| self_path(f) == sd.path && f.name == name && f.trait_.as_deref().map_or(false, |t| tr.contains(&last_seg(t))));
        let (logical, phys) = (of(NODE, "from_template"), of(&["ExecutionPlan"], "with_new_children"));
        if logical.is_none() && phys.is_none() {
            continue;
        }
        n += 1;
        let Some(mk) = made(ck, sd) else {
            ck.req("kept", false, format!("{}", sd.path), (&sd.file, sd.line), format!("{} has no constructor to rebuild it with", sd.path));
            continue;
        };
        if let Some(f) = logical {
            rebuilt(ck, &mk, f, "given inputs", &["in0", "in1", "in2"], Some("exprs"));
            if let Some(g) = of(NODE, "with_exprs_and_inputs") {
                rebuilt(ck, &mk, g, "given inputs", &["in0", "in1", "in2"], Some("exprs"));
            }
            if let Some(g) = of(NODE, "inputs") {
                inputs(ck, &mk, g, true);
            }
        }
        if let Some(f) = phys {
            rebuilt(ck, &mk, f, "given children", &["in0", "in1", "in2"], None);
            if let Some(g) = of(&["ExecutionPlan"], "children") {
                inputs(ck, &mk, g, false);
            }
        }
    }
    ck.floor("rebuild", n);
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// the same thing said in one way
fn plain(s: &str) -> String {
    let mut s = s.replace("datafusion::physical_expr::expressions::Column::new(", "new(").replace(".index_of_column(", "index_of_column(").replace(".schema(", "schema(");
    for x in ["schema(l0)", "schema(n.input)", "n.schema"] {
        s = s.replace(x, "S");
    }
    s
}
/// the physical operator planned for a logical one
fn plans(ck: &mut Ck) {
    let m = ck.m;
    let nodes: Vec<String> = m.structs.values().filter(|s| s.path.starts_with("query::") && m.fns.iter().any(|f| self_path(f) == s.path && f.name == "from_template")).map(|s| last_seg(&s.path).to_string()).collect();
    let Some(f) = m.fns.iter().find(|f| f.krate == "query" && f.name == "plan_extension") else {
        ck.req("plan", false, "plan_extension".to_string(), ("src/query/src/physical_plan/planner/mod.rs", 1), "there must be a planner of the operators");
        return;
    };
    let f = ck.m.fns.iter().find(|g| g.id == f.id).unwrap();
    for n in nodes.iter().map(|s| s.as_str()).chain(["another node"]) {
        let mut w = world();
        w.shut = vec!["build_funnel", "build_segment_expr", "build_partitioned_aggregate_partial_expr", "build_partitioned_aggregate_final_expr"];
        for k in &nodes {
            w.pure_.push((leak(format!("downcast_ref(node, {k})")), match n {
                _ if k != n => "None",
                "DictionaryDecodeNode" => "Some(N { decode_cols: [(c1, d1), (c2, d2)], ..n })",
                "PartitionedAggregateFinalNode" => "Some(N { agg_expr: [(e1, n1), (e2, n2)], ..n })",
                "PartitionedAggregatePartialNode" => "Some(N { partition_inputs: Some([p1, p2]), agg_expr: [(e1, n1), (e2, n2)], ..n })",
                _ => "Some(N { partition_inputs: Some([p1, p2]), ..n })",
            }));
        }
        let d = w.run(ck, f, Some("self_"), &["planner", "node", "[l0, l1, l2]", "[i0, i1, i2]", "state"]);
        let want = match n {
            "AddStringColumnNode" => "Some(AddStringColumnExec(i0, n.col))",
            "AggregateAndSortColumnsNode" => "Some(AggregateAndSortColumnsExec(i0, n.groups))",
            "DbParquetNode" => "Some(DBParquetExec(n.db, n.table, n.projection))",
            "DictionaryDecodeNode" => "Some(DictionaryDecodeExec(i0, [(new(c1.name, index_of_column(S, c1)), d1), (new(c2.name, index_of_column(S, c2)), d2)]))",
            "FunnelNode" => "Some(build_funnel([l0, l1, l2], [i0, i1, i2], n{..partition_inputs: Some{0: [p1, p2 | ]}}))",
            "LimitGroupsNode" => "Some(LimitGroupsExec(i0, n.skip, n.groups, n.limit))",
            "MergeNode" => "Some(MergeExec([i0, i1, i2], n.names))",
            "PartitionedAggregateFinalNode" => "Some(SegmentedAggregateFinalExec(i0, [(build_partitioned_aggregate_final_expr(e1, schema(i0)), n1), (build_partitioned_aggregate_final_expr(e2, schema(i0)), n2)]))",
            "PartitionedAggregatePartialNode" => "Some(SegmentedAggregatePartialExec(i0, Some([i1, i2]), new(n.partition_col.name, index_of_column(S, n.partition_col)), [(build_partitioned_aggregate_partial_expr(e1, schema(i0)), n1), (build_partitioned_aggregate_partial_expr(e2, schema(i0)), n2)]))",
            "PivotNode" => "Some(PivotExec(i0, new(n.name_col.name, index_of_column(S, n.name_col)), new(n.value_col.name, index_of_column(S, n.value_col)), n.result_cols))",
            "RenameColumnRowsNode" => "Some(RenameColumnRowsExec(i0, new(n.column.name, index_of_column(S, n.column)), n.rename))",
            "RenameColumnsNode" => "Some(RenameColumnsExec(i0, n.columns))",
            "ReorderColumnsNode" => "Some(ReorderColumnsExec(i0, n.columns))",
            "SegmentNode" => "Some(SegmentExec(i0, build_segment_expr(n.expr, schema(i0)), new(n.partition_col.name, index_of_column(S, n.partition_col))))",
            "UnpivotNode" => "Some(UnpivotExec(i0, n.cols, n.name_col, n.value_col))",
            "another node" => "None",
            // an operator this table does not know must be planned from what it keeps
            _ => "",
        };
        let got: BTreeSet<String> = d.out.iter().filter(|o| !o.starts_with("Err(")).map(|o| plain(o)).collect();
        let ok = got.len() == 1 && match want {
            "" => got.iter().all(|g| g != "Ok(None)"),
            w => got.iter().all(|g| *g == format!("Ok({w})")),
        };
        ck.req("plan", ok, n.to_string(), (&f.file, f.line), format!("{n} must be planned as {want}, is {got:?}"));
    }
}

/// the funnel that is computed is the one asked for
fn funnel(ck: &mut Ck) {
    let Some(f) = ck.fns_at("query::physical_plan::planner::funnel::build_funnel").into_iter().next() else {
        ck.floor("funnel", 0);
        return;
    };
    let l = "query::logical_plan::funnel::";
    let e = |x: &str| format!("create_physical_expr({x}, to_dfschema(schema(i0)), new())");
    // field of the plan, what it is, field of the computation, what that must be
    let base: Vec<(&str, String, &str, String)> = vec![
        ("ts_col", "ts".into(), "ts_col", "AT(ts)".into()),
        ("from", "f1".into(), "from", "f1".into()),
        ("to", "t1".into(), "to", "t1".into()),
        ("window", "w1".into(), "window", "w1".into()),
        ("steps", format!("[(e1, {l}StepOrder::Exact), (e2, {l}StepOrder::Any([s1]))]"), "steps", format!("[({}, StepOrder::Exact), ({}, StepOrder::Any([s1]))]", e("e1"), e("e2"))),
        ("exclude", "None".into(), "exclude", "None".into()),
        ("constants", "None".into(), "constants", "None".into()),
        ("count", format!("{l}Count::Unique"), "count", "Count::Unique".into()),
        ("filter", "None".into(), "filter", "None".into()),
        ("touch", "None".into(), "touch", "None".into()),
        ("time_interval", "None".into(), "time_interval", "None".into()),
        ("groups", "None".into(), "groups", "None".into()),
    ];
    let mut cases: Vec<(&str, String, String)> = vec![("", String::new(), String::new())];
    for c in ["NonUnique", "Session"] {
        cases.push(("count", format!("{l}Count::{c}"), format!("Count::{c}")));
    }
    for c in ["DropOffOnAnyStep", "DropOffOnStep(k)", "TimeToConvert(a, b)"] {
        cases.push(("filter", format!("Some({l}Filter::{c})"), format!("Some(Filter::{c})")));
    }
    for c in ["First", "Last", "Step(k)"] {
        cases.push(("touch", format!("Some({l}Touch::{c})"), format!("Some(Touch::{c})")));
    }
    cases.push(("time_interval", "Some(ti)".into(), "Some(ti)".into()));
    cases.push(("constants", "Some([c1, c2])".into(), format!("Some([{}, {}])", e("c1"), e("c2"))));
    cases.push(("exclude", "Some([X { expr: x1, steps: None }, X { expr: x2, steps: Some(Y { from: xf, to: xt }) }])".into(), format!("Some([ExcludeExpr{{expr: {}, steps: None}}, ExcludeExpr{{expr: {}, steps: Some(ExcludeSteps{{from: xf, to: xt}})}}])", e("x1"), e("x2"))));
    cases.push(("groups", "Some([(g1, n1, s1), (g2, n2, s2)])".into(), format!("Some([({}, n1, s1.data_type), ({}, n2, s2.data_type)])", e("g1"), e("g2"))));
    for (pi, po) in [("None", "None"), ("Some([p1, p2])", "Some([i1, i2])")] {
        for (field, given, want) in &cases {
            let mut t = vec![];
            let mut o = vec![("partition_col", "AT(n.partition_col)".to_string()), ("schema", "schema(i0)".into())];
            for (k, v, fk, fv) in &base {
                t.push(format!("{k}: {}", if k == field { given } else { v }));
                o.push((fk, if k == field { want.clone() } else { fv.clone() }));
            }
            o.sort();
            let opts = o.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", ");
            let groups = if *field == "groups" { 2 } else { 0 };
            let want = format!("Ok(FunnelFinalExec(FunnelPartialExec(i0, {po}, AT(n.partition_col), PartitionedFunnel(Options{{{opts}}})), {groups}, 2))");
            let mut w = world();
            w.shut = vec!["create_physical_expr"];
            let n = format!("N {{ partition_inputs: {pi}, funnel: F {{ {} }}, ..n }}", t.join(", "));
            let d = w.run(ck, f, None, &["[l0, l1, l2]", "[i0, i1, i2]", &n]);
            let got: BTreeSet<String> = d.out.iter().filter(|o| !o.starts_with("Err(")).map(|o| columns(&plain(o))).collect();
            let ok = got.len() == 1 && got.contains(&want);
            ck.req("funnel", ok, format!("{field} {given} {pi}"), (&f.file, f.line), format!("a funnel with {field} {given} and partition inputs {pi} must be computed as {want}, is {got:?}"));
        }
    }
}
/// a column of the input schema: the index decides, the name is only shown
fn columns(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("new(") {
        let tail = &rest[i + 4..];
        if let Some((a, b)) = tail.split_once(", index_of_column(S, ") {
            if !a.contains([',', '(', ')']) {
                if let Some((c, d)) = b.split_once("))") {
                    out.push_str(&rest[..i]);
                    out.push_str(&format!("AT({c})"));
                    rest = d;
                    continue;
                }
            }
        }
        out.push_str(&rest[..i + 4]);
        rest = tail;
    }
    out + rest
}

const TYPES: &[(&str, &str)] = &[
    ("Int8", "i8"),
    ("Int16", "i16"),
    ("Int32", "i32"),
    ("Int64", "i64"),
    ("UInt8", "u8"),
    ("UInt16", "u16"),
    ("UInt32", "u32"),
    ("UInt64", "u64"),
    ("Float32", "f32"),
    ("Float64", "f64"),
    ("Decimal128", "i128"),
];
const FNS: &[&str] = &["Sum", "Min", "Max", "Avg", "Count"];
/// the type an aggregate function gives on a type
fn result<'a>(t: &'a str, f: &str) -> &'a str {
    match (f, t) {
        ("Avg", _) => "Float64",
        ("Count", _) => "Int64",
        ("Sum", "Float32" | "Float64") => "Float64",
        ("Sum", "Int8" | "Int16" | "Int32") => "Int64",
        ("Sum", "UInt8" | "UInt16" | "UInt32") => "UInt64",
        ("Sum", _) => "Decimal128",
        _ => t,
    }
}
fn rust(t: &str) -> &str {
    TYPES.iter().find(|x| x.0 == t).unwrap().1
}
fn dt(t: &str) -> String {
    if t == "Decimal128" { "arrow::datatypes::DataType::Decimal128(38, 16)".into() } else { format!("arrow::datatypes::DataType::{t}") }
}
fn tf(_: &str) -> &str {
    ""
}
fn aggregates(ck: &mut Ck) {
    let e = "query::logical_plan::partitioned_aggregate::AggregateExpr";
    let g = "query::logical_plan::partitioned_aggregate::AggregateFunction";
    for (half, last) in [("partial", false), ("final", true)] {
        let path = format!("query::physical_plan::planner::partitioned_aggregate::build_partitioned_aggregate_{half}_expr");
        let Some(f) = ck.fns_at(&path).into_iter().next() else {
            ck.floor("aggregate", 0);
            return;
        };
        let mut go = |ck: &mut Ck, what: String, expr: String, t: &str, want: String| {
            let mut w = world();
            w.shut = vec!["build_filter", "build_groups", "col", "aggregate", "create_physical_expr"];
            w.pure_.push(("data_type", leak(format!("Ok({})", dt(t)))));
            let f = ck.fns_at(&path).into_iter().next().unwrap();
            let d = w.run(ck, f, None, &[&expr, "schema"]);
            let got: BTreeSet<String> = d.out.iter().filter(|o| !o.starts_with("Err(.to_dfschema")).map(|o| o.replace(", u128,", ", i128,")).collect();
            let s = "to_dfschema(schema)";
            let mut want = want.replace("FILTER", &format!("build_filter(fi, {s}, new())")).replace("GROUPS", &format!("build_groups(gr, {s}, new())")).replace("PRED", &format!("col(pr, {s})")).replace("PART", &format!("col(pc, {s})"));
            want = if want.is_empty() { "an error".into() } else { format!("Ok({want})") };
            let ok = if want == "an error" { got.iter().all(|o| o.starts_with("Err(QueryError::Plan(")) } else { got.len() == 1 && got.contains(&want) };
            ck.req("aggregate", ok && !got.is_empty(), what.clone(), (&f.file, f.line), format!("the {what} must be computed by {want}, is by {got:?}"));
        };
        for (t, r) in TYPES {
            go(ck, format!("{half} count of {t}"), format!("{e}::Count {{ filter: fi, groups: gr, predicate: pr, partition_col: pc, distinct: di }}"), t, format!("Count<{r}>(FILTER, GROUPS, PRED, PART, di)"));
            for a in FNS {
                let rt = result(t, a);
                let o = if last { r } else { rust(rt) };
                go(ck, format!("{half} {a} of {t}"), format!("{e}::Aggregate {{ filter: fi, groups: gr, predicate: pr, partition_col: pc, agg: {g}::{a} }}"), t, format!("Aggregate<{r}, {o}>(FILTER, GROUPS, PART, PRED, aggregate{}(AggregateFunction::{a}))", tf(o)));
                for b in FNS {
                    let p = if last { r } else { rust(result(rt, b)) };
                    go(ck, format!("{half} {b} of {a} of {t}"), format!("{e}::PartitionedAggregate {{ filter: fi, groups: gr, predicate: pr, partition_col: pc, inner_fn: {g}::{a}, outer_fn: {g}::{b} }}"), t, format!("PartitionedAggregate<{r}, {o}, {p}>(FILTER, aggregate{}(AggregateFunction::{a}), aggregate{}(AggregateFunction::{b}), PRED, GROUPS, PART)", tf(o), tf(p)));
                }
            }
        }
        for t in ["Utf8", "Boolean", "Null"] {
            go(ck, format!("{half} count of {t}"), format!("{e}::Count {{ filter: fi, groups: gr, predicate: pr, partition_col: pc, distinct: di }}"), t, String::new());
            go(ck, format!("{half} sum of {t}"), format!("{e}::Aggregate {{ filter: fi, groups: gr, predicate: pr, partition_col: pc, agg: {g}::Sum }}"), t, String::new());
        }
        for a in FNS {
            let rt = result("Int64", a);
            go(ck, format!("{half} {a} of counts"), format!("{e}::PartitionedCount {{ filter: fi, groups: gr, partition_col: pc, distinct: di, outer_fn: {g}::{a} }}"), "Int64", format!("PartitionedCount<{}>(FILTER, aggregate{}(AggregateFunction::{a}), GROUPS, PART, di)", rust(rt), tf(rust(rt))));
        }
    }
}

/// the accumulators themselves, on numbers
fn functions(ck: &mut Ck) {
    let p = "query::physical_plan::expressions::segmentation::aggregate::AggregateFunction";
    fn get<'m>(ck: &mut Ck<'m>, n: &str) -> Option<&'m FnDef> {
        ck.fns_at(&format!("query::physical_plan::expressions::segmentation::aggregate::AggregateFunction::{n}")).into_iter().next()
    }
    for (f, args, own, want, after) in [
        ("accumulate", "5", "Sum(3)", "8", "Sum(8)"),
        ("accumulate", "5", "Min(3)", "3", "Min(3)"),
        ("accumulate", "2", "Min(3)", "2", "Min(2)"),
        ("accumulate", "5", "Max(3)", "5", "Max(5)"),
        ("accumulate", "2", "Max(3)", "3", "Max(3)"),
        ("accumulate", "5", "Avg(3, 1)", "4", "Avg(8, 2)"),
        ("accumulate", "5", "Count(3)", "4", "Count(4)"),
    ] {
        let Some(d) = get(ck, f) else { continue };
        let w = || World::new(&[]).with("one", "1").with("zero", "0");
        let r = w().run(ck, d, Some(&format!("{p}::{own}")), &[args]);
        let after = format!("AggregateFunction::{after}");
        let sum = |v: BTreeSet<String>| -> BTreeSet<String> { v.into_iter().map(|x| x.replace("(1 + one())", "2").replace("(one() + 1)", "2").replace("(3 + one())", "4").replace("(one() + 3)", "4").replace("(8 / 2)", "4")).collect() };
        let r = Done { out: sum(r.out.clone()), own: sum(r.own.clone()), log: vec![], ..r };
        ck.req("functions", r.out == set(&[want]) && r.own == set(&[&after]), format!("{f} {args} on {own}"), (&d.file, d.line), format!("{own} given {args} must become {after} and say {want}, becomes {:?} and says {:?}", r.own, r.out));
    }
    for (n, z, v, res) in [("sum", "Sum(zero())", "Sum(a)", "a"), ("min", "Min(max_value())", "Min(a)", "a"), ("max", "Max(min_value())", "Max(a)", "a"), ("avg", "Avg(zero(), zero())", "Avg(a, b)", "(a / b)"), ("count", "Count(zero())", "Count(a)", "a")] {
        let z = format!("AggregateFunction::{z}");
        let op = format!("\"{n}\"");
        for (f, out, own) in [(format!("new_{n}"), z.as_str(), ""), ("make_new".into(), z.as_str(), v), ("reset".into(), "()", z.as_str()), ("result".into(), res, v), ("op".into(), op.as_str(), v)] {
            let Some(d) = get(ck, &f) else { continue };
            let r = World::new(&[]).run(ck, d, if own.is_empty() { None } else { Some(leak(format!("{p}::{v}"))) }, &[]);
            let own = if own.contains("::") || own.is_empty() { own.to_string() } else { format!("AggregateFunction::{own}") };
            let ok = r.out == set(&[out]) && (own.is_empty() || r.own == set(&[&own]));
            ck.req("functions", ok, format!("{f} of {n}"), (&d.file, d.line), format!("`{f}` of {n} must give {out} and leave {own}, gives {:?} and leaves {:?}", r.out, r.own));
        }
    }
}

/// the power of ten a term multiplies by what it is computed from
fn places(t: &str) -> Option<i32> {
    let t = t.trim();
    match t {
        "1" | "1.0" | "1." => return Some(0),
        "pow(10, 16)" | "10000000000000000" | "1e16" => return Some(16),
        _ => {}
    }
    // (a op b)
    let mut d = 0;
    let inner = t.strip_prefix('(').and_then(|x| x.strip_suffix(')'));
    let Some(inner) = inner else { return Some(0) };
    for (k, c) in inner.char_indices() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            '*' | '/' if d == 0 => {
                let (a, b) = (places(&inner[..k])?, places(&inner[k + 1..])?);
                return Some(if c == '*' { a + b } else { a - b });
            }
            _ => {}
        }
        if d < 0 {
            return None;
        }
    }
    Some(0)
}
fn arrow(t: &str) -> String {
    match t {
        "i128" | "u128" => "DataType::Decimal128(28, 16)".into(),
        _ => format!("DataType::{}", TYPES.iter().find(|x| x.1 == t).map_or("?", |x| x.0)),
    }
}
fn array(t: &str) -> String {
    format!("{}Array", if t == "u128" { "Decimal128" } else { TYPES.iter().find(|x| x.1 == t).map_or("?", |x| x.0) })
}
/// each aggregate: the type it says it gives, the type it reads, the scale it works in, what it hands on
fn accumulators(ck: &mut Ck) {
    let m = ck.m;
    let mut n = 0;
    for f in m.fns.iter().filter(|f| f.krate == "query" && f.trait_.as_deref().map_or(false, |t| t.ends_with("PartitionedAggregateExpr"))) {
        let Some(t) = f.self_ty.as_ref() else { continue };
        let t = t.peel();
        let part = t.name().contains("partitioned");
        let args: Vec<String> = (0..4).map(|i| t.arg(i).peel().name().to_string()).take_while(|a| !a.is_empty() && a != "?").collect();
        let kind = match (last_seg(t.name()), part) {
            ("Count", _) => "count",
            ("Aggregate", false) => "agg",
            ("Aggregate", true) => "partitioned_agg",
            ("PartitionedCount", _) => "partitioned_count",
            _ => continue,
        };
        let want_args = match kind {
            "count" | "partitioned_count" => 1,
            "agg" => 2,
            _ => 3,
        };
        // (a type that is no type of a column is never planned)
        if args.len() != want_args || args.iter().any(|a| array(a).starts_with('?')) {
            continue;
        }
        if !["evaluate", "finalize", "fields", "op"].contains(&f.name.as_str()) {
            continue;
        }
        n += 1;
        let mut w = World::new(&[]).with("inner_fn.result", "INNER").with("outer_fn.result", "OUTER").with("agg.result", "AGG");
        w.shut = vec!["accumulate", "result", "op", "reset", "check_filter"];
        w.also = vec!["append_value", "downcast_ref"];
        let given: Vec<&str> = ["batch", "None"][..f.params.len().min(2)].to_vec();
        let d = w.run(ck, f, None, &given);
        let ty = format!("{kind} of {}", args.join(", "));
        let at = (f.file.as_str(), f.line);
        let out = if kind == "count" { "i64" } else { args.last().unwrap() };
        match f.name.as_str() {
            "fields" => {
                let want = format!("[new(\"{kind}\", {}, true)]", arrow(out));
                ck.req("accumulators", d.out == set(&[&want]), format!("fields of {ty}"), at, format!("a {ty} must announce {want}, announces {:?}", d.out));
            }
            "op" => {
                let want = match kind {
                    "count" => "\"count\"",
                    "agg" => "op(self.agg)",
                    _ => "op(self.outer_fn)",
                };
                ck.req("accumulators", d.out == set(&[want]), format!("op of {ty}"), at, format!("the operation of a {ty} must be {want}, is {:?}", d.out));
            }
            _ => {
                // the scale
                let i = |t: &str| t == "i128" || t == "u128";
                let to = 16 * i(out) as i32;
                let (from, free) = match kind {
                    "agg" => (16 * i(&args[0]) as i32, out == "i64" && i(&args[0])),
                    "partitioned_agg" => (if i(&args[0]) && args[1] != "i64" { 16 } else { 0 }, out == "i64" && (i(&args[1]) || args[1] == "f64")),
                    _ => (0, false),
                };
                let mut fed = 0;
                for l in &d.log {
                    let Some((a, b)) = l.split_once(".accumulate(") else { continue };
                    let x = &b[..b.len() - 1];
                    fed += 1;
                    if a.ends_with("inner_fn") {
                        let ok = x.starts_with("value(.downcast_ref(") && places(x) == Some(0);
                        ck.req("accumulators", ok, format!("rows of {ty}"), at, format!("a {ty} must accumulate the values of its column as they are, accumulates {x}"));
                        continue;
                    }
                    let ok = free || places(x) == Some(to - from);
                    ck.req("accumulators", ok, format!("scale of {ty} in {}", f.name), at, format!("a {ty} must scale what it accumulates by 10^{}, accumulates {x}", to - from));
                    if kind == "partitioned_agg" {
                        ck.req("accumulators", x.contains("INNER"), format!("partition of {ty} in {}", f.name), at, format!("a {ty} must accumulate the result of a partition, accumulates {x}"));
                    }
                }
                if f.name == "evaluate" {
                    let need = if kind == "count" { 0 } else { 1 };
                    ck.req("accumulators", fed >= need, format!("evaluate of {ty}"), at, format!("a {ty} must accumulate the rows it is given"));
                    if kind != "partitioned_count" {
                        let want = format!(".downcast_ref({})", array(&args[0]));
                        let kinds: BTreeSet<&String> = d.log.iter().filter(|l| l.starts_with(".downcast_ref(")).collect();
                        let ok = kinds.contains(&want) && kinds.iter().all(|k| **k == want || *k == ".downcast_ref(BooleanArray)" || *k == ".downcast_ref(Int64Array)");
                        ck.req("accumulators", ok, format!("column of {ty}"), at, format!("a {ty} must read its column as {}, reads {kinds:?}", array(&args[0])));
                    }
                    if kind == "partitioned_agg" {
                        // the result of a partition is taken, handed on and only then forgotten
                        let seq: Vec<&str> = d.log.iter().filter_map(|l| ["inner_fn.result(", "outer_fn.accumulate(", "inner_fn.reset(", "inner_fn.accumulate("].iter().position(|p| l.starts_with(p)).map(|i| ["result", "outer", "reset", "inner"][i])).collect();
                        let ok = seq.first() == Some(&"result") && seq.windows(2).all(|w| match w[0] {
                            "result" => w[1] == "outer",
                            "outer" => w[1] == "reset",
                            "reset" => matches!(w[1], "inner" | "result"),
                            _ => matches!(w[1], "inner" | "result"),
                        });
                        ck.req("accumulators", ok && seq.contains(&"inner"), format!("order of {ty}"), at, format!("a {ty} must hand on the result of a partition and then start over before it takes the next row, does {seq:?}"));
                    }
                    if kind == "count" || kind == "agg" {
                        continue;
                    }
                } else {
                    let res = match kind {
                        "agg" => "AGG",
                        "count" => "count",
                        _ => "OUTER",
                    };
                    let put: Vec<&str> = d.log.iter().filter_map(|l| l.split_once("append_value(").map(|x| &x.1[..x.1.len() - 1])).collect();
                    let ok = !put.is_empty() && put.iter().all(|p| *p == res || kind == "count" && p.ends_with(".count"));
                    ck.req("accumulators", ok, format!("result of {ty}"), at, format!("a {ty} must give its result as it is, gives {put:?}"));
                    if kind.starts_with("partitioned") {
                        ck.req("accumulators", fed >= 2, format!("last partition of {ty}"), at, format!("a {ty} must count in the last partition before it gives its result, grouped or not"));
                    }
                    let dec = d.out.iter().filter(|o| o.starts_with("Ok(")).all(|o| o.contains("with_precision_and_scale(") == i(out) && (!i(out) || o.contains(", 28, 16)")));
                    ck.req("accumulators", dec, format!("array of {ty}"), at, format!("a {ty} must give an array of {}, gives {:?}", arrow(out), d.out));
                }
            }
        }
    }
    ck.floor("accumulators", n);
}

/// the columns an aggregate announces when it is planned are those it computes
fn logical(ck: &mut Ck) {
    let p = "query::logical_plan::partitioned_aggregate::";
    let e = format!("{p}AggregateExpr");
    let g = format!("{p}AggregateFunction");
    let mut n = 0;
    let mut run = |ck: &mut Ck, path: String, own: Option<&str>, args: &[&str], t: &str, what: String, want: String| {
        let Some(f) = ck.fns_at(&path).into_iter().next() else { return };
        n += 1;
        let mut w = world();
        if !t.is_empty() {
            w.pure_.push(("data_type", leak(t.to_string())));
        }
        w.pure_.push(("field_from_column", "Ok(@)"));
        let d = w.run(ck, f, own, args);
        let got: BTreeSet<String> = d.out.iter().filter(|o| !o.starts_with("Err(.")).map(|o| plain(o).replace("transpose(None)", "None")).collect();
        ck.req("logical", got == set(&[&want]), what.clone(), (&f.file, f.line), format!("{what} must be {want}, is {got:?}"));
    };
    let dec = "DataType::Decimal128(28, 16)";
    let ty = |t: &str| if t == "Decimal128" { dec.to_string() } else { format!("DataType::{t}") };
    let full = |t: &str| format!("arrow::datatypes::{}", ty(t));
    for (t, _) in TYPES {
        for a in FNS {
            run(ck, format!("{p}return_type"), None, &[&full(t), &format!("{g}::{a}"), "schema"], "", format!("the type of {a} of {t}"), ty(result(t, a)));
            for last in [false, true] {
                let fields = |n: &str, t: &str| format!("Ok([new(\"{n}\", {}, true)])", ty(t));
                let o = if last { *t } else { result(t, a) };
                run(ck, format!("{e}::fields"), Some(&format!("{e}::Aggregate {{ predicate: pr, agg: {g}::{a}, filter: fi, groups: gr, partition_col: pc }}")), &["schema", if last { "true" } else { "false" }], leak(full(t)), format!("the columns of {a} of {t}, final {last}"), fields("agg", o));
                for b in FNS {
                    let o = if last { *t } else { result(result(t, a), b) };
                    run(ck, format!("{e}::fields"), Some(&format!("{e}::PartitionedAggregate {{ predicate: pr, inner_fn: {g}::{a}, outer_fn: {g}::{b}, filter: fi, groups: gr, partition_col: pc }}")), &["schema", if last { "true" } else { "false" }], leak(full(t)), format!("the columns of {b} of {a} of {t}, final {last}"), fields("partitioned_agg", o));
                }
            }
        }
    }
    for last in ["true", "false"] {
        for a in FNS {
            run(ck, format!("{e}::fields"), Some(&format!("{e}::PartitionedCount {{ outer_fn: {g}::{a}, distinct: di, filter: fi, groups: gr, partition_col: pc }}")), &["schema", last], "", format!("the columns of {a} of counts, final {last}"), format!("Ok([new(\"partitioned_count\", {}, true)])", ty(result("Int64", a))));
        }
        run(ck, format!("{e}::fields"), Some(&format!("{e}::Count {{ predicate: pr, distinct: di, filter: fi, groups: gr, partition_col: pc }}")), &["schema", last], "", format!("the columns of a count, final {last}"), "Ok([new(\"count\", DataType::Int64, true)])".into());
    }
    for (v, name, rest) in [("Count", "count", "distinct: di"), ("Aggregate", "agg", "agg: ag"), ("PartitionedCount", "partitioned_count", "distinct: di, outer_fn: of"), ("PartitionedAggregate", "partitioned_agg", "inner_fn: if_, outer_fn: of")] {
        let pr = if v == "PartitionedCount" { "" } else { ", predicate: PR" };
        let own = |groups: &str, pc: &str, prn: &str| format!("AggregateExpr::{v}{{filter: fi, {rest}, groups: {groups}, partition_col: {pc}{}}}", pr.replace("PR", prn));
        let order = |s: String| {
            let (a, b) = s.split_once('{').unwrap();
            let mut v: Vec<&str> = b[..b.len() - 1].split(", ").collect();
            v.sort();
            format!("{a}{{{}}}", v.join(", "))
        };
        let me = format!("{p}{}", own("gr", "pc", "pr"));
        run(ck, format!("{e}::field_names"), Some(&me), &[], "", format!("the column names of {v}"), format!("[\"{name}\"]"));
        let _ = &order;
        run(ck, format!("{e}::change_predicate"), Some(&me), &["pc2", "pr2"], "", format!("{v} of another column"), order(own("gr", "pc2", "pr2")));
        run(ck, format!("{e}::group_exprs"), Some(&format!("{p}{}", own("None", "pc", "pr"))), &[], "", format!("the groups of an ungrouped {v}"), "[]".into());
        run(ck, format!("{e}::group_exprs"), Some(&format!("{p}{}", own("Some([(g1, s1), (g2, s2)])", "pc", "pr"))), &[], "", format!("the groups of a grouped {v}"), "[g1, g2]".into());
    }
    for (m, q) in [("partitioned_aggregate", g.clone()), ("segment", "query::logical_plan::segment::AggregateFunction".to_string())] {
        for a in FNS {
            let z = match *a {
                "Min" => "Min(max_value())".into(),
                "Max" => "Max(min_value())".into(),
                "Avg" => "Avg(zero(), zero())".into(),
                a => format!("{a}(zero())"),
            };
            run(ck, format!("query::physical_plan::planner::{m}::aggregate"), None, &[&format!("{q}::{a}")], "", format!("the accumulator of {a} ({m})"), format!("AggregateFunction::{z}"));
        }
    }
    let gs = "query::physical_plan::planner::partitioned_aggregate::build_groups".to_string();
    run(ck, gs.clone(), None, &["None", "schema", "props"], "", "no groups".into(), "Ok(None)".into());
    ck.floor("logical", n);
    if let Some(f) = ck.fns_at(&gs).into_iter().next() {
        let d = world().run(ck, f, None, &["Some([(g1, s1), (g2, s2)])", "schema", "props"]);
        let got: Vec<String> = d.out.into_iter().filter(|o| !o.starts_with("Err(")).collect();
        let mut at = 0;
        let mut ok = got.len() == 1;
        for x in ["create_physical_expr(g1, schema", "display_name(g1)", "s1.data_type", "create_physical_expr(g2, schema", "display_name(g2)", "s2.data_type"] {
            match got.first().and_then(|g| g[at..].find(x)) {
                Some(i) => at += i,
                None => ok = false,
            }
        }
        ok &= got.first().map_or(false, |g| !g[at..].contains("g1") && !g[at..].contains("s1"));
        ck.req("logical", ok, "two groups".to_string(), (&f.file, f.line), format!("groups must be planned in order, each as its expression, its name and the type it is sorted by, are {got:?}"));
    }
    // the partial results of a group are combined as its function says
    if let Some(f) = ck.m.fns.iter().find(|f| f.name == "poll_next" && f.self_name() == "FinalAggregateStream" && f.path.contains("segmented_aggregate")) {
        for (op, by) in [("count", "Sum(zero())"), ("sum", "Sum(zero())"), ("min", "Min(max_value())"), ("max", "Max(min_value())"), ("avg", "an average of averages is no average")] {
            for (t, r) in TYPES {
                let mut w = world().with("op", &format!("\"{op}\""));
                w.build = vec![];
                w.shut = vec!["op", "try_new"];
                w.pure_.push(("data_type", leak(full(t))));
                let d = w.run(ck, f, Some("FinalAggregateStream { finished: false, inputs: [], group_fields: [], schema: s, named_agg_expr: [(e1, n1)], final_batches: fb, agg_schemas: as_ }"), &["cx"]);
                let used: Vec<&String> = d.log.iter().filter(|l| l.starts_with("try_new<")).collect();
                let head = format!("try_new<{r}, {r}>(None, Some(");
                let typed = !used.is_empty() && used.iter().all(|u| u.starts_with(&head));
                ck.req("combine", typed, format!("{op} of {t} read as {r}"), (&f.file, f.line), format!("partial results of {op} in {t} must be combined as {r}, are by {used:?}"));
                let ok = used.iter().all(|u| u.contains(&format!("AggregateFunction::{by}")));
                if op != "avg" {
                    ck.req("combine", ok, format!("{op} of {t}"), (&f.file, f.line), format!("partial results of {op} in {t} must be combined by {by}, are by {used:?}"));
                } else if *t == "Float64" {
                    ck.req("combine", ok || !used.iter().any(|u| u.contains("AggregateFunction::Avg")), "avg".to_string(), (&f.file, f.line), "averages of the parts of a group are combined by averaging them again, which weighs every part the same however many rows it has".to_string());
                }
            }
        }
    }
}

/// who is in a segment
fn segments(ck: &mut Ck) {
    let l = "query::logical_plan::segment::";
    let Some(f) = ck.fns_at("query::physical_plan::planner::segment::build_segment_expr").into_iter().next() else {
        ck.floor("segments", 0);
        return;
    };
    let times = [("Between(a, b)", "Between(a, b)"), ("From(a)", "From(a)"), ("Last(a, b)", "Last(a, b)"), ("None", "None")];
    for op in ["Eq", "NotEq", "Lt", "LtEq", "Gt", "GtEq"] {
        for (t, tw) in times {
            for x in ["Count", "Int64", "Decimal128"] {
                let mut w = world();
                w.shut = vec!["build_filter", "col", "aggregate"];
                w.pure_.push(("to_dfschema", "Ok(S)"));
                let head = format!("filter: fi, ts_col: ts, partition_col: pc, time_range: {l}TimeRange::{t}, op: {l}Operator::{op}, time_window: None");
                let own = match x {
                    "Count" => format!("{l}SegmentExpr::Count {{ {head}, right: 5 }}"),
                    "Int64" => format!("{l}SegmentExpr::Aggregate {{ {head}, predicate: pr, agg: ag, right: datafusion_common::ScalarValue::Int64(Some(5)) }}"),
                    _ => format!("{l}SegmentExpr::Aggregate {{ {head}, predicate: pr, agg: ag, right: datafusion_common::ScalarValue::Decimal128(Some(5), 28, 16) }}"),
                };
                let d = w.run(ck, f, None, &[&own, "schema"]);
                let ts = format!("build_filter(Some(fi), S, new()), col(ts, S), col(pc, S)");
                let end = format!("5, TimeRange::{tw}");
                let want = match x {
                    "Count" => format!("Ok(SegmentCount<{op}>({ts}, {end}))"),
                    "Int64" => format!("Ok(SegmentAggregate<i64, i128, {op}>({ts}, col(pr, S), aggregate(ag), {end}))"),
                    _ => format!("Ok(SegmentAggregate<Decimal128Array, i128, {op}>({ts}, col(pr, S), aggregate(ag), {end}))"),
                };
                let got: BTreeSet<String> = d.out.into_iter().filter(|o| !o.starts_with("Err(")).collect();
                ck.req("segments", got == set(&[&want]), format!("{x} {op} {t}"), (&f.file, f.line), format!("a segment by {x} {op} in {t} must be computed by {want}, is by {got:?}"));
            }
        }
        // the comparison itself
        let s = "query::physical_plan::expressions::segmentation::";
        for (a, b, eq, lt) in [("1", "2", false, true), ("2", "2", true, false), ("3", "2", false, false)] {
            let want = match op {
                "Eq" => eq,
                "NotEq" => !eq,
                "Lt" => lt,
                "LtEq" => lt || eq,
                "Gt" => !lt && !eq,
                _ => !lt,
            };
            let Some(g) = ck.m.fns.iter().find(|g| g.name == "perform" && self_path(g) == format!("{s}boolean_op::{op}")) else {
                ck.floor("segments", usize::MAX);
                return;
            };
            let d = World::new(&[]).run(ck, g, None, &[a, b]);
            ck.req("segments", d.out == set(&[if want { "true" } else { "false" }]), format!("{a} {op} {b}"), (&g.file, g.line), format!("{a} {op} {b} must be {want}, is {:?}", d.out));
        }
    }
    for x in ["And", "Or"] {
        let own = format!("{l}SegmentExpr::{x}({l}SegmentExpr::Count {{ filter: f1, ts_col: t1, partition_col: p1, time_range: {l}TimeRange::None, op: {l}Operator::Eq, time_window: None, right: r1 }}, {l}SegmentExpr::Count {{ filter: f2, ts_col: t2, partition_col: p2, time_range: {l}TimeRange::None, op: {l}Operator::Lt, time_window: None, right: r2 }})");
        let mut w = world();
        w.shut = vec!["build_filter", "col", "aggregate"];
        w.pure_.push(("to_dfschema", "Ok(S)"));
        let d = w.run(ck, f, None, &[&own, "schema"]);
        let c = |i: u8, op: &str| format!("SegmentCount<{op}>(build_filter(Some(f{i}), S, new()), col(t{i}, S), col(p{i}, S), r{i}, TimeRange::None)");
        let want = format!("Ok(Segment{x}({}, {}))", c(1, "Eq"), c(2, "Lt"));
        let got: BTreeSet<String> = d.out.into_iter().filter(|o| !o.starts_with("Err(")).collect();
        ck.req("segments", got == set(&[&want]), x.to_string(), (&f.file, f.line), format!("a segment by {x} must be computed by {want}, is by {got:?}"));
    }
    if let Some(g) = ck.fns_at("query::physical_plan::expressions::segmentation::time_range::TimeRange::check_bounds").into_iter().next() {
        for (t, yes) in [("Between(10, 20)", 10..=20), ("From(10)", 10..=1000), ("Last(5, 20)", 15..=1000), ("None", -1000..=1000)] {
            for ts in ["5", "9", "10", "14", "15", "20", "21", "25"] {
                let d = World::new(&[]).run(ck, g, Some(&format!("query::physical_plan::expressions::segmentation::time_range::TimeRange::{t}")), &[ts]);
                let want = yes.contains(&ts.parse::<i32>().unwrap());
                ck.req("segments", d.out == set(&[if want { "true" } else { "false" }]), format!("{ts} in {t}"), (&g.file, g.line), format!("time {ts} in {t} must be {want}, is {:?}", d.out));
            }
        }
    }
}

pub fn run(ck: &mut Ck) {
    operators(ck);
    plans(ck);
    funnel(ck);
    aggregates(ck);
    functions(ck);
    accumulators(ck);
    logical(ck);
    segments(ck);
    schemas(ck);
}
fn self_path(f: &FnDef) -> &str {
    f.self_ty.as_ref().map_or("", |t| t.path())
}
/// the first list of a text, up to its end
fn first_list(t: &str) -> Option<&str> {
    let i = t.find('[')?;
    let mut d = 0;
    for (k, c) in t[i..].char_indices() {
        match c {
            '[' | '(' | '{' => d += 1,
            ']' | ')' | '}' => {
                d -= 1;
                if d == 0 {
                    return Some(&t[i..i + k + 1]);
                }
            }
            _ => {}
        }
    }
    None
}
/// the columns a node announces are those its execution gives
fn schemas(ck: &mut Ck) {
    let s = "S { fields: [fa, fb, fc], ..s }";
    let shown = "s{..fields: [fa, fb, fc | ]}";
    let mut answers: Vec<(&'static str, &'static str)> = vec![("schema", s), ("fields", "[fa, fb, fc]"), ("flat_name(cc)", "\"c\"")];
    for (i, c) in ["a", "b", "c"].iter().enumerate() {
        for k in [format!("name(f{c})"), format!("name(new(\"{c}\", {i}))"), format!("flat_name(c{c}{{..name: \"{c}\"}})")] {
            answers.push((leak(k), leak(format!("\"{c}\""))));
        }
        answers.push((leak(format!("index(new(\"{c}\", {i}))")), leak(i.to_string())));
        answers.push((leak(format!("field({shown}, {i})")), leak(format!("f{c}"))));
        for k in [format!("field_with_name({shown}, \"{c}\")"), format!("field_with_name({shown}, None, \"{c}\")"), format!("field_with_name({shown}, None{{}}, \"{c}\")"), format!("field_with_unqualified_name({shown}, \"{c}\")"), format!("field_from_column({shown}, c{c}{{..name: \"{c}\"}})")] {
            answers.push((leak(k), leak(format!("Ok(f{c})"))));
        }
        for k in [format!("index_of({shown}, \"{c}\")"), format!("index_of_column({shown}, c{c}{{..name: \"{c}\"}})"), format!("index_of_column_by_name({shown}, None, \"{c}\")")] {
            answers.push((leak(k), leak(format!("Ok({i})"))));
        }
    }
    let col = |logical: bool, c: &str| if logical { format!("Column {{ name: \"{c}\", ..c{c} }}") } else { format!("new(\"{c}\", {})", if c == "b" { 1 } else { 2 }) };
    let dec = "DataType::Decimal128(28, 16)";
    let table: Vec<(&str, &str, Box<dyn Fn(bool) -> Vec<String>>, String)> = vec![
        ("PivotNode", "PivotExec", Box::new(move |l| vec![col(l, "b"), col(l, "c"), "[\"x\", \"y\"]".into()]), "[fa, new(\"x\", data_type(fc), true), new(\"y\", data_type(fc), true)]".into()),
        ("UnpivotNode", "UnpivotExec", Box::new(|_| vec!["[\"b\"]".into(), "\"n\"".into(), "\"v\"".into()]), format!("[fa, fc, new(\"n\", DataType::Utf8, false), new(\"v\", {dec}, false)]")),
        ("AddStringColumnNode", "AddStringColumnExec", Box::new(|_| vec!["(\"x\", \"v\")".into()]), "[new(\"x\", DataType::Utf8, false), fa, fb, fc]".into()),
        ("RenameColumnsNode", "RenameColumnsExec", Box::new(|_| vec!["[(\"b\", \"x\")]".into()]), "[fa, new(\"x\", data_type(fb), is_nullable(fb)), fc]".into()),
        ("ReorderColumnsNode", "ReorderColumnsExec", Box::new(|_| vec!["[\"c\", \"a\"]".into()]), "[fc, fa, fb]".into()),
        ("DictionaryDecodeNode", "DictionaryDecodeExec", Box::new(move |l| vec![format!("[({}, d)]", col(l, "b"))]), "[fa, new(\"b\", DataType::Utf8, is_nullable(fb)), fc]".into()),
        ("AggregateAndSortColumnsNode", "AggregateAndSortColumnsExec", Box::new(|_| vec!["2".into()]), format!("[fa, fb, new(\"Average\", {dec}, false), fc]")),
    ];
    let mut n = 0;
    for (node, exec, args, want) in table {
        for (ty, logical) in [(node, true), (exec, false)] {
            let Some(f) = ck.m.fns.iter().find(|f| f.krate == "query" && f.name == "try_new" && f.self_name() == ty && f.trait_.is_none()) else { continue };
            n += 1;
            let mut w = World::new(&[]);
            w.shut = vec!["compute_properties"];
            w.pure_ = answers.clone();
            let a = args(logical);
            let mut given = vec!["I"];
            given.extend(a.iter().map(|x| x.as_str()));
            let d = w.run(ck, f, None, &given);
            let mut got = BTreeSet::new();
            for o in d.out.iter().filter(|o| !o.starts_with("Err(")) {
                let o = strip_ok(o);
                let of = top(&o).into_iter().find(|x| x.0 == "schema").map(|x| x.1).unwrap_or_default();
                got.insert(first_list(&of).unwrap_or("").replace("(None, new(", "(new(").replace("(None, fa)", "fa").replace("(None, fb)", "fb").replace("(None, fc)", "fc").replace("(new(\"x\", DataType::Utf8, false))", "new(\"x\", DataType::Utf8, false)"));
            }
            let planned = d.out.iter().all(|o| !o.contains("compute_properties(I, ") || o.contains(&format!("compute_properties(I, {want})")));
            ck.req("columns", planned && got == set(&[&want]), ty.to_string(), (&f.file, f.line), format!("{ty} of the columns a, b, c must have the columns {want}, has {got:?}"));
        }
    }
    ck.floor("columns", n);
    // what an operator and its stream announce is what they were made with, or their input's when they keep none
    let m = ck.m;
    let own: Vec<&FnDef> = m
        .fns
        .iter()
        .filter(|f| f.krate == "query" && f.name == "schema" && f.trait_.as_deref().map_or(false, |t| NODE.contains(&last_seg(t)) || ["ExecutionPlan", "RecordBatchStream"].contains(&last_seg(t))))
        .collect();
    for f in own.iter().copied() {
        let keeps = m.structs.get(self_path(f)).map_or(false, |s| s.fields.iter().any(|x| x.0 == "schema"))
            // a final aggregate has the columns of the partial one it reads
            && f.self_name() != "SegmentedAggregateFinalExec";
        let d = world().run(ck, f, Some("self_"), &[]);
        let ok = d.out == set(&["self_.schema"]) || !keeps && ["schema(self_.input)", "schema(self_.stream)"].iter().any(|x| d.out == set(&[x]));
        ck.req("columns", ok, format!("{}::schema", f.self_name()), (&f.file, f.line), format!("the columns announced are those it was made with, not {:?}", d.out));
    }
    ck.floor("columns", own.len());
    // two nodes are the same when everything of them is
    let m = ck.m;
    let nodes: Vec<&FnDef> = m.fns.iter().filter(|f| f.krate == "query" && f.name == "dyn_eq" && f.trait_.as_deref().map_or(false, |t| NODE.contains(&last_seg(t)))).collect();
    for f in nodes.iter().copied() {
        let mut answers = vec![];
        for a in ["Some(o)", "None"] {
            let mut w = world();
            w.pure_.push(("downcast_ref", a));
            w.shut = vec!["eq"];
            answers.push(w.run(ck, f, Some("self_"), &["other"]).out);
        }
        let (same, other) = (answers[0].clone(), answers[1].clone());
        let ok = other == set(&["false"]) && ["(self_ == o)", "(o == self_)", "eq(self_, o)", "eq(o, self_)"].iter().any(|x| same == set(&[x]));
        ck.req("columns", ok, format!("{}::dyn_eq", f.self_name()), (&f.file, f.line), format!("two operators are the same when they are of one kind and all they have is, {} says {same:?} and {other:?}", f.self_name()));
    }
}
