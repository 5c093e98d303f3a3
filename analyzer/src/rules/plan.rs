//! Query plans: the plans and expressions each query builds, evaluated for representative requests.
use std::collections::BTreeSet;
use std::rc::Rc;

use super::tab::*;
use crate::interp::*;
use crate::report::*;
use crate::val::*;

fn peel(a: &Arena, v: Vid) -> Vid {
    match a.get(v) {
        Val::Ctor { p, f } if matches!(p.as_str(), "Ok" | "Some") && f.len() == 1 => peel(a, f[0].1),
        Val::Call { f, args } if args.len() == 1 && (f.ends_with("Arc::new") || f.ends_with("Box::new") || f.ends_with("::into") || f == ".into") => peel(a, args[0]),
        Val::Cast(x, _) => peel(a, *x),
        _ => v,
    }
}
fn is_err(a: &Arena, v: Vid) -> bool {
    matches!(a.get(v), Val::Ctor { p, .. } if p == "Err")
}
fn last(f: &str) -> &str {
    f.rsplit("::").next().unwrap_or(f).trim_start_matches('.')
}
fn list(a: &Arena, v: Vid) -> Option<Vec<Vid>> {
    match a.get(peel(a, v)) {
        Val::List { must, may } if may.is_empty() => Some(must.clone()),
        _ => None,
    }
}
fn list_s(a: &Arena, v: Vid) -> String {
    match list(a, v) {
        Some(l) => format!("[{}]", l.iter().map(|x| norm(a, *x)).collect::<Vec<_>>().join(", ")),
        None => norm(a, v),
    }
}
fn col_of(a: &Arena, v: Vid) -> String {
    let v = peel(a, v);
    match a.get(v) {
        Val::Ctor { p, f } if p.ends_with("Column") => f.iter().find(|x| x.0 == "name").map(|x| col_of(a, x.1)).or(f.first().map(|x| col_of(a, x.1))).unwrap_or_default(),
        Val::Call { f, args } if matches!(last(f), "col" | "from_name" | "from_qualified_name" | "new_unqualified" | "Column" | "from" | "try_as_col" | "unwrap") && args.len() == 1 => col_of(a, args[0]),
        Val::Lit(s) => s.trim_matches('"').to_string(),
        _ => norm(a, v),
    }
}
fn flat(a: &Arena, v: Vid, op: &str, out: &mut BTreeSet<String>) {
    let v = peel(a, v);
    match a.get(v) {
        Val::Call { f, args } if last(f) == op && args.len() == 2 => {
            flat(a, args[0], op, out);
            flat(a, args[1], op, out);
        }
        Val::Call { f, args } if last(f) == "binary_expr" && args.len() == 3 && norm(a, args[1]).eq_ignore_ascii_case(op) => {
            flat(a, args[0], op, out);
            flat(a, args[2], op, out);
        }
        Val::Join(x) => {
            let x: Vec<Vid> = x.iter().copied().filter(|v| !is_err(a, *v)).collect();
            match x.len() {
                1 => flat(a, x[0], op, out),
                _ => {
                    out.insert(norm(a, v));
                }
            }
        }
        _ => {
            out.insert(norm(a, v));
        }
    }
}
/// expression or plan as normalized text
pub fn norm(a: &Arena, v: Vid) -> String {
    let v = peel(a, v);
    match a.get(v) {
        Val::Call { f, args } => {
            let l = last(f);
            match (l, args.len()) {
                ("and" | "or", 2) => {
                    let mut s = BTreeSet::new();
                    flat(a, v, l, &mut s);
                    format!("{}({})", l.to_uppercase(), s.into_iter().collect::<Vec<_>>().join(", "))
                }
                ("binary_expr", 3) => format!("{}({}, {})", norm(a, args[1]), norm(a, args[0]), norm(a, args[2])),
                ("eq" | "not_eq" | "gt" | "gt_eq" | "lt" | "lt_eq", 2) => {
                    let o = l.split('_').map(|w| format!("{}{}", &w[..1].to_uppercase(), &w[1..])).collect::<String>();
                    format!("{o}({}, {})", norm(a, args[0]), norm(a, args[1]))
                }
                ("col", 1) => format!("col {}", col_of(a, args[0])),
                ("Column", 1) => format!("col {}", col_of(a, args[0])),
                ("from_name" | "from_qualified_name" | "new_unqualified", 1) if f.contains("Column") => format!("col {}", col_of(a, args[0])),
                ("lit", 1) => format!("lit {}", norm_cast(a, args[0])),
                ("sort", 3) => format!("Sort(Sort(asc: {}, expr: {}, nulls_first: {}))", norm(a, args[1]), norm(a, args[0]), norm(a, args[2])),
                ("from", 1) if f.contains("ScalarValue") => norm_cast(a, args[0]),
                ("key", 4) => {
                    let s: Vec<String> = args.iter().map(|x| norm(a, *x).trim_matches('"').to_string()).collect();
                    format!("key({}/{}/{} {})", s[1], s[2], s[0], s[3])
                }
                ("ref", 1) => norm(a, args[0]).trim_matches('"').to_string(),
                ("timestamp_millis", 1) => format!("ms {}", norm(a, args[0])),
                ("is_true" | "is_false" | "is_null" | "is_not_null", 1) => format!("{l} {}", norm(a, args[0])),
                ("try_as_col" | "unwrap" | "schema", 1) => norm(a, args[0]),
                _ => {
                    let s: Vec<String> = args.iter().map(|x| list_s(a, *x)).collect();
                    if f.ends_with("SingleDictionaryProvider::new") && args.len() == 4 {
                        let s: Vec<String> = args[..3].iter().map(|x| norm(a, *x).trim_matches('"').to_string()).collect();
                        return format!("dict {}/{}", s[1..].join("/"), s[0]);
                    }
                    let l = if l == "try_new" || l == "new" { f.rsplit("::").nth(1).unwrap_or(l) } else { l };
                    format!("{l}({})", s.join(", "))
                }
            }
        }
        Val::Ctor { p, f } => {
            let l = last(p);
            if p.ends_with("::Column") && (f.len() == 1 || f.iter().any(|x| x.0 == "name")) {
                return format!("col {}", col_of(a, v));
            }
            if p == "metadata::properties::Property" {
                return f.iter().find(|x| x.0 == "tag").map(|x| norm(a, x.1).trim_matches('"').to_string()).unwrap_or_default();
            }
            if f.is_empty() {
                return l.to_string();
            }
            let mut s: Vec<String> = f.iter().map(|x| if x.0.chars().all(|c| c.is_ascii_digit()) { list_s(a, x.1) } else { format!("{}: {}", x.0, list_s(a, x.1)) }).collect();
            if !f[0].0.chars().all(|c| c.is_ascii_digit()) {
                s.sort();
            }
            // LogicalPlan::Filter(Filter{..}) and the like: one name
            if s.len() == 1 && s[0].starts_with(&format!("{l}(")) {
                return s[0].clone();
            }
            format!("{l}({})", s.join(", "))
        }
        Val::Join(x) => {
            let s: BTreeSet<String> = x.iter().filter(|v| !is_err(a, **v)).map(|v| norm(a, *v)).collect();
            if s.len() == 1 {
                return s.into_iter().next().unwrap();
            }
            format!("<{}>", s.into_iter().collect::<Vec<_>>().join(" | "))
        }
        Val::Field(b, f) => format!("{}.{f}", norm(a, *b)),
        Val::Index(b, i) => format!("{}[{}]", norm(a, *b), norm(a, *i)),
        Val::Tuple(t) => format!("({})", t.iter().map(|x| list_s(a, *x)).collect::<Vec<_>>().join(", ")),
        Val::List { .. } if list(a, v).is_some() => list_s(a, v),
        Val::Lit(s) => s.clone(),
        _ => short(&a.show_d(v, 20)),
    }
}
fn norm_cast(a: &Arena, v: Vid) -> String {
    match a.get(v) {
        Val::Cast(x, t) => format!("{} as {t}", norm(a, *x)),
        _ => norm(a, v),
    }
}

pub fn interp<'m>(ck: &Ck<'m>) -> Interp<'m> {
    let mut it = fresh(ck);
    it.max_states = 4000;
    it.concrete = true;
    it.a.fold = true;
    it.opaque = Box::new(|f| f.krate == "metadata" || f.module == "common::scalar" || f.name == "time_columns");
    it.ext = Some(Rc::new(model));
    it
}


/// one operator of a plan: kind, its parameters (name or position -> text), inputs
#[derive(Debug, Clone)]
pub struct Node {
    pub kind: String,
    pub par: Vec<(String, String)>,
    /// parameters that are literal lists: their elements
    pub items: Vec<(String, Vec<String>)>,
    /// a filter's conjuncts
    pub conj: BTreeSet<String>,
    pub kids: Vec<Node>,
}
impl Node {
    fn leaf(kind: String) -> Node {
        Node { kind, par: vec![], items: vec![], conj: BTreeSet::new(), kids: vec![] }
    }
}
fn is_plan(a: &Arena, v: Vid) -> bool {
    let v = peel(a, v);
    match a.get(v) {
        Val::Ctor { p, .. } => p.contains("LogicalPlan::") || p.contains("logical_plan::") && p.ends_with("Node"),
        Val::Call { f, args } => f.contains("LogicalPlan::") || (f.contains("Node::") && f.contains("logical_plan::")) || args.len() == 1 && last(f) == "clone" && is_plan(a, args[0]),
        Val::Param(p) => p == "input",
        Val::List { must, .. } => !must.is_empty() && must.iter().all(|x| is_plan(a, *x)),
        Val::Join(x) => x.iter().filter(|v| !is_err(a, **v)).any(|v| is_plan(a, *v)),
        _ => false,
    }
}
pub fn node(a: &Arena, v: Vid) -> Node {
    let v = peel(a, v);
    match a.get(v) {
        Val::Param(p) => return Node::leaf(p.clone()),
        Val::Join(x) => {
            let ks: Vec<Vid> = x.iter().copied().filter(|v| !is_err(a, *v)).collect();
            if ks.len() == 1 {
                return node(a, ks[0]);
            }
            return Node { kids: ks.into_iter().map(|x| node(a, x)).collect(), ..Node::leaf("Join".into()) };
        }
        _ => {}
    }
    let (name, fields): (String, Vec<(String, Vid)>) = match a.get(v) {
        Val::Ctor { p, f } => (p.clone(), f.clone()),
        Val::Call { f, args } => (f.clone(), args.iter().enumerate().map(|(i, x)| (i.to_string(), *x)).collect()),
        _ => return Node::leaf(format!("?{}", norm(a, v))),
    };
    // wrappers: LogicalPlan::X(x), Extension{node}
    if fields.len() == 1 && (name.contains("LogicalPlan::") || last(&name) == "Extension") {
        return node(a, fields[0].1);
    }
    let mut kind = last(&name).to_string();
    if matches!(kind.as_str(), "try_new" | "new") {
        kind = name.rsplit("::").nth(1).unwrap_or("").to_string();
    }
    let mut n = Node::leaf(kind);
    for (f, x) in fields {
        if f == "schema" {
            continue;
        }
        let px = peel(a, x);
        if is_plan(a, px) {
            match list(a, px) {
                Some(l) => n.kids.extend(l.into_iter().map(|x| node(a, x))),
                None => n.kids.push(node(a, px)),
            }
        } else {
            if n.kind == "Filter" && n.conj.is_empty() {
                flat(a, x, "and", &mut n.conj);
            }
            // the description of a funnel: its own fields
            if let Val::Ctor { p, f: g } = a.get(px) {
                if p.ends_with("::Funnel") && g.len() > 1 {
                    for (k, x) in g {
                        n.par.push((k.clone(), norm(a, *x)));
                    }
                    continue;
                }
            }
            if let Some(l) = list(a, x) {
                n.items.push((f.clone(), l.iter().map(|x| norm(a, *x)).collect()));
            }
            n.par.push((f, norm(a, x)));
        }
    }
    n
}
impl Node {
    /// operators from the top to the leaf along first inputs
    pub fn chain(&self) -> Vec<&Node> {
        let mut v = vec![self];
        let mut n = self;
        while let Some(k) = n.kids.first() {
            v.push(k);
            n = k;
        }
        v
    }
    pub fn kinds(&self) -> String {
        self.chain().iter().map(|n| n.kind.as_str()).collect::<Vec<_>>().join(" < ")
    }
    pub fn all<'a>(&'a self, kind: &str, out: &mut Vec<&'a Node>) {
        if self.kind == kind {
            out.push(self);
        }
        for k in &self.kids {
            k.all(kind, out);
        }
    }
    pub fn get(&self, i: &str) -> &str {
        self.par.iter().find(|x| x.0 == i).map(|x| x.1.as_str()).unwrap_or("")
    }
    pub fn list(&self, i: &str) -> Vec<String> {
        match self.items.iter().find(|x| x.0 == i) {
            Some(l) => l.1.clone(),
            None => vec![format!("?{}", self.get(i))],
        }
    }
    pub fn show(&self, d: usize) -> String {
        let mut s = format!("{}{} {:?}\n", "  ".repeat(d), self.kind, self.par);
        for k in &self.kids {
            s += &k.show(d + 1);
        }
        s
    }
}

fn some(a: &mut Arena, v: Vid) -> Vid {
    a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), v)] })
}
fn ok(a: &mut Arena, v: Vid) -> Vid {
    a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), v)] })
}
fn unit(a: &mut Arena, p: &str) -> Vid {
    a.mk(Val::Ctor { p: p.into(), f: vec![] })
}
fn slit(a: &Arena, v: Vid) -> Option<String> {
    match a.get(peel(a, v)) {
        Val::Lit(s) => s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).map(|s| s.to_string()),
        _ => None,
    }
}
/// text after which a project id that is not the request's own is named
fn foreign(pid: &str) -> String {
    match pid {
        "ctx.project_id" | "project_id" => String::new(),
        p => format!("!{p}"),
    }
}
/// the property `name` of the registry `recv` (`…event_properties`, `…group_properties[i]`)
fn prop(a: &mut Arena, recv: &str, pid: &str, name: &str) -> Vid {
    let (pre, typ) = if recv.ends_with("event_properties") {
        ("ev".to_string(), unit(a, "metadata::properties::Type::Event"))
    } else if let Some(i) = recv.strip_suffix(']').and_then(|r| r.rsplit_once("group_properties[")).map(|x| x.1.to_string()) {
        let g = a.lit(&i);
        (format!("g{i}"), a.mk(Val::Ctor { p: "metadata::properties::Type::Group".into(), f: vec![("0".into(), g)] }))
    } else {
        (format!("?{recv}"), unit(a, "?"))
    };
    let tag = a.lit(&format!("\"{pre}:{name}{}\"", foreign(pid)));
    let dict = ["8", "16", "32", "64"].into_iter().find(|w| name.contains(&format!("dict{w}")));
    let is = a.lit(if dict.is_some() { "true" } else { "false" });
    let dt = match dict {
        Some(w) => {
            let t = unit(a, &format!("metadata::properties::DictionaryType::Int{w}"));
            some(a, t)
        }
        None => unit(a, "None"),
    };
    // the type a test property has is spelled in its name
    const T: &[(&str, &str)] = &[("_ts", "Timestamp"), ("_dec", "Decimal"), ("_i8", "Int8"), ("_i16", "Int16"), ("_i32", "Int32"), ("_i64", "Int64"), ("_bool", "Boolean")];
    let t = T.iter().find(|t| name.ends_with(t.0)).map(|t| t.1).unwrap_or("String");
    let mut ty = unit(a, &format!("common::types::DType::{t}"));
    if name.ends_with("_list") {
        ty = a.mk(Val::Ctor { p: "common::types::DType::List".into(), f: vec![("0".into(), ty)] });
    }
    let nullable = a.lit(if name.contains("opt") { "true" } else { "false" });
    let nm = a.lit(&format!("\"{name}\""));
    let none = unit(a, "None");
    a.mk(Val::Ctor { p: "metadata::properties::Property".into(), f: vec![("tag".into(), tag), ("name".into(), nm), ("typ".into(), typ), ("is_dictionary".into(), is), ("dictionary_type".into(), dt), ("data_type".into(), ty), ("nullable".into(), nullable), ("display_name".into(), none)] })
}
/// names of the properties each registry lists
pub const LISTED: &[&str] = &["a", "a_dict8"];
/// custom events the metadata holds in the cases: id -> (event, filter property)
fn custom(a: &mut Arena, pid: &str, id: &str) -> Vid {
    let none = unit(a, "None");
    let mut ev = vec![];
    let name = a.lit("\"x\"");
    let e1 = a.mk(Val::Ctor { p: "common::query::EventRef::RegularName".into(), f: vec![("0".into(), name)] });
    let n3 = a.lit("3");
    let e2 = a.mk(Val::Ctor { p: "common::query::EventRef::Regular".into(), f: vec![("0".into(), n3)] });
    let n7 = a.lit("7");
    let e3 = a.mk(Val::Ctor { p: "common::query::EventRef::Custom".into(), f: vec![("0".into(), n7)] });
    let pn = a.lit("\"cf\"");
    let p = a.mk(Val::Ctor { p: "common::query::PropertyRef::Event".into(), f: vec![("0".into(), pn)] });
    let op = unit(a, "common::query::PropValueOperation::Gt");
    let v = a.mk(Val::Param("cv".into()));
    let vl = a.mk(Val::List { must: vec![v], may: vec![] });
    let sv = some(a, vl);
    let f = a.mk(Val::Ctor { p: "common::query::PropValueFilter::Property".into(), f: vec![("property".into(), p), ("operation".into(), op), ("value".into(), sv)] });
    let fl = a.mk(Val::List { must: vec![f], may: vec![] });
    let fs = some(a, fl);
    let es: Vec<(Vid, Vid)> = match id {
        "7" => vec![(e1, fs), (e2, none)],
        "8" => vec![(e3, fs)],
        _ => vec![(e2, none)],
    };
    for (e, f) in es {
        ev.push(a.mk(Val::Ctor { p: "metadata::custom_events::Event".into(), f: vec![("event".into(), e), ("filters".into(), f)] }));
    }
    let l = a.mk(Val::List { must: ev, may: vec![] });
    let i = a.lit(&format!("\"custom {id}{}\"", foreign(pid)));
    a.mk(Val::Ctor { p: "metadata::custom_events::CustomEvent".into(), f: vec![("id".into(), i), ("events".into(), l)] })
}
/// columns of the input plans in the cases
pub const SCHEMA: &[&str] = &["project_id", "group_0", "created_at", "event", "ev:b", "ev:b_dict8", "g0:b"];

fn column(a: &mut Arena, v: Vid) -> Vid {
    if matches!(a.get(v), Val::Ctor { p, .. } if last(p) == "Column") {
        return v;
    }
    let n = unit(a, "None");
    a.mk(Val::Ctor { p: "datafusion_common::Column".into(), f: vec![("name".into(), v), ("relation".into(), n)] })
}
/// what the cases fix about metadata and the libraries
pub fn model(a: &mut Arena, f: &str, args: &[Vid]) -> Option<Vid> {
    let l = last(f).to_string();
    let txt = |a: &Arena, v: Vid| norm(a, v);
    let head = |a: &Arena| args.first().map(|v| norm(a, *v)).unwrap_or_default();
    match (l.as_str(), args.len()) {
        ("get_by_name", 3) if head(a).contains("_properties") => {
            let (r, p) = (head(a), txt(a, args[1]));
            let n = slit(a, args[2])?;
            let v = prop(a, &r, &p, &n);
            Some(ok(a, v))
        }
        ("get_by_name", 3) if head(a).ends_with(".events") => {
            let p = txt(a, args[1]);
            let n = slit(a, args[2])?;
            let id = a.mk(Val::Param(format!("event:{n}{}", foreign(&p))));
            let nm = a.lit(&format!("\"{n}\""));
            let v = a.mk(Val::Ctor { p: "metadata::events::Event".into(), f: vec![("id".into(), id), ("name".into(), nm)] });
            Some(ok(a, v))
        }
        ("get_by_id", 3) if head(a).ends_with(".custom_events") => {
            let (p, i) = (txt(a, args[1]), txt(a, args[2]));
            let v = custom(a, &p, &i);
            Some(ok(a, v))
        }
        ("get_key", 5) if head(a).ends_with(".dictionaries") => {
            let v = a.mk(Val::Call { f: "key".into(), args: args[1..].to_vec() });
            Some(ok(a, v))
        }
        ("list", 2) if head(a).contains("_properties") => {
            let (r, p) = (head(a), txt(a, args[1]));
            let ps = LISTED.iter().map(|n| prop(a, &r, &p, n)).collect();
            let d = a.mk(Val::List { must: ps, may: vec![] });
            let v = a.mk(Val::Ctor { p: "metadata::metadata::ListResponse".into(), f: vec![("data".into(), d)] });
            Some(ok(a, v))
        }
        ("column_name" | "reference" | "data_type", 1) if f.contains("Property") || f.starts_with('.') => {
            let v = peel(a, args[0]);
            let Val::Ctor { p, f } = a.get(v).clone() else { return None };
            if p != "metadata::properties::Property" {
                return None;
            }
            let tag = f.iter().find(|x| x.0 == "tag")?.1;
            match l.as_str() {
                "column_name" => Some(tag),
                "reference" => Some(a.mk(Val::Call { f: "ref".into(), args: vec![tag] })),
                _ => None,
            }
        }
        ("name", 1) => {
            let v = peel(a, args[0]);
            match a.get(v) {
                Val::Ctor { p, f } if p == "metadata::properties::Property" || p == "SchemaField" => f.iter().find(|x| x.0 == "name").map(|x| x.1),
                _ => None,
            }
        }
        ("fields", 1) if head(a).contains("schema") || matches!(a.get(args[0]), Val::Call { f, .. } if last(f) == "schema") => {
            let fs = SCHEMA
                .iter()
                .map(|n| {
                    let n = a.lit(&format!("\"{n}\""));
                    a.mk(Val::Ctor { p: "SchemaField".into(), f: vec![("name".into(), n)] })
                })
                .collect();
            Some(a.mk(Val::List { must: fs, may: vec![] }))
        }
        ("col" | "ident", 1) => {
            let c = column(a, args[0]);
            Some(a.mk(Val::Ctor { p: "datafusion_expr::Expr::Column".into(), f: vec![("0".into(), c)] }))
        }
        ("from_name" | "from_qualified_name" | "new_unqualified", 1) if f.contains("Column::") => Some(column(a, args[0])),
        ("try_as_col", 1) => match a.get(args[0]).clone() {
            Val::Ctor { p, f } if last(&p) == "Column" && f.len() == 1 => {
                let v = f[0].1;
                Some(some(a, v))
            }
            _ => None,
        },
        ("from", 1) if f.contains("ScalarValue") => Some(a.mk(Val::Call { f: "ScalarValue::from".into(), args: args.to_vec() })),
        ("try_into", 1) | ("into", 1) => {
            // the operator a property operation stands for: C05 decides the table itself
            let Val::Ctor { p, f } = a.get(args[0]) else { return None };
            if !p.contains("PropValueOperation::") || !f.is_empty() {
                return None;
            }
            let o = match last(p) {
                "Neq" => "NotEq",
                "Gte" => "GtEq",
                "Lte" => "LtEq",
                "Regex" => "RegexMatch",
                "NotRegex" => "RegexNotMatch",
                o => o,
            }
            .to_string();
            let v = unit(a, &format!("Operator::{o}"));
            Some(if l == "into" { v } else { ok(a, v) })
        }
        ("get_type", 2) => {
            let u = unit(a, "arrow::datatypes::TimeUnit::Millisecond");
            let n = unit(a, "None");
            let v = a.mk(Val::Ctor { p: "arrow::datatypes::DataType::Timestamp".into(), f: vec![("0".into(), u), ("1".into(), n)] });
            Some(ok(a, v))
        }
        _ => None,
    }
}
