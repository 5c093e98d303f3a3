//! C17: the plan of each query, evaluated for representative requests.
use std::collections::{BTreeMap, BTreeSet};

use super::plan::*;
use super::tab::*;
use crate::report::*;
use crate::val::*;

type Set = BTreeSet<String>;
type Feats = BTreeMap<&'static str, String>;

/// results of a builder: the plan, and what it returns beside it
pub fn run<'m>(ck: &mut Ck<'m>, path: &str, self_: Option<&str>, args: &[&str]) -> Option<(Vec<(Node, String)>, (&'m str, usize))> {
    let f = ck.func(path)?;
    let mut it = interp(ck);
    let sv = self_.map(|s| term(&mut it, s));
    let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
    let r = super::eval::results(ck, &mut it, f, sv, Some(av), true);
    let mut out = vec![];
    for x in r {
        let (p, rest) = match it.a.get(x).clone() {
            Val::Tuple(t) if t.len() == 2 => (t[0], norm(&it.a, t[1])),
            _ => (x, String::new()),
        };
        out.push((node(&it.a, p), rest));
    }
    Some((out, (&f.file, f.line)))
}

// ---------------------------------------------------------------- requests
#[derive(Clone, Copy)]
pub struct F {
    /// "ev" or "g<i>"
    pub reg: &'static str,
    pub name: &'static str,
    pub op: &'static str,
    pub vals: Option<&'static [&'static str]>,
}
pub const fn f(reg: &'static str, name: &'static str, op: &'static str, vals: Option<&'static [&'static str]>) -> F {
    F { reg, name, op, vals }
}
pub fn opt(l: Option<Vec<String>>) -> String {
    match l {
        None => "None".into(),
        Some(l) => format!("Some([{}])", l.join(", ")),
    }
}
pub fn pref(reg: &str, name: &str) -> String {
    match reg.strip_prefix('g') {
        Some(i) => format!("common::query::PropertyRef::Group({name:?}, {i})"),
        None => format!("common::query::PropertyRef::Event({name:?})"),
    }
}
fn tbl(reg: &str) -> String {
    match reg.strip_prefix('g') {
        Some(i) => format!("group_{i}"),
        None => "events".into(),
    }
}
fn bits(name: &str) -> Option<&'static str> {
    ["8", "16", "32", "64"].into_iter().find(|w| name.contains(&format!("dict{w}")))
}
fn likeish(op: &str) -> bool {
    matches!(op, "Like" | "NotLike" | "Regex" | "NotRegex")
}
impl F {
    pub fn term(&self) -> String {
        let v = opt(self.vals.map(|v| v.iter().map(|x| format!("datafusion_common::ScalarValue::Utf8(Some({x}))")).collect()));
        format!("common::query::PropValueFilter::Property{{property: {}, operation: common::query::PropValueOperation::{}, value: {v}}}", pref(self.reg, self.name), self.op)
    }
    fn col(&self) -> String {
        format!("{}:{}", self.reg, self.name)
    }
    /// the condition the filter stands for
    pub fn expr(&self) -> String {
        let c = format!("col {}", self.col());
        let lit = |v: &str| match bits(self.name) {
            Some(b) if !likeish(self.op) => format!("lit Int{b}(key({}/{}/ctx.project_id {v}))", tbl(self.reg), self.col()),
            _ => format!("lit Utf8({v})"),
        };
        let one = |v: &str| {
            let o = match self.op {
                "Neq" => "NotEq",
                "Gte" => "GtEq",
                "Lte" => "LtEq",
                "Regex" => "RegexMatch",
                "NotRegex" => "RegexNotMatch",
                "Like" => "like",
                "NotLike" => "not_like",
                o => o,
            };
            format!("{o}({c}, {})", lit(v))
        };
        match self.op {
            "True" => format!("is_true {c}"),
            "False" => format!("is_false {c}"),
            "Empty" => format!("is_null {c}"),
            "Exists" => format!("is_not_null {c}"),
            o => {
                let e: Set = self.vals.unwrap_or(&[]).iter().map(|v| one(v)).collect();
                if matches!(o, "Neq" | "NotLike" | "NotRegex") {
                    and(e)
                } else {
                    or(e)
                }
            }
        }
    }
    /// dictionary columns the condition reads as text
    fn decoded(&self) -> Option<String> {
        (likeish(self.op) && bits(self.name).is_some()).then(|| dict(self.reg, self.name))
    }
}
pub fn and(s: Set) -> String {
    one("AND", s)
}
pub fn or(s: Set) -> String {
    one("OR", s)
}
fn one(w: &str, s: Set) -> String {
    if s.len() == 1 {
        return s.into_iter().next().unwrap();
    }
    format!("{w}({})", s.into_iter().collect::<Vec<_>>().join(", "))
}
/// conjuncts of a list of filters
fn conj(fs: &[F]) -> Set {
    let mut s = Set::new();
    for x in fs {
        let e = x.expr();
        match e.strip_prefix("AND(") {
            // a filter that is itself a conjunction is flattened with the others
            Some(_) => s.extend(x.vals.unwrap_or(&[]).iter().map(|v| F { vals: Some(leak(v)), ..*x }.expr())),
            None => {
                s.insert(e);
            }
        }
    }
    s
}
fn leak(v: &&'static str) -> &'static [&'static str] {
    Box::leak(Box::new([*v]))
}
fn dict(reg: &str, name: &str) -> String {
    format!("(col {reg}:{name}, dict {}/{reg}:{name}/ctx.project_id)", tbl(reg))
}
fn show(s: &Set) -> String {
    s.iter().cloned().collect::<Vec<_>>().join("; ")
}
fn list(s: &[String]) -> String {
    s.join("; ")
}

#[derive(Clone, Copy)]
enum Time {
    Between,
    From,
}
impl Time {
    fn term(&self) -> &'static str {
        match self {
            Time::Between => "common::query::QueryTime::Between{from: t0, to: t1}",
            Time::From => "common::query::QueryTime::From(t0)",
        }
    }
    fn conj(&self) -> Set {
        let to = match self {
            Time::Between => "t1",
            Time::From => "ctx.cur_time",
        };
        [format!("GtEq(col created_at, lit TimestampMillisecond(ms t0, None))"), format!("LtEq(col created_at, lit TimestampMillisecond(ms {to}, None))")].into()
    }
}
fn own() -> String {
    "Eq(col project_id, lit ctx.project_id as i64)".into()
}
fn ev(n: &str) -> String {
    format!("Eq(col event, lit event:{n} as i64)")
}

// ---------------------------------------------------------------- features of a plan
/// what a chain of operators does, independent of how its filters are nested or split
fn feats(n: &Node) -> Feats {
    let mut m = Feats::new();
    let mut filters = Set::new();
    let (mut before, mut after) = (vec![], vec![]);
    let mut shape = vec![];
    let mut other = vec![];
    let mut cols: Vec<Vec<String>> = vec![];
    for x in n.chain() {
        match x.kind.as_str() {
            "Filter" => {
                filters.extend(x.conj.iter().cloned());
                if shape.last() != Some(&"Filter") {
                    shape.push("Filter");
                }
            }
            "DictionaryDecodeNode" => {
                if shape.contains(&"Filter") {
                    before.extend(x.list("decode_cols"))
                } else {
                    after.extend(x.list("decode_cols"))
                }
            }
            "Projection" => {
                if shape.contains(&"Filter") {
                    other.push("Projection under the filter".to_string());
                }
                cols.push(x.list("0"));
            }
            "Sort" => {
                shape.push("Sort");
                m.insert("sort", format!("{} fetch {}", x.get("expr"), x.get("fetch")));
            }
            "Limit" => {
                shape.push("Limit");
                m.insert("limit", format!("{} from {}", x.get("fetch"), x.get("skip")));
            }
            "RenameColumnsNode" => {
                let s: Set = x.list("columns").into_iter().collect();
                m.insert("names", show(&s));
            }
            "Aggregate" => {
                shape.push("Aggregate");
                m.insert("aggregate", x.par.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(" / "));
            }
            "input" => {
                m.insert("input", x.kind.clone());
            }
            k => other.push(k.to_string()),
        }
    }
    m.insert("filter", show(&filters));
    let dup = |v: &Vec<String>| {
        let s: Set = v.iter().cloned().collect();
        if s.len() == v.len() {
            show(&s)
        } else {
            format!("duplicated: {}", v.join("; "))
        }
    };
    m.insert("decoded before filtering", dup(&before));
    m.insert("decoded for output", dup(&after));
    m.insert("order", shape.join(" over "));
    m.insert("columns", cols.first().map(|c| list(c)).unwrap_or("all".into()));
    if !other.is_empty() {
        m.insert("other operators", other.join("; "));
    }
    m
}
/// obligation: every plan the builder can give has these features
fn want<'m>(ck: &mut Ck<'m>, path: &str, case: &str, args: &[&str], w: &Feats, rest: Option<&str>) {
    let Some((r, at)) = run(ck, path, None, args) else { return };
    let name = path.rsplit("::").take(2).collect::<Vec<_>>();
    let key = format!("{}::{}", name[1], name[0]);
    if !ck.req("plan", !r.is_empty(), format!("{key} {case}"), at, format!("{key} gives no plan for {case}")) {
        return;
    }
    for (n, x) in r {
        let got = feats(&n);
        let ks: BTreeSet<&'static str> = w.keys().chain(got.keys()).copied().collect();
        for k in ks {
            let (a, b) = (w.get(k).map(|s| s.as_str()).unwrap_or("none"), got.get(k).map(|s| s.as_str()).unwrap_or("none"));
            ck.req("plan", a == b, format!("{key} {case}: {k}"), at, format!("{key}, {case}: {k} must be `{a}`, is `{b}`"));
        }
        if let Some(p) = rest {
            ck.req("plan", p == x, format!("{key} {case}: properties"), at, format!("{key}, {case}: the properties described beside the plan must be `{p}`, are `{x}`"));
        }
    }
}

// ---------------------------------------------------------------- the queries
type Ev = (&'static str, Option<&'static [F]>);
const EQ: F = f("ev", "f1", "Eq", Some(&["v1"]));
const EQ_DICT: F = f("ev", "f_dict8", "Eq", Some(&["v1", "v2"]));
const LIKE_DICT: F = f("g1", "l_dict16", "Like", Some(&["v3"]));
const NULL: F = f("g0", "n", "Empty", None);

/// named selections: columns (registry, name)
const PROPS: &[(&str, Option<&[(&str, &str)]>)] = &[("all properties", None), ("one property", Some(&[("ev", "p")])), ("three properties", Some(&[("g0", "p_dict32"), ("ev", "p"), ("ev", "p")]))];

fn selected(props: Option<&[(&'static str, &'static str)]>, groups: &[usize], events: bool) -> Vec<(String, &'static str)> {
    let mut v: Vec<(String, &'static str)> = vec![];
    match props {
        Some(l) => {
            for (r, n) in l {
                if !v.iter().any(|x| x.0 == *r && x.1 == *n) {
                    v.push((r.to_string(), n));
                }
            }
        }
        None => {
            if events {
                v.extend(LISTED.iter().map(|n| ("ev".to_string(), *n)));
            }
            for g in groups {
                v.extend(LISTED.iter().map(|n| (format!("g{g}"), *n)));
            }
        }
    }
    v
}
fn output(w: &mut Feats, sel: &[(String, &'static str)], explicit: bool, before: &Set) {
    let dec: Set = sel.iter().filter(|x| bits(x.1).is_some()).map(|x| dict(&x.0, x.1)).filter(|d| !before.contains(d)).collect();
    w.insert("decoded for output", show(&dec));
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    let mut names = Set::new();
    for (r, n) in sel {
        let k = seen.entry(n).or_default();
        *k += 1;
        names.insert(if *k == 1 { format!("(\"{r}:{n}\", \"{n}\")") } else { format!("(\"{r}:{n}\", \"{n} {k}\")") });
    }
    w.insert("names", show(&names));
    w.insert("columns", if explicit { list(&sel.iter().map(|(r, n)| format!("col {r}:{n}")).collect::<Vec<_>>()) } else { "all".into() });
}
fn props_text(sel: &[(String, &'static str)]) -> String {
    format!("[{}]", sel.iter().map(|(r, n)| format!("{r}:{n}")).collect::<Vec<_>>().join(", "))
}

fn event_records(ck: &mut Ck) {
    const EVENTS: &[(&str, Option<&[Ev]>)] = &[
        ("no events", None),
        ("empty events", Some(&[])),
        ("one event", Some(&[("e1", None)])),
        ("two events", Some(&[("e1", Some(&[EQ_DICT, LIKE_DICT])), ("e2", None)])),
        ("empty event filters", Some(&[("e1", Some(&[]))])),
    ];
    const FILTERS: &[(&str, Option<&[F]>)] = &[("no filters", None), ("empty filters", Some(&[])), ("one filter", Some(&[EQ])), ("three filters", Some(&[LIKE_DICT, NULL, EQ]))];
    for (ti, time) in [Time::Between, Time::From].into_iter().enumerate() {
        for (en, evs) in EVENTS {
            for (fnm, fs) in FILTERS {
                for (pn, ps) in PROPS {
                    if ti == 1 && *pn != "one property" {
                        continue;
                    }
                    let evt = evs.map(|l| l.iter().map(|(n, f)| format!("query::event_records::Event{{event: common::query::EventRef::RegularName({n:?}), filters: {}}}", opt(f.map(|f| f.iter().map(|x| x.term()).collect())))).collect());
                    let req = format!(
                        "query::event_records::EventRecordsSearchRequest{{time: {}, events: {}, filters: {}, properties: {}}}",
                        time.term(),
                        opt(evt),
                        opt(fs.map(|l| l.iter().map(|x| x.term()).collect())),
                        opt(ps.map(|l| l.iter().map(|(r, n)| pref(r, n)).collect()))
                    );
                    let mut c: Set = time.conj();
                    c.insert(own());
                    if let Some(l) = evs {
                        let alts: Set = l
                            .iter()
                            .map(|(n, f)| {
                                let mut s: Set = [ev(n)].into();
                                s.extend(conj(f.unwrap_or(&[])));
                                and(s)
                            })
                            .collect();
                        match (l.len(), l.first()) {
                            (0, _) => {}
                            (1, Some((n, f))) => {
                                c.insert(ev(n));
                                c.extend(conj(f.unwrap_or(&[])));
                            }
                            _ => {
                                c.insert(or(alts));
                            }
                        }
                    }
                    c.extend(conj(fs.unwrap_or(&[])));
                    let mut before = Set::new();
                    for x in fs.unwrap_or(&[]).iter().chain(evs.unwrap_or(&[]).iter().flat_map(|e| e.1.unwrap_or(&[]))) {
                        before.extend(x.decoded());
                    }
                    let sel = selected(*ps, &[0, 1, 2, 3, 4], true);
                    let mut w = Feats::new();
                    w.insert("filter", show(&c));
                    w.insert("decoded before filtering", show(&before));
                    w.insert("sort", "[Sort(Sort(asc: false, expr: col event_id, nulls_first: false))] fetch None".into());
                    w.insert("limit", "100 from 0".into());
                    w.insert("order", "Limit over Sort over Filter".into());
                    w.insert("input", "input".into());
                    output(&mut w, &sel, ps.is_some(), &before);
                    let t = if ti == 0 { "between" } else { "from" };
                    want(ck, "query::event_records::build_search_plan", &format!("{t}, {en}, {fnm}, {pn}"), &["ctx", "metadata", "input", &req], &w, Some(&props_text(&sel)));
                }
            }
        }
    }
    let mut w = Feats::new();
    let c: Set = [own(), "Eq(col event_id, lit id as i64)".to_string()].into();
    w.insert("filter", show(&c));
    w.insert("decoded before filtering", "".into());
    let sel = selected(None, &[0, 1, 2, 3, 4], true);
    output(&mut w, &sel, false, &Set::new());
    w.remove("names");
    w.insert("order", "Filter".into());
    w.insert("input", "input".into());
    want(ck, "query::event_records::build_get_by_id_plan", "by id", &["ctx", "metadata", "input", "id"], &w, None);
}

fn group_records(ck: &mut Ck) {
    const FILTERS: &[(&str, Option<&[F]>)] = &[("no filters", None), ("one filter", Some(&[f("g1", "f1", "Neq", Some(&["v1"]))])), ("three filters", Some(&[LIKE_DICT, f("g1", "n", "Empty", None), f("g1", "f_dict64", "Eq", Some(&["v1"]))]))];
    const PS: &[(&str, Option<&[(&str, &str)]>)] = &[("all properties", None), ("one property", Some(&[("g1", "p")])), ("three properties", Some(&[("g1", "p_dict32"), ("g1", "p"), ("g1", "p")]))];
    for (tn, time) in [("no time", None), ("between", Some(Time::Between)), ("from", Some(Time::From))] {
        for (fnm, fs) in FILTERS {
            for (pn, ps) in PS {
                for (sn, sort) in [("no sort", None), ("ascending", Some("Asc")), ("descending", Some("Desc"))] {
                    let req = format!(
                        "query::group_records::GroupRecordsSearchRequest{{time: {}, group_id: 1, filters: {}, properties: {}, sort: {}}}",
                        time.map(|t| format!("Some({})", t.term())).unwrap_or("None".into()),
                        opt(fs.map(|l| l.iter().map(|x| x.term()).collect())),
                        opt(ps.map(|l| l.iter().map(|(r, n)| pref(r, n)).collect())),
                        sort.map(|d| format!("Some(({}, common::types::SortDirection::{d}))", pref("g1", "p"))).unwrap_or("None".into())
                    );
                    let mut c: Set = time.map(|t| t.conj()).unwrap_or_default();
                    c.insert(own());
                    c.extend(conj(fs.unwrap_or(&[])));
                    let before: Set = fs.unwrap_or(&[]).iter().filter_map(|x| x.decoded()).collect();
                    let sel = selected(*ps, &[1], false);
                    let mut w = Feats::new();
                    w.insert("filter", show(&c));
                    w.insert("decoded before filtering", show(&before));
                    if let Some(d) = sort {
                        w.insert("sort", format!("[Sort(Sort(asc: {}, expr: col g1:p, nulls_first: false))] fetch None", d == "Asc"));
                    }
                    w.insert("limit", "100 from 0".into());
                    w.insert("order", if sort.is_some() { "Limit over Sort over Filter" } else { "Limit over Filter" }.into());
                    w.insert("input", "input".into());
                    output(&mut w, &sel, ps.is_some(), &before);
                    want(ck, "query::group_records::build_search_plan", &format!("{tn}, {fnm}, {pn}, {sn}"), &["ctx", "metadata", "input", &req], &w, Some(&props_text(&sel)));
                }
            }
        }
    }
    let mut w = Feats::new();
    let c: Set = [own(), "Eq(col id, lit key(group_1/g1:id/ctx.project_id id))".to_string()].into();
    w.insert("filter", show(&c));
    w.insert("decoded before filtering", "".into());
    let sel = selected(None, &[1], false);
    output(&mut w, &sel, false, &Set::new());
    w.remove("names");
    w.insert("order", "Filter".into());
    w.insert("input", "input".into());
    want(ck, "query::group_records::build_get_by_id_plan", "by id", &["ctx", "metadata", "input", "1", "id"], &w, None);
}


// ---------------------------------------------------------------- plans compared operator by operator
type Op = (String, BTreeMap<String, String>);
/// operators along the first inputs; neighbouring filters are one, lists that are sets are sorted
fn ops(n: &Node) -> Vec<Op> {
    let mut v: Vec<(String, BTreeMap<String, String>, Set)> = vec![];
    for x in n.chain() {
        if x.kind == "Filter" {
            match v.last_mut() {
                Some(l) if l.0 == "Filter" => l.2.extend(x.conj.iter().cloned()),
                _ => v.push(("Filter".into(), BTreeMap::new(), x.conj.clone())),
            }
            continue;
        }
        let mut m = BTreeMap::new();
        for (k, t) in &x.par {
            let t = match (x.kind.as_str(), k.as_str()) {
                ("DictionaryDecodeNode", _) | ("RenameColumnsNode", _) | ("RenameColumnRowsNode", "rename") => {
                    let l = x.list(k);
                    let s: Set = l.iter().cloned().collect();
                    if s.len() == l.len() {
                        show(&s)
                    } else {
                        format!("duplicated: {}", l.join("; "))
                    }
                }
                _ => t.clone(),
            };
            m.insert(k.clone(), t);
        }
        v.push((x.kind.clone(), m, Set::new()));
        if x.kind == "MergeNode" {
            break;
        }
    }
    v.into_iter()
        .map(|(k, mut m, c)| {
            if k == "Filter" {
                m.insert("conditions".into(), show(&c));
            }
            (k, m)
        })
        .collect()
}
fn op(k: &str, p: &[(&str, String)]) -> Op {
    (k.to_string(), p.iter().map(|x| (x.0.to_string(), x.1.clone())).collect())
}
fn fop(s: &Set) -> Op {
    op("Filter", &[("conditions", show(s))])
}
fn same(ck: &mut Ck, key: &str, case: &str, at: (&str, usize), got: &[Op], w: &[Op]) {
    let ks = |l: &[Op]| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" over ");
    if !ck.req("plan", ks(got) == ks(w), format!("{key} {case}: operators"), at, format!("{key}, {case}: the plan must be {}, is {}", ks(w), ks(got))) {
        return;
    }
    for (g, w) in got.iter().zip(w) {
        let names: BTreeSet<&String> = g.1.keys().chain(w.1.keys()).collect();
        for n in names {
            let (a, b) = (w.1.get(n).map(|s| s.as_str()).unwrap_or("none"), g.1.get(n).map(|s| s.as_str()).unwrap_or("none"));
            ck.req("plan", a == b, format!("{key} {case}: {} {n}", g.0), at, format!("{key}, {case}: {n} of {} must be `{a}`, is `{b}`", g.0));
        }
    }
}
fn wants<'m>(ck: &mut Ck<'m>, path: &str, case: &str, args: &[&str], w: &[Op]) -> Option<Vec<Node>> {
    let (r, at) = run(ck, path, None, args)?;
    let name = path.split("::").nth(1).unwrap_or("");
    let key = format!("{name} plan");
    if !ck.req("plan", !r.is_empty(), format!("{key} {case}"), at, format!("{name} gives no plan for {case}")) {
        return None;
    }
    for (n, _) in &r {
        same(ck, &key, case, at, &ops(n), w);
    }
    Some(r.into_iter().map(|x| x.0).collect())
}
/// columns read from storage: each needed one, none twice
fn reads<'m>(ck: &mut Ck<'m>, path: &str, case: &str, args: &[&str], need: &Set) {
    let Some(f) = ck.func(path) else { return };
    let mut it = interp(ck);
    let av: Vec<Vid> = args.iter().map(|s| term(&mut it, s)).collect();
    let r = super::eval::results(ck, &mut it, f, None, Some(av), true);
    let at = (f.file.as_str(), f.line);
    let name = path.split("::").nth(1).unwrap_or("");
    ck.req("columns read", !r.is_empty(), format!("{name} columns read {case}"), at, format!("{name}: no list of columns to read for {case}"));
    for v in r {
        let got: Vec<String> = match it.a.get(v).clone() {
            Val::List { must, may } if may.is_empty() => must.iter().map(|x| norm(&it.a, *x).trim_matches('"').to_string()).collect(),
            _ => vec![format!("?{}", norm(&it.a, v))],
        };
        let s: Set = got.iter().cloned().collect();
        ck.req("columns read", s.len() == got.len(), format!("{name} columns read {case}: twice"), at, format!("{name}, {case}: a column is read twice: {}", got.join(", ")));
        for n in need {
            ck.req("columns read", s.contains(n), format!("{name} columns read {case}: {n}"), at, format!("{name}, {case}: the plan uses column {n}, which is not read from storage (reads {})", got.join(", ")));
        }
    }
}
fn evref(n: &str) -> String {
    format!("common::query::EventRef::RegularName({n:?})")
}
fn filters(fs: Option<&[F]>) -> String {
    opt(fs.map(|f| f.iter().map(|x| x.term()).collect()))
}
type P = (&'static str, &'static str);
fn brk(p: Option<&[P]>) -> String {
    opt(p.map(|l| l.iter().map(|(r, n)| format!("common::query::Breakdown::Property({})", pref(r, n))).collect()))
}
fn pcol(p: &P) -> String {
    format!("{}:{}", p.0, p.1)
}
fn decode(cols: &Set) -> Vec<Op> {
    if cols.is_empty() {
        vec![]
    } else {
        vec![op("DictionaryDecodeNode", &[("decode_cols", show(cols))])]
    }
}

fn properties(ck: &mut Ck) {
    const PS: &[P] = &[("ev", "p"), ("ev", "p_dict16"), ("g2", "p"), ("g0", "p_dict64")];
    const FS: &[(&str, Option<(&str, Option<&[&str]>)>)] = &[("no filter", None), ("equal", Some(("Eq", Some(&["v1", "v2"])))), ("unlike", Some(("NotLike", Some(&["v1", "v2"])))), ("empty", Some(("Empty", None)))];
    for p in PS {
        for ev_ in [None, Some("e1")] {
            for (fnm, fl) in FS {
                let ft = match fl {
                    None => "None".to_string(),
                    Some((o, v)) => format!("Some(query::properties::Filter{{operation: common::query::PropValueOperation::{o}, value: {}}})", opt(v.map(|v| v.iter().map(|x| format!("datafusion_common::ScalarValue::Utf8(Some({x}))")).collect()))),
                };
                let req = format!("query::properties::PropertyValues{{property: {}, event: {}, filter: {ft}}}", pref(p.0, p.1), ev_.map(|e| format!("Some({})", evref(e))).unwrap_or("None".into()));
                let mut w = vec![op("Limit", &[("fetch", "1000".to_string()), ("skip", "0".into())])];
                w.push(op("Sort", &[("expr", format!("[Sort(Sort(asc: true, expr: col {}, nulls_first: false))]", pcol(p))), ("fetch", "None".into())]));
                if let Some((o, v)) = fl {
                    // values are compared as text once the dictionary is decoded
                    let name: &'static str = if bits(p.1).is_some() { "text" } else { p.1 };
                    let e = F { reg: p.0, name, op: o, vals: *v };
                    let c: Set = conj(&[e]).into_iter().map(|s| s.replace(":text", &format!(":{}", p.1))).collect();
                    w.push(fop(&c));
                }
                if bits(p.1).is_some() {
                    w.push(op("DictionaryDecodeNode", &[("decode_cols", dict(p.0, p.1))]));
                }
                w.push(op("Aggregate", &[("1", format!("[col {}]", pcol(p))), ("2", "[]".into())]));
                let mut c: Set = [own()].into();
                c.extend(ev_.map(ev));
                w.push(fop(&c));
                w.push(op("input", &[]));
                let case = format!("{} of {}, {}, {fnm}", p.1, p.0, if ev_.is_some() { "one event" } else { "any event" });
                wants(ck, "query::properties::LogicalPlanBuilder::build", &case, &["ctx", "metadata", "input", &req], &w);
                let mut need: Set = ["project_id".to_string(), pcol(p)].into();
                if ev_.is_some() {
                    need.insert("event".into());
                }
                reads(ck, "query::properties::projection", &case, &["ctx", &req, "metadata"], &need);
            }
        }
    }
}

struct Fun {
    name: &'static str,
    /// events of each step, order
    steps: &'static [(&'static [Ev], Option<&'static [(usize, usize)]>)],
    count: &'static str,
    filter: Option<(&'static str, &'static str)>,
    touch: Option<(&'static str, &'static str)>,
    constants: Option<&'static [P]>,
    exclude: Option<&'static [(Ev, Option<Option<(usize, usize)>>)]>,
    breakdowns: Option<&'static [P]>,
    filters: Option<&'static [F]>,
    chart: (&'static str, &'static str),
    window: (&'static str, &'static str),
    time: Time,
    group: usize,
}
const S1: &[(&[Ev], Option<&[(usize, usize)]>)] = &[(&[("e1", None)], None), (&[("e2", None)], None)];
const FUN: Fun = Fun { name: "plain", steps: S1, count: "Unique", filter: None, touch: None, constants: None, exclude: None, breakdowns: None, filters: None, chart: ("Steps", "None"), window: ("Day", "days(n)"), time: Time::Between, group: 0 };
const LIKE2: F = f("ev", "l2_dict8", "NotRegex", Some(&["v4"]));
const LIKE_B: F = f("ev", "b_dict8", "Like", Some(&["v1"]));
const LIKE3: F = f("ev", "l3_dict8", "Regex", Some(&["v5"]));
fn each(l: &Ev) -> String {
    let mut s: Set = [ev(l.0)].into();
    s.extend(conj(l.1.unwrap_or(&[])));
    and(s)
}
fn funnel(ck: &mut Ck) {
    let conv = ("ConversionOverTime{interval_unit: common::query::TimeIntervalUnit::Week}", "Week");
    let cases = [
        FUN,
        Fun { name: "filtered steps", steps: &[(&[("e1", Some(&[EQ_DICT, LIKE_DICT])), ("e2", None)], None), (&[("e3", Some(&[EQ]))], None), (&[("e1", None)], Some(&[(0, 1), (1, 2)]))], group: 3, ..FUN },
        Fun { name: "sessions, drop-off", count: "Session", filter: Some(("DropOffOnStep(k)", "DropOffOnStep(k)")), touch: Some(("Step{step: k}", "Step(k)")), chart: conv, ..FUN },
        Fun { name: "all, any drop-off", count: "NonUnique", filter: Some(("DropOffOnAnyStep", "DropOffOnAnyStep")), touch: Some(("First", "First")), window: ("Hour", "hours(n)"), time: Time::From, ..FUN },
        Fun { name: "time to convert", filter: Some(("TimeToConvert(a, b)", "TimeToConvert(milliseconds(a), milliseconds(b))")), touch: Some(("Last", "Last")), window: ("Week", "weeks(n)"), group: 2, ..FUN },
        Fun { name: "constants", constants: Some(&[("ev", "h"), ("g1", "h")]), ..FUN },
        Fun { name: "excluded", exclude: Some(&[(("x1", Some(&[EQ, LIKE3])), Some(None)), (("x2", None), Some(Some((0, 1)))), (("x3", None), None)]), ..FUN },
        Fun { name: "broken down", breakdowns: Some(&[("ev", "b"), ("g1", "b_dict8"), ("ev", "b_dict16")]), filters: Some(&[EQ_DICT, NULL]), ..FUN },
        Fun {
            name: "everything",
            steps: &[(&[("e1", Some(&[LIKE_DICT]))], None), (&[("e2", Some(&[LIKE2]))], None)],
            filters: Some(&[LIKE2, EQ]),
            exclude: Some(&[(("x1", Some(&[LIKE3])), Some(None))]),
            breakdowns: Some(&[("ev", "l2_dict8"), ("ev", "z_dict8"), ("ev", "z_dict8")]),
            constants: Some(&[("g0", "h")]),
            time: Time::From,
            group: 4,
            ..FUN
        },
    ];
    for c in &cases {
        let step = |(e, o): &(&'static [Ev], Option<&'static [(usize, usize)]>)| {
            let es: Vec<String> = e.iter().map(|x| format!("common::funnel::Event{{event: {}, filters: {}}}", evref(x.0), filters(x.1))).collect();
            let o = match o {
                None => "Exact".to_string(),
                Some(l) => format!("Any([{}])", l.iter().map(|x| format!("({}, {})", x.0, x.1)).collect::<Vec<_>>().join(", ")),
            };
            format!("common::funnel::Step{{events: [{}], order: common::funnel::StepOrder::{o}}}", es.join(", "))
        };
        let excl = |(e, s): &(Ev, Option<Option<(usize, usize)>>)| {
            let s = match s {
                None => "None".to_string(),
                Some(None) => "Some(common::funnel::ExcludeSteps::All)".into(),
                Some(Some((a, b))) => format!("Some(common::funnel::ExcludeSteps::Between({a}, {b}))"),
            };
            format!("common::funnel::Exclude{{event: {}, filters: {}, steps: {s}}}", evref(e.0), filters(e.1))
        };
        let some = |p: &str, x: Option<(&str, &str)>| x.map(|x| format!("Some(common::funnel::{p}::{})", x.0)).unwrap_or("None".into());
        let req = format!(
            "common::funnel::Funnel{{time: {}, group_id: {}, steps: [{}], time_window: common::funnel::TimeWindow{{n: n, unit: common::funnel::TimeIntervalUnitSession::{}}}, chart_type: common::funnel::ChartType::{}, count: common::funnel::Count::{}, filter: {}, touch: {}, holding_constants: {}, exclude: {}, breakdowns: {}, segments: None, filters: {}}}",
            c.time.term(),
            c.group,
            c.steps.iter().map(step).collect::<Vec<_>>().join(", "),
            c.window.0,
            c.chart.0,
            c.count,
            some("Filter", c.filter),
            some("Touch", c.touch),
            opt(c.constants.map(|l| l.iter().map(|p| pref(p.0, p.1)).collect())),
            opt(c.exclude.map(|l| l.iter().map(excl).collect())),
            brk(c.breakdowns),
            filters(c.filters),
        );
        // what it must become
        let all_filters: Vec<&F> = c.steps.iter().flat_map(|s| s.0.iter()).chain(c.exclude.unwrap_or(&[]).iter().map(|x| &x.0)).flat_map(|e| e.1.unwrap_or(&[])).chain(c.filters.unwrap_or(&[])).collect();
        let before: Set = all_filters.iter().filter_map(|x| x.decoded()).collect();
        let mut own_: Set = c.time.conj();
        own_.insert(own());
        own_.extend(conj(c.filters.unwrap_or(&[])));
        let steps: Vec<String> = c
            .steps
            .iter()
            .map(|(e, o)| {
                let o = match o {
                    None => "Exact".to_string(),
                    Some(l) => format!("Any([{}])", l.iter().map(|x| format!("({}, {})", x.0, x.1)).collect::<Vec<_>>().join(", ")),
                };
                format!("({}, {o})", or(e.iter().map(each).collect()))
            })
            .collect();
        let exclude = c.exclude.map(|l| {
            let v: Vec<String> = l
                .iter()
                .map(|(e, s)| {
                    let s = match s {
                        None => "None".to_string(),
                        Some(None) => format!("ExcludeSteps(from: 0, to: {})", c.steps.len() - 1),
                        Some(Some((a, b))) => format!("ExcludeSteps(from: {a}, to: {b})"),
                    };
                    format!("ExcludeExpr(expr: {}, steps: {s})", each(e))
                })
                .collect();
            format!("[{}]", v.join(", "))
        });
        let groups = c.breakdowns.map(|l| format!("[{}]", l.iter().map(|p| format!("(col {0}, \"{0}\", SortField(data_type: data_type({0})))", pcol(p))).collect::<Vec<_>>().join(", ")));
        let constants = c.constants.map(|l| format!("[{}]", l.iter().map(|p| format!("col {}", pcol(p))).collect::<Vec<_>>().join(", ")));
        let none = |x: Option<String>| x.unwrap_or("None".into());
        let (from, to) = match c.time {
            Time::Between => ("t0", "t1"),
            Time::From => ("t0", "ctx.cur_time"),
        };
        let dec: Set = c.breakdowns.unwrap_or(&[]).iter().filter(|p| bits(p.1).is_some()).map(|p| dict(p.0, p.1)).filter(|d| !before.contains(d)).collect();
        let mut w = decode(&dec);
        w.push(op(
            "FunnelNode",
            &[
                ("ts_col", "col created_at".into()),
                ("from", from.into()),
                ("to", to.into()),
                ("window", c.window.1.into()),
                ("steps", format!("[{}]", steps.join(", "))),
                ("exclude", none(exclude)),
                ("constants", none(constants)),
                ("count", c.count.into()),
                ("filter", none(c.filter.map(|x| x.1.into()))),
                ("touch", none(c.touch.map(|x| x.1.into()))),
                ("time_interval", c.chart.1.into()),
                ("groups", none(groups)),
                ("partition_col", format!("col group_{}", c.group)),
                ("partition_inputs", "None".into()),
            ],
        ));
        w.push(fop(&own_));
        w.extend(decode(&before));
        w.push(op("input", &[]));
        wants(ck, "query::funnel::build", c.name, &["ctx", "metadata", "input", &req], &w);
        let mut need: Set = ["project_id", "created_at", "event"].into_iter().map(|s| s.to_string()).collect();
        need.insert(format!("group_{}", c.group));
        need.extend(all_filters.iter().map(|x| x.col()));
        need.extend(c.constants.unwrap_or(&[]).iter().chain(c.breakdowns.unwrap_or(&[])).map(pcol));
        reads(ck, "query::funnel::projection", c.name, &["ctx", &req, "metadata"], &need);
    }
}

/// a query of event segmentation: request, aggregate (partial), name of its column, title of its rows
struct Q {
    req: String,
    agg: Box<dyn Fn(&str, &str, Option<&str>) -> String>,
    col: &'static str,
    title: String,
    reads: Option<String>,
}
fn queries() -> Vec<Q> {
    let mut v = vec![];
    let count = |distinct: bool, f: &'static str| -> Box<dyn Fn(&str, &str, Option<&str>) -> String> {
        Box::new(move |g, p, _| format!("PartitionedCount(distinct: {distinct}, filter: None, groups: {g}, outer_fn: {f}, partition_col: col {p})"))
    };
    v.push(Q { req: "CountEvents".into(), agg: Box::new(|g, p, c| format!("Count(distinct: false, filter: None, groups: {g}, partition_col: col {p}, predicate: col {})", c.unwrap_or("event"))), col: "count", title: "\"Count\"".into(), reads: None });
    v.push(Q { req: "CountUniqueGroups".into(), agg: count(true, "Count"), col: "partitioned_count", title: "\"Count unique\"".into(), reads: None });
    v.push(Q { req: "DailyActiveGroups".into(), agg: count(true, "Count"), col: "partitioned_count", title: "\"Daily active\"".into(), reads: None });
    for a in ["Count", "Sum", "Min", "Max", "Avg"] {
        v.push(Q { req: format!("CountPerGroup{{aggregate: common::query::AggregateFunction::{a}}}"), agg: count(false, a), col: "partitioned_count", title: format!("\"{a}\""), reads: None });
        let p: P = if a == "Sum" { ("g1", "q") } else { ("ev", "q") };
        v.push(Q {
            req: format!("AggregateProperty{{property: {}, aggregate: common::query::AggregateFunction::{a}}}", pref(p.0, p.1)),
            agg: Box::new(move |g, pc, c| format!("Aggregate(agg: {a}, filter: None, groups: {g}, partition_col: col {pc}, predicate: col {})", c.map(|s| s.to_string()).unwrap_or(pcol(&p)))),
            col: "agg",
            title: format!("fmt(\"{{}}(q)\", AggregateFunction::{a})"),
            reads: Some(pcol(&p)),
        });
        for b in ["Count", "Sum", "Avg", "Min", "Max"] {
            v.push(Q {
                req: format!("AggregatePropertyPerGroup{{property: {}, aggregate_per_group: common::query::PartitionedAggregateFunction::{b}, aggregate: common::query::AggregateFunction::{a}}}", pref(p.0, p.1)),
                agg: Box::new(move |g, pc, c| format!("PartitionedAggregate(filter: None, groups: {g}, inner_fn: {b}, outer_fn: {a}, partition_col: col {pc}, predicate: col {})", c.map(|s| s.to_string()).unwrap_or(pcol(&p)))),
                col: "partitioned_agg",
                title: format!("fmt(\"{{}}({{}}(q))\", AggregateFunction::{a}, PartitionedAggregateFunction::{b})"),
                reads: Some(pcol(&p)),
            });
        }
    }
    v
}
struct Seg {
    name: String,
    compact: bool,
    time: Time,
    unit: &'static str,
    group: usize,
    /// event, its breakdowns, its queries
    events: Vec<(Ev, Option<&'static [P]>, Vec<usize>)>,
    filters: Option<&'static [F]>,
    breakdowns: Option<&'static [P]>,
}
fn segmentation(ck: &mut Ck) {
    let qs = queries();
    let base = || Seg { name: "plain".into(), compact: false, time: Time::Between, unit: "Day", group: 1, events: vec![(("e1", None), None, vec![0])], filters: None, breakdowns: None };
    let mut cases = vec![base()];
    for i in 0..qs.len() {
        cases.push(Seg { name: format!("query {}", qs[i].req.split("common::query::").map(|s| s.split(['(', '}']).next().unwrap_or("")).collect::<Vec<_>>().join(" ")), events: vec![(("e1", None), Some(&[("ev", "b")]), vec![i])], ..base() });
    }
    for u in ["Hour", "Week", "Month", "Year"] {
        cases.push(Seg { name: format!("by {u}"), unit: u, time: Time::From, group: 3, ..base() });
    }
    for compact in [false, true] {
        let n = |s: &str| format!("{s}{}", if compact { ", compact" } else { "" });
        cases.push(Seg { name: n("filters"), compact, filters: Some(&[EQ_DICT, LIKE2]), events: vec![(("e1", Some(&[LIKE_DICT, NULL])), None, vec![0, 1])], ..base() });
        cases.push(Seg { name: n("breakdowns"), compact, breakdowns: Some(&[("g0", "b"), ("ev", "b_dict8")]), events: vec![(("e1", None), Some(&[("ev", "b")]), vec![0, 5])], ..base() });
        cases.push(Seg { name: n("repeated breakdown"), compact, breakdowns: Some(&[("ev", "b_dict8")]), events: vec![(("e1", None), Some(&[("ev", "b_dict8")]), vec![0])], ..base() });
        cases.push(Seg {
            name: n("breakdown by a filtered column"),
            compact,
            filters: Some(&[LIKE_B]),
            breakdowns: Some(&[("ev", "b_dict8")]),
            ..base()
        });
        cases.push(Seg {
            name: n("two events"),
            compact,
            filters: Some(&[EQ]),
            breakdowns: Some(&[("ev", "b_dict8")]),
            events: vec![(("e1", Some(&[LIKE_DICT])), Some(&[("ev", "b")]), vec![0, 6, 2]), (("e2", Some(&[LIKE2, EQ_DICT])), Some(&[("g0", "b")]), vec![7])],
            ..base()
        });
    }
    for c in &cases {
        let ev_t = |(e, b, q): &(Ev, Option<&'static [P]>, Vec<usize>)| {
            let q: Vec<String> = q.iter().map(|i| format!("common::event_segmentation::NamedQuery{{agg: common::event_segmentation::Query::{}, name: None}}", qs[*i].req)).collect();
            format!("common::event_segmentation::Event{{event: {}, filters: {}, breakdowns: {}, queries: [{}]}}", evref(e.0), filters(e.1), brk(*b), q.join(", "))
        };
        let req = format!(
            "common::event_segmentation::EventSegmentationRequest{{time: {}, group_id: {}, interval_unit: common::query::TimeIntervalUnit::{}, chart_type: ct, analysis: an, compare: cmp, events: [{}], segments: None, filters: {}, breakdowns: {}}}",
            c.time.term(),
            c.group,
            c.unit,
            c.events.iter().map(ev_t).collect::<Vec<_>>().join(", "),
            filters(c.filters),
            brk(c.breakdowns)
        );
        let ctx = format!("query::context::Context{{project_id: ctx.project_id, format: query::context::Format::{}, cur_time: ctx.cur_time}}", if c.compact { "Compact" } else { "Regular" });
        let common = c.breakdowns.unwrap_or(&[]);
        let all_filters: Vec<&F> = c.events.iter().flat_map(|e| e.0 .1.unwrap_or(&[])).chain(c.filters.unwrap_or(&[])).collect();
        let before: Set = all_filters.iter().filter_map(|x| x.decoded()).collect();
        let all_b: Vec<&P> = c.events.iter().flat_map(|e| e.1.unwrap_or(&[])).chain(common).collect();
        let dec: Set = all_b.iter().filter(|p| bits(p.1).is_some()).map(|p| dict(p.0, p.1)).filter(|d| !before.contains(d)).collect();
        let (from, to) = match c.time {
            Time::Between => ("t0", "t1"),
            Time::From => ("t0", "ctx.cur_time"),
        };
        let rows: Set = c.events.iter().enumerate().flat_map(|(ei, e)| e.2.iter().enumerate().map(move |(qi, q)| (ei, qi, *q))).map(|(ei, qi, q)| format!("(\"{ei}_{qi}_{}\", {})", qs[q].col, qs[q].title)).collect();
        let branch = |ei: usize| -> Vec<Op> {
            let (e, b, q) = &c.events[ei];
            let mut gs: Vec<String> = vec![];
            // in the order of the input's columns
            for n in SCHEMA {
                if *n == "created_at" {
                    gs.push(format!("Alias(Alias(expr: ScalarFunction(ScalarFunction(args: [lit \"{}\", col created_at], func: new_from_impl(DateTruncFunc()))), name: \"created_at\", relation: None))", c.unit.to_lowercase()));
                } else if b.unwrap_or(&[]).iter().chain(common).any(|p| pcol(p) == *n) {
                    gs.push(format!("col {n}"));
                }
            }
            let g = format!("[{}]", gs.iter().map(|x| format!("({x}, SortField(data_type: Timestamp(Millisecond, None)))")).collect::<Vec<_>>().join(", "));
            let mut w = vec![
                op("LimitGroupsNode", &[("skip", "1".into()), ("groups", (gs.len() - 1).to_string()), ("limit", "50".into())]),
                op("AggregateAndSortColumnsNode", &[("groups", (gs.len() + 1).to_string())]),
            ];
            if !c.compact {
                w.push(op("RenameColumnRowsNode", &[("column", "col agg_name".into()), ("rename", show(&rows))]));
                w.push(op("PivotNode", &[("name_col", "col created_at".into()), ("value_col", "col value".into()), ("result_cols", format!("time_columns({from}, {to}, {})", c.unit))]));
                let cols: Vec<String> = q.iter().enumerate().map(|(qi, q)| format!("\"{ei}_{qi}_{}\"", qs[*q].col)).collect();
                w.push(op("UnpivotNode", &[("cols", format!("[{}]", cols.join(", "))), ("name_col", "\"agg_name\"".into()), ("value_col", "\"value\"".into())]));
            }
            let fin: Vec<String> = q.iter().enumerate().map(|(qi, q)| format!("({}, \"{ei}_{qi}\")", (qs[*q].agg)(&g, "segment", Some(&format!("{ei}_{qi}_{}", qs[*q].col))))).collect();
            w.push(op("PartitionedAggregateFinalNode", &[("agg_expr", format!("[{}]", fin.join(", ")))]));
            let par: Vec<String> = q.iter().enumerate().map(|(qi, q)| format!("({}, \"{ei}_{qi}\")", (qs[*q].agg)(&g, &format!("group_{}", c.group), None))).collect();
            w.push(op("PartitionedAggregatePartialNode", &[("agg_expr", format!("[{}]", par.join(", "))), ("partition_col", format!("col group_{}", c.group)), ("partition_inputs", "None".into())]));
            let mut s: Set = c.time.conj();
            s.insert(own());
            s.insert(ev(e.0));
            s.extend(conj(e.1.unwrap_or(&[])));
            s.extend(conj(c.filters.unwrap_or(&[])));
            w.push(fop(&s));
            w.extend(decode(&before));
            w.push(op("input", &[]));
            w
        };
        let mut w = vec![];
        if !c.compact {
            let mut cols = vec!["event".to_string(), "segment".into()];
            let mut names: Set = ["(\"event\", \"Event\")".to_string(), "(\"segment\", \"Segment\")".into(), "(\"agg_name\", \"Formula\")".into()].into();
            let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
            for p in &all_b {
                if cols.contains(&pcol(p)) {
                    continue;
                }
                cols.push(pcol(p));
                let k = seen.entry(p.1).or_default();
                *k += 1;
                names.insert(if *k == 1 { format!("(\"{}\", \"{}\")", pcol(p), p.1) } else { format!("(\"{}\", \"{} {k}\")", pcol(p), p.1) });
            }
            cols.push("agg_name".into());
            w.push(op("RenameColumnsNode", &[("columns", show(&names))]));
            w.push(op("ReorderColumnsNode", &[("columns", format!("[{}]", cols.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", ")))]));
        }
        w.extend(decode(&dec));
        let one = c.events.len() == 1;
        if one {
            if !c.compact {
                w.push(op("AddStringColumnNode", &[("col", format!("(\"event\", \"{}\")", c.events[0].0 .0))]));
            }
            w.extend(branch(0));
        } else {
            w.push(op("MergeNode", &[("names", format!("(\"event\", [{}])", c.events.iter().map(|e| format!("\"{}\"", e.0 .0)).collect::<Vec<_>>().join(", ")))]));
        }
        let path = "query::event_segmentation::LogicalPlanBuilder::build";
        let Some(ns) = wants(ck, path, &c.name, &[&ctx, "metadata", "input", &req], &w) else { continue };
        if !one {
            let f = ck.func(path).unwrap();
            for n in &ns {
                let mut m = vec![];
                n.all("MergeNode", &mut m);
                let kids: &[Node] = m.first().map(|x| x.kids.as_slice()).unwrap_or(&[]);
                ck.req("plan", kids.len() == c.events.len(), format!("event_segmentation plan {}: events merged", c.name), (&f.file, f.line), format!("event_segmentation, {}: {} of {} events are merged", c.name, kids.len(), c.events.len()));
                for (i, k) in kids.iter().enumerate().take(c.events.len()) {
                    same(ck, "event_segmentation plan", &format!("{}, event {}", c.name, i + 1), (&f.file, f.line), &ops(k), &branch(i));
                }
            }
        }
        let mut need: Set = ["project_id", "created_at", "event"].into_iter().map(|s| s.to_string()).collect();
        need.insert(format!("group_{}", c.group));
        need.extend(all_filters.iter().map(|x| x.col()));
        need.extend(all_b.iter().map(|p| pcol(p)));
        need.extend(c.events.iter().flat_map(|e| e.2.iter()).filter_map(|q| qs[*q].reads.clone()));
        reads(ck, "query::event_segmentation::projection", &c.name, &[&ctx, &req, "metadata"], &need);
    }
}

pub fn check(ck: &mut Ck) {
    group_records(ck);
    event_records(ck);
    properties(ck);
    funnel(ck);
    segmentation(ck);
}
