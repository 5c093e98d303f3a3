//! Calendar arithmetic of queries: units, truncation, ranges, time columns.
use std::collections::BTreeSet;

use super::eval::*;
use crate::interp::*;
use crate::report::*;
use crate::val::*;

const MS_H: i128 = 3_600_000;
const MS_D: i128 = 86_400_000;

fn unit_ms(u: &str) -> Option<i128> {
    Some(match u {
        "Hour" => MS_H,
        "Day" => MS_D,
        "Week" => 7 * MS_D,
        "Month" => 31 * MS_D,
        "Year" => 372 * MS_D,
        _ => return None,
    })
}
fn unit_rel(u: &str, n: &str) -> Option<Poly> {
    Some(match u {
        "Hour" => lin(&[(n, MS_H)]),
        "Day" => lin(&[(n, MS_D)]),
        "Week" => lin(&[(n, 7 * MS_D)]),
        "Month" => lin(&[(&format!("{n}*month"), 1)]),
        "Year" => lin(&[(&format!("{n}*month"), 12)]),
        _ => return None,
    })
}

/// which calendar fields a chain of with_X calls resets, and whether the weekday is subtracted
fn cleared(a: &Arena, v: Vid, out: &mut Vec<String>) -> Result<String, String> {
    match a.get(v) {
        Val::Param(p) => Ok(p.clone()),
        Val::Elem(x) => cleared(a, *x, out),
        Val::Coll { body, .. } => cleared(a, *body, out),
        Val::Ctor { p, f } if (p == "Some" || p == "Ok") && f.len() == 1 => cleared(a, f[0].1, out),
        Val::Bin(o, x, y) if o == "-" => {
            let p = poly(a, *y);
            let ok = p.len() == 1 && p.iter().all(|(k, c)| *c == MS_D && !k.is_empty() && (k.contains(".weekday(") || k.contains(".num_days_from_monday(")));
            out.push(if ok { "weekday".into() } else { format!("- {}", pshow(&p)) });
            cleared(a, *x, out)
        }
        Val::Call { f, args } => {
            let l = f.trim_start_matches('.');
            if l.starts_with("with_") && args.len() == 2 {
                let n = match a.get(args[1]) {
                    Val::Lit(s) => lit_int(s),
                    _ => None,
                };
                let field = &l[5..];
                let (name, zero) = match field {
                    "day0" => ("day", 0),
                    "day" => ("day", 1),
                    "month0" => ("month", 0),
                    "month" => ("month", 1),
                    x => (x, 0),
                };
                out.push(if n == Some(zero) { name.to_string() } else { format!("{field}={}", a.show(args[1])) });
                return cleared(a, args[0], out);
            }
            if l.starts_with("and_hms") {
                for (x, n) in args[1..].iter().zip(["hour", "minute", "second"]) {
                    let z = matches!(a.get(*x), Val::Lit(s) if lit_int(s) == Some(0));
                    out.push(if z { n.into() } else { format!("{n}={}", a.show(*x)) });
                }
                out.push("nanosecond".into());
                return cleared(a, args[0], out);
            }
            if matches!(l, "date_naive" | "and_utc" | "naive_utc" | "unwrap" | "single" | "earliest" | "date" | "and_local_timezone") {
                return cleared(a, args[0], out);
            }
            Err(a.show(v))
        }
        _ => Err(a.show(v)),
    }
}

pub fn check(ck: &mut Ck) {
    ck.rule("polynomial normal form (milliseconds and calendar months) of every unit's duration and relative duration");
    ck.rule("set of calendar fields reset by date_trunc per granularity = exactly the fields below it; weeks start on Monday");
    ck.rule("time columns run from the truncated start, stepping by the granularity, to one unit past the truncated end");
    let units = ["common::query::TimeIntervalUnit", "common::funnel::TimeIntervalUnitSession"];
    for u in units {
        let vs = variants(ck.m, u);
        if vs.len() < 5 {
            ck.fail(format!("anchor:{u}"), "", 0, "enum not found");
        }
        for meth in ["duration", "relative_duration", "as_str"] {
            let Some(f) = ck.func(&format!("{u}::{meth}")) else { continue };
            let at = (f.file.as_str(), f.line);
            for v in &vs {
                let mut it = Interp::new(ck.m);
        it.eval_consts = true;
                let s = variant(&mut it, u, v);
                let n = it.param("n");
                let args = if f.params.is_empty() { vec![] } else { vec![n] };
                let r = results(ck, &mut it, f, Some(s), Some(args), false);
                let key = format!("{u}::{meth}#{v}");
                let (ok, want, got) = if meth == "as_str" {
                    let w = format!("{:?}", v.to_lowercase());
                    let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
                    (g.len() == 1 && g[0] == w, w, g.join(" or "))
                } else {
                    let w = if meth == "duration" { unit_ms(v).map(|k| lin(&[("n", k)])) } else { unit_rel(v, "n") };
                    let g: Vec<Poly> = r.iter().map(|x| poly(&it.a, *x)).collect();
                    let gs = g.iter().map(pshow).collect::<Vec<_>>().join(" or ");
                    match w {
                        Some(w) => (g.len() == 1 && g[0] == w, pshow(&w), gs),
                        None => (g.is_empty(), "refused".into(), gs),
                    }
                };
                ck.req("unit-arithmetic", ok, key, at, format!("{}: {v}: must be {want}, is {got}", f.path));
            }
        }
    }
    // truncation
    let below = ["nanosecond", "second", "minute", "hour", "day", "month"];
    let u = "common::query::TimeIntervalUnit";
    let depth = |v: &str| match v {
        "Hour" => Some((3, false)),
        "Day" => Some((4, false)),
        "Week" => Some((4, true)),
        "Month" => Some((5, false)),
        "Year" => Some((6, false)),
        _ => None,
    };
    if let Some(f) = ck.func("common::query::date_trunc") {
        let at = (f.file.as_str(), f.line);
        let gpos = f.params.iter().position(|p| p.1.peel().name() == "TimeIntervalUnit").unwrap_or(0);
        for v in variants(ck.m, u) {
            let mut it = Interp::new(ck.m);
        it.eval_consts = true;
            let g = variant(&mut it, u, &v);
            let d = it.param("value");
            let args = if gpos == 0 { vec![g, d] } else { vec![d, g] };
            let r = results(ck, &mut it, f, None, Some(args), true);
            let key = format!("{}#{v}", f.path);
            let Some((n, week)) = depth(&v) else {
                ck.fail(key, &f.file, f.line, "unit without a recorded truncation");
                continue;
            };
            let mut want: BTreeSet<String> = below[..n].iter().map(|s| s.to_string()).collect();
            if week {
                want.insert("weekday".into());
            }
            let mut msg = String::new();
            let mut ok = r.len() == 1;
            for x in r {
                let mut got = vec![];
                match cleared(&it.a, x, &mut got) {
                    Err(e) => {
                        ok = false;
                        msg = format!("not a chain of calendar-field resets: {e}");
                    }
                    Ok(b) => {
                        let set: BTreeSet<String> = got.iter().cloned().collect();
                        // `got` runs from the last operation to the first: the month may only change once the day is 1
                        let (d, m) = (got.iter().position(|x| x == "day"), got.iter().position(|x| x == "month"));
                        let order = match (d, m) {
                            (Some(d), Some(m)) => m < d,
                            _ => true,
                        };
                        if set != want || b != "value" || !order {
                            ok = false;
                            msg = format!("resets {set:?} of {b}{}", if order { "" } else { ", month before day" });
                        }
                    }
                }
            }
            ck.req("truncation", ok, key, at, format!("{}: {v} must reset exactly {want:?}; {msg}", f.path));
        }
    }
    // columns
    if let Some(f) = ck.func("common::query::time_columns") {
        let at = (f.file.as_str(), f.line);
        for v in variants(ck.m, u) {
            let mut it = Interp::new(ck.m);
        it.eval_consts = true;
            it.opaque = Box::new(|f| f.name == "date_trunc");
            let args: Vec<Vid> = f
                .params
                .iter()
                .map(|p| if p.1.peel().name() == "TimeIntervalUnit" { variant(&mut it, u, &v) } else { it.param(&pat_name(&p.0)) })
                .collect();
            let r = results(ck, &mut it, f, None, Some(args), false);
            let rule = match v.as_str() {
                "Hour" => "hourly",
                "Day" => "daily",
                "Week" => "weekly",
                "Month" => "monthly",
                _ => "yearly",
            };
            let trunc = |it: &Interp, x: Vid, p: &str| -> bool {
                match it.a.get(x) {
                    Val::Call { f, args } if f.ends_with("::date_trunc") => args.iter().any(|y| access(&it.a, *y).as_deref() == Some(p)) && args.iter().any(|y| matches!(ctor(&it.a, *y), Some((c, _)) if c.ends_with(&format!("::{v}")))),
                    _ => false,
                }
            };
            let mut steps = vec![];
            let mut ends = vec![];
            let mut fmts = vec![];
            for x in &r {
                it.a.walk(*x, &mut |y, g| {
                    if let Val::Call { f, args } = g {
                        if f.contains("DateRule::") {
                            steps.push((f.rsplit("::").next().unwrap().to_string(), args.clone()));
                        }
                        if f == ".with_end" {
                            ends.push(args[1]);
                        }
                        if f == ".format" {
                            fmts.push(it.a.show(args[1]));
                        }
                    }
                    let _ = y;
                    true
                });
            }
            let one = unit_rel(&v, "").unwrap_or_default();
            let ok = steps.len() == 1
                && trunc(&it, steps[0].1[0], "from")
                && match steps[0].1.len() {
                    1 => steps[0].0 == rule,
                    2 => steps[0].0 == "new" && poly(&it.a, steps[0].1[1]) == one,
                    _ => false,
                };
            ck.req("time-columns", ok, format!("{}#{v}.start", f.path), at, format!("{}: {v} columns must step {rule} from the truncated start, step {:?}", f.path, steps.iter().map(|s| &s.0).collect::<Vec<_>>()));
            let mut eok = ends.len() == 1;
            for e in &ends {
                match it.a.get(*e).clone() {
                    Val::Bin(o, x, y) if o == "+" => {
                        let one = unit_rel(&v, "").unwrap_or_default();
                        eok &= trunc(&it, x, "to") && poly(&it.a, y) == one;
                    }
                    _ => eok = false,
                }
            }
            ck.req("time-columns", eok, format!("{}#{v}.end", f.path), at, format!("{}: {v} columns must end one unit past the truncated end, end at {:?}", f.path, ends.iter().map(|e| it.a.show(*e)).collect::<Vec<_>>()));
            ck.req("time-columns", fmts.len() == 1 && fmts[0] == "\"%Y-%m-%dT%H:%M:%S\"", format!("{}#{v}.format", f.path), at, format!("{}: column names must be ISO timestamps, format {fmts:?}", f.path));
        }
    }
    if let Some(f) = ck.func("common::event_segmentation::EventSegmentationRequest::time_columns") {
        let mut it = Interp::new(ck.m);
        it.eval_consts = true;
        it.opaque = Box::new(|f| f.path == "common::query::time_columns" || f.name == "range");
        let r = results(ck, &mut it, f, None, None, false);
        let mut ok = r.len() == 1;
        for x in &r {
            match it.a.get(*x).clone() {
                Val::Call { f, args } if f == "common::query::time_columns" && args.len() == 3 => {
                    let s: Vec<String> = args.iter().map(|y| it.a.show(*y)).collect();
                    ok &= s[0].ends_with("range(self.time, cur_time).0") && s[1].ends_with("range(self.time, cur_time).1") && s[2] == "self.interval_unit";
                }
                _ => ok = false,
            }
        }
        ck.req("time-columns", ok, f.path.clone(), (&f.file, f.line), "segmentation columns must cover the request's time range at its interval unit");
    }
    // ranges
    if let Some(f) = ck.func("common::query::QueryTime::range") {
        let at = (f.file.as_str(), f.line);
        let q = "common::query::QueryTime";
        for v in variants(ck.m, q) {
            let us = if v == "Last" { variants(ck.m, u) } else { vec!["-".into()] };
            for un in us {
                let mut it = Interp::new(ck.m);
        it.eval_consts = true;
                let mut s = variant(&mut it, q, &v);
                let tag = if v == "Last" {
                    let k = variant(&mut it, u, &un);
                    s = it.a.upd(s, "unit", k);
                    format!("Last({un})")
                } else {
                    v.clone()
                };
                let now = it.param("now");
                let r = results(ck, &mut it, f, Some(s), Some(vec![now]), false);
                let p = |it: &mut Interp, i: &str| -> Vec<String> {
                    r.iter()
                        .map(|x| {
                            let y = it.a.field(*x, i);
                            pshow(&poly(&it.a, y))
                        })
                        .collect()
                };
                let (a, b) = (p(&mut it, "0"), p(&mut it, "1"));
                let (wa, wb) = match v.as_str() {
                    "Between" => (lin(&[("Between~from", 1)]), lin(&[("Between~to", 1)])),
                    "From" => (lin(&[("From~0", 1)]), lin(&[("now", 1)])),
                    _ => {
                        let mut w = lin(&[("now", 1)]);
                        for (k, c) in unit_rel(&un, "Last~last").unwrap_or_default() {
                            w.insert(k, -c);
                        }
                        (w, lin(&[("now", 1)]))
                    }
                };
                ck.req("time-range", a == [pshow(&wa)] && b == [pshow(&wb)], format!("{}#{tag}", f.path), at, format!("{}: {tag} must be ({}, {}), is ({a:?}, {b:?})", f.path, pshow(&wa), pshow(&wb)));
            }
        }
    }
    if let Some(f) = ck.func("common::query::SegmentTime::try_window") {
        let q = "common::query::SegmentTime";
        for v in variants(ck.m, q) {
            let us = if v == "Each" { variants(ck.m, u) } else { vec!["-".into()] };
            for un in us {
                let mut it = Interp::new(ck.m);
        it.eval_consts = true;
                let mut s = variant(&mut it, q, &v);
                if v == "Each" {
                    let k = variant(&mut it, u, &un);
                    s = it.a.upd(s, "unit", k);
                }
                let r = results(ck, &mut it, f, Some(s), None, false);
                let g: Vec<String> = r.iter().map(|x| if matches!(ctor(&it.a, *x), Some(("None", _))) { "None".into() } else { pshow(&poly(&it.a, *x)) }).collect();
                let w = if v == "Each" { pshow(&lin(&[("Each~n", unit_ms(&un).unwrap_or(0))])) } else { "None".into() };
                ck.req("time-range", g == [w.clone()], format!("{}#{v}/{un}", f.path), (&f.file, f.line), format!("{}: {v} {un}: must be {w}, is {g:?}", f.path));
            }
        }
    }
    if let Some(f) = ck.func("common::funnel::ChartType::time_interval") {
        let q = "common::funnel::ChartType";
        for v in variants(ck.m, q) {
            let mut it = Interp::new(ck.m);
        it.eval_consts = true;
            let s = variant(&mut it, q, &v);
            let r = results(ck, &mut it, f, Some(s), None, false);
            let g: Vec<String> = r.iter().map(|x| it.a.show(*x)).collect();
            let has = ck.m.enums[q].variants.iter().any(|x| x.name == v && x.fields.iter().any(|y| y.0 == "interval_unit"));
            let w = if has { format!("Some{{0: {v}~interval_unit}}") } else { "None{}".into() };
            ck.req("time-range", g == [w.clone()], format!("{}#{v}", f.path), (&f.file, f.line), format!("{}: {v}: must be {w}, is {g:?}", f.path));
        }
    }
    ck.floor("unit-arithmetic", 33);
    ck.floor("truncation", 5);
    ck.floor("time-columns", 16);
    ck.floor("time-range", 20);
}
