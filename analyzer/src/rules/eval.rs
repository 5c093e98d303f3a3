//! Evaluation helpers: enum cases, linear normal forms.
use std::collections::BTreeMap;

use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// a value of enum `path`, variant `v`, with symbolic payload parameters `Variant~field`
pub fn variant<'m>(it: &mut Interp<'m>, path: &str, v: &str) -> Vid {
    let mut f = vec![];
    if let Some(e) = it.m.enums.get(path) {
        if let Some(vd) = e.variants.iter().find(|x| x.name == v) {
            for (n, _) in &vd.fields {
                let p = it.param(&format!("{v}~{n}"));
                f.push((n.clone(), p));
            }
        }
    }
    it.a.mk(Val::Ctor { p: format!("{path}::{v}"), f })
}
pub fn variants(m: &Model, path: &str) -> Vec<String> {
    m.enums.get(path).map(|e| e.variants.iter().map(|v| v.name.clone()).collect()).unwrap_or_default()
}

/// result terms of all non-error exits; Ok/Some wrappers removed when `peel`
pub fn results<'m>(ck: &mut Ck<'m>, it: &mut Interp<'m>, f: &FnDef, self_v: Option<Vid>, args: Option<Vec<Vid>>, peel: bool) -> Vec<Vid> {
    let ex = it.run(f.id, args, self_v);
    ck.absorb(it);
    ck.paths += ex.len();
    let mut r = vec![];
    for e in ex {
        for v in it.a.alts(e.v) {
            let v = match it.a.get(v).clone() {
                Val::Ctor { p, .. } if p == "Err" && peel => continue,
                Val::Ctor { p, f } if peel && (p == "Ok" || p == "Some") && f.len() == 1 => f[0].1,
                _ => v,
            };
            for x in it.a.alts(v) {
                if !r.contains(&x) {
                    r.push(x);
                }
            }
        }
    }
    r
}

pub fn unquote(s: &str) -> Option<&str> {
    s.strip_prefix('"').and_then(|s| s.strip_suffix('"'))
}
pub fn lit_int(s: &str) -> Option<i128> {
    let s = s.replace('_', "");
    let d: String = s.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
    d.parse().ok()
}

pub type Poly = BTreeMap<String, i128>;

fn pconst(c: i128) -> Poly {
    let mut p = Poly::new();
    if c != 0 {
        p.insert(String::new(), c);
    }
    p
}
fn atom(s: String) -> Poly {
    [(s, 1)].into()
}
fn padd(a: &Poly, b: &Poly, k: i128) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        *r.entry(m.clone()).or_default() += c * k;
    }
    r.retain(|_, c| *c != 0);
    r
}
fn pmul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut k: Vec<&str> = m.split('*').chain(n.split('*')).filter(|x| !x.is_empty()).collect();
            k.sort();
            *r.entry(k.join("*")).or_default() += c * d;
        }
    }
    r.retain(|_, c| *c != 0);
    r
}

/// Integer polynomial normal form; durations are in milliseconds, calendar months in the unit atom `month`.
pub fn poly(a: &Arena, v: Vid) -> Poly {
    match a.get(v) {
        Val::Lit(s) => match lit_int(s) {
            Some(c) => pconst(c),
            None => atom(s.clone()),
        },
        Val::Cast(x, _) => poly(a, *x),
        Val::Bin(o, x, y) => {
            let (p, q) = (poly(a, *x), poly(a, *y));
            match o.as_str() {
                "+" => padd(&p, &q, 1),
                "-" => padd(&p, &q, -1),
                "*" => pmul(&p, &q),
                "/" if q.len() == 1 && q.contains_key("") && p.values().all(|c| c % q[""] == 0) => p.iter().map(|(k, c)| (k.clone(), c / q[""])).collect(),
                _ => atom(format!("({} {} {})", pshow(&p), o, pshow(&q))),
            }
        }
        Val::Call { f, args } => {
            let last = last_seg(f).trim_start_matches('.');
            let dur = f.contains("Duration::") || f.contains("TimeDelta::");
            if dur && args.len() == 1 {
                let k: Option<(i128, &str)> = match last.trim_start_matches("try_") {
                    "milliseconds" | "from_millis" => Some((1, "")),
                    "seconds" | "from_secs" => Some((1000, "")),
                    "minutes" => Some((60_000, "")),
                    "hours" => Some((3_600_000, "")),
                    "days" => Some((86_400_000, "")),
                    "weeks" => Some((604_800_000, "")),
                    "months" => Some((1, "month")),
                    "years" => Some((12, "month")),
                    _ => None,
                };
                if let Some((k, u)) = k {
                    let mut p = pmul(&poly(a, args[0]), &pconst(k));
                    if !u.is_empty() {
                        p = pmul(&p, &atom(u.into()));
                    }
                    return p;
                }
            }
            match (last, args.len()) {
                ("num_milliseconds", 1) | ("unwrap", 1) | ("into", 1) | ("try_into", 1) | ("as_millis", 1) | ("clone", 1) => poly(a, args[0]),
                ("num_seconds", 1) | ("as_secs", 1) => {
                    let p = poly(a, args[0]);
                    if p.values().all(|c| c % 1000 == 0) {
                        p.iter().map(|(k, c)| (k.clone(), c / 1000)).collect()
                    } else {
                        atom(format!("secs({})", pshow(&p)))
                    }
                }
                _ => atom(a.show_d(v, 12)),
            }
        }
        Val::Ctor { p, f } if (p == "Ok" || p == "Some") && f.len() == 1 => poly(a, f[0].1),
        _ => atom(access(a, v).unwrap_or_else(|| a.show_d(v, 12))),
    }
}
pub fn pshow(p: &Poly) -> String {
    if p.is_empty() {
        return "0".into();
    }
    p.iter()
        .map(|(k, c)| match (k.as_str(), *c) {
            ("", c) => c.to_string(),
            (k, 1) => k.to_string(),
            (k, c) => format!("{c}*{k}"),
        })
        .collect::<Vec<_>>()
        .join(" + ")
}
pub fn lin(terms: &[(&str, i128)]) -> Poly {
    let mut p = Poly::new();
    for (k, c) in terms {
        let mut m: Vec<&str> = k.split('*').filter(|x| !x.is_empty()).collect();
        m.sort();
        p.insert(m.join("*"), *c);
    }
    p
}
