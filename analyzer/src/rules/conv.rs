//! Conversions between sibling types: enum->enum tables and struct->struct field flow.
use std::collections::{BTreeMap, BTreeSet};

use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// same meaning under two names
pub fn alias(n: &str) -> &str {
    match n {
        "Neq" => "NotEq",
        "Gte" => "GtEq",
        "Lte" => "LtEq",
        "Regex" => "RegexMatch",
        "NotRegex" => "RegexNotMatch",
        "Utf8" => "String",
        "Decimal128" => "Decimal",
        n => n,
    }
}

pub struct EnumConv {
    /// source variant -> (result variants, result field -> roots)
    pub map: BTreeMap<String, BTreeSet<String>>,
}

pub fn conv_source(f: &FnDef) -> Ty {
    if f.has_self {
        f.self_ty.clone().unwrap_or(Ty::Unknown)
    } else {
        f.params.first().map(|p| p.1.clone()).unwrap_or(Ty::Unknown)
    }
}
pub fn conv_target(f: &FnDef) -> Ty {
    let t = f.ret.clone();
    if matches!(t.name(), "Result" | "Option") {
        t.arg(0)
    } else {
        t
    }
}

/// evaluates a conversion on one constructor of the source enum: result terms of the Ok/plain exits
pub fn eval_variant<'m>(ck: &mut Ck<'m>, f: &'m FnDef, cp: &str, fields: &[(String, Vid)], it: &mut Interp<'m>) -> Vec<Vid> {
    let v = it.a.mk(Val::Ctor { p: cp.into(), f: fields.to_vec() });
    let ex = if f.has_self { it.run(f.id, None, Some(v)) } else { it.run(f.id, Some(vec![v]), None) };
    ck.paths += ex.len();
    let mut r = vec![];
    for e in ex {
        for x in it.a.alts(e.v) {
            match it.a.get(x).clone() {
                Val::Ctor { p, .. } if p == "Err" => {}
                Val::Ctor { p, f } if p == "Ok" && f.len() == 1 => r.extend(it.a.alts(f[0].1)),
                Val::Ctor { p, f } if p == "Some" && f.len() == 1 => r.extend(it.a.alts(f[0].1)),
                _ => r.push(x),
            }
        }
    }
    r
}

/// result constructor name (or literal)
pub fn res_name(a: &Arena, v: Vid) -> String {
    match a.get(v) {
        Val::Ctor { p, .. } => last_seg(p).to_string(),
        Val::Call { f, .. } => last_seg(f).trim_start_matches('.').to_string(),
        Val::Const(c) => last_seg(c).to_string(),
        Val::Cast(x, _) => res_name(a, *x),
        _ => a.show(v),
    }
}
pub fn res_fields(a: &Arena, v: Vid) -> Vec<(String, Vid)> {
    match a.get(v) {
        Val::Ctor { f, .. } => f.clone(),
        Val::Call { args, .. } => args.iter().enumerate().map(|(i, x)| (i.to_string(), *x)).collect(),
        _ => vec![],
    }
}

pub fn label(f: &FnDef) -> String {
    format!("{}->{}", short(&conv_source(f)), short(&conv_target(f)))
}
/// type name used in table rows and keys
pub fn short(t: &Ty) -> String {
    let t = t.peel();
    match &t {
        Ty::Path(p, _) => p.clone(),
        _ => "_".into(),
    }
}
fn is_conv(f: &FnDef) -> bool {
    matches!(f.trait_.as_deref().map(last_seg).unwrap_or(""), "From" | "Into" | "TryFrom" | "TryInto")
}

/// Expected outcomes that differ from "same-named variant / same-named field".
pub struct Table {
    /// (conversion label, source variant or target field, expectation)
    /// expectation for variants: "!" = refused (panic/Err), "=Name" = maps to Name, "?" = anything
    /// expectation for fields: "?" = anything, "-" = no source field, "a,b" = exactly these source fields
    pub rows: &'static [(&'static str, &'static str, &'static str)],
}
impl Table {
    pub fn get(&self, l: &str, k: &str) -> Option<&'static str> {
        self.rows.iter().find(|r| r.0 == l && r.1 == k).map(|r| r.2)
    }
}

pub fn check_enum<'m>(ck: &mut Ck<'m>, f: &'m FnDef, variants: &[(String, Vec<String>)], src: &str, tab: &Table, kind: &str) {
    let l = label(f);
    let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (vn, vf) in variants {
        let mut it = Interp::new(ck.m);
        it.opaque = Box::new(is_conv);
        let mut fields = vec![];
        for n in vf {
            let p = it.param(&format!("{vn}~{n}"));
            fields.push((n.clone(), p));
        }
        let rs = eval_variant(ck, f, &format!("{src}::{vn}"), &fields, &mut it);
        ck.absorb(&it);
        let key = format!("{l}#{vn}");
        let at = (f.file.as_str(), f.line);
        let exp = tab.get(&l, vn);
        if exp == Some("?") {
            continue;
        }
        if exp == Some("!") {
            // refusing is the recorded behaviour; producing the right value is fine too
            if rs.is_empty() {
                ck.req(kind, true, key, at, "");
                continue;
            }
        }
        let want = match exp {
            Some(e) if e.starts_with('=') => e[1..].to_string(),
            _ => vn.clone(),
        };
        let got: BTreeSet<String> = rs.iter().map(|x| res_name(&it.a, *x)).collect();
        if ck.dump && !(got.len() == 1 && alias(got.iter().next().unwrap()) == alias(&want)) {
            println!("DUMP {l} | {vn} | {:?}", got);
        }
        let ok = got.len() == 1 && alias(got.iter().next().unwrap()) == alias(&want);
        ck.req(kind, ok, key.clone(), at, format!("{}: source variant {vn} must become {want}, becomes {}", f.path, if got.is_empty() { "nothing (refused)".into() } else { format!("{got:?}") }));
        if ok {
            seen.entry(got.iter().next().unwrap().clone()).or_default().push(vn.clone());
            for x in &rs {
                let tf = res_fields(&it.a, *x);
                // payload: every target field carries the same-named source field
                for (n, fv) in &tf {
                    let rts = roots(&it.a, *fv);
                    let src_has = vf.contains(n);
                    let fk = format!("{vn}.{n}");
                    let want: BTreeSet<String> = match tab.get(&l, &fk) {
                        Some("?") => continue,
                        Some("-") => BTreeSet::new(),
                        Some(w) => w.split(',').map(|s| format!("{vn}~{s}")).collect(),
                        None if src_has => [format!("{vn}~{n}")].into(),
                        None => BTreeSet::new(),
                    };
                    let got: BTreeSet<String> = rts
                        .iter()
                        .map(|r| {
                            let tail = r.find(|c| matches!(c, '.' | '[')).unwrap_or(r.len());
                            // keep the parameter name only: V~field
                            let mut parts = r[..tail].splitn(3, '~');
                            format!("{}~{}", parts.next().unwrap_or(""), parts.next().unwrap_or(""))
                        })
                        .collect();
                    if ck.dump && got != want {
                        println!("DUMP {l} | {fk} | {:?}", got);
                    }
                    ck.req(kind, got == want, format!("{l}#{fk}"), at, format!("{}: payload {n} of {vn} must come from {want:?}, comes from {got:?}", f.path));
                }
                for n in vf {
                    if !tf.iter().any(|t| t.0 == *n) && tab.get(&l, &format!("{vn}.{n}")).is_none() {
                        if ck.dump {
                            println!("DUMP {l} | {vn}.{n} | dropped");
                        }
                        ck.req(kind, false, format!("{l}#{vn}.{n}"), at, format!("{}: payload {n} of {vn} is dropped", f.path));
                    }
                }
            }
        }
    }
    for (t, s) in seen {
        ck.req(kind, s.len() == 1 || tab.get(&l, &format!("<-{t}")).is_some(), format!("{l}#<-{t}"), (&f.file, f.line), format!("{}: variants {s:?} all become {t}", f.path));
    }
}

/// struct -> struct: each target field is fed by exactly the expected source fields, on every successful path
pub fn check_struct<'m>(ck: &mut Ck<'m>, f: &'m FnDef, src_fields: &[(String, Ty)], tab: &Table, kind: &str) {
    let l = label(f);
    let mut it = Interp::new(ck.m);
    it.opaque = Box::new(is_conv);
    let ex = if f.has_self { it.run(f.id, None, None) } else { it.run(f.id, None, None) };
    ck.paths += ex.len();
    let root = if f.has_self { "self".to_string() } else { pat_name(&f.params[0].0) };
    ck.absorb(&it);
    let at = (f.file.as_str(), f.line);
    let mut n = 0;
    let mut field_roots: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut impure: BTreeMap<String, String> = BTreeMap::new();
    for e in &ex {
        for x in it.a.alts(e.v) {
            let x = match it.a.get(x).clone() {
                Val::Ctor { p, f } if (p == "Ok" || p == "Some") && f.len() == 1 => f[0].1,
                Val::Ctor { p, .. } if p == "Err" => continue,
                _ => x,
            };
            for y in it.a.alts(x) {
                let fs = res_fields(&it.a, y);
                if fs.is_empty() {
                    continue;
                }
                n += 1;
                for (tf, v) in fs {
                    let r = first_fields(&roots(&it.a, v), &root);
                    if let Some(op) = arithmetic(&it.a, v) {
                        impure.insert(tf.clone(), op);
                    }
                    field_roots.entry(tf).or_default().extend(r);
                }
            }
        }
    }
    if n == 0 {
        if ck.dump {
            println!("DUMP {l} | * | no result value; exits {}", ex.len());
        }
        ck.req(kind, tab.get(&l, "*") == Some("!"), format!("{l}#*"), at, format!("{}: no successful result recognised", f.path));
        return;
    }
    for (tf, got) in field_roots {
        let want: BTreeSet<String> = match tab.get(&l, &tf) {
            Some("?") => continue,
            Some("-") => BTreeSet::new(),
            Some(w) => w.split(',').map(|s| s.to_string()).collect(),
            None if src_fields.iter().any(|x| x.0 == tf) => [tf.clone()].into(),
            None => BTreeSet::new(),
        };
        // an enum-typed field translated by an inlined match: decide it variant by variant
        if got != want && want.len() == 1 && got.is_empty() {
            let w = want.iter().next().unwrap().clone();
            if let Some((_, t)) = src_fields.iter().find(|x| x.0 == w) {
                let mut t = t.peel();
                if t.name() == "Option" {
                    t = t.arg(0).peel();
                }
                if let Some(e) = ck.m.enums.get(t.path()) {
                    for v in &e.variants {
                        let key = format!("{l}#{tf}={}", v.name);
                        let want = match tab.get(&l, &format!("{tf}={}", v.name)) {
                            Some("?") => continue,
                            Some(x) => x.to_string(),
                            None => v.name.clone(),
                        };
                        let mut it = Interp::new(ck.m);
                        it.opaque = Box::new(is_conv);
                        let pf: Vec<(String, Vid)> = v.fields.iter().map(|x| (x.0.clone(), it.param(&format!("{}~{}", v.name, x.0)))).collect();
                        let c = it.a.mk(Val::Ctor { p: format!("{}::{}", e.path, v.name), f: pf });
                        let base = it.param(&root);
                        let arg = it.a.upd(base, &w, c);
                        let ex = if f.has_self { it.run(f.id, None, Some(arg)) } else { it.run(f.id, Some(vec![arg]), None) };
                        ck.absorb(&it);
                        let mut names = BTreeSet::new();
                        for x in ex {
                            for y in it.a.alts(x.v) {
                                let y = strip(&it.a, y);
                                for (n, fv) in res_fields(&it.a, y) {
                                    if n == tf {
                                        for z in it.a.alts(fv) {
                                            let z = strip(&it.a, z);
                                            names.insert(res_name(&it.a, z));
                                        }
                                    }
                                }
                            }
                        }
                        if ck.dump && !(names.len() == 1 && alias(names.iter().next().unwrap()) == alias(&want)) {
                            println!("DUMP {l} | {tf}={} | {names:?}", v.name);
                        }
                        ck.req(kind, names.len() == 1 && alias(names.iter().next().unwrap()) == alias(&want), key, at, format!("{}: field {tf}: source variant {} must become {want}, becomes {names:?}", f.path, v.name));
                    }
                    continue;
                }
            }
        }
        if ck.dump && got != want {
            println!("DUMP {l} | {tf} | {:?} (want {:?})", got, want);
        }
        ck.req(kind, got == want, format!("{l}#{tf}"), at, format!("{}: field {tf} must come from {want:?}, comes from {got:?}", f.path));
        if let Some(op) = impure.get(&tf) {
            if tab.get(&l, &format!("{tf}!")) != Some("op") {
                if ck.dump {
                    println!("DUMP {l} | {tf}! | {op}");
                }
                ck.req(kind, false, format!("{l}#{tf}!"), at, format!("{}: field {tf} is altered on the way: {op}", f.path));
            }
        }
    }
}

/// an operator applied inside a term that should only carry a value across
pub fn arithmetic(a: &Arena, v: Vid) -> Option<String> {
    let mut r = None;
    a.walk(v, &mut |_, x| {
        match x {
            Val::Bin(o, ..) => r = Some(format!("operator {o}")),
            Val::Not(_) => r = Some("negation".into()),
            _ => {}
        }
        r.is_none()
    });
    r
}

/// every From/Into/TryFrom/TryInto impl of the named crates whose source is a workspace type
pub fn sweep<'m>(ck: &mut Ck<'m>, krates: &[&str], skip: &dyn Fn(&FnDef) -> bool, tab: &Table) {
    let m = ck.m;
    for f in &m.fns {
        if !krates.contains(&f.krate.as_str()) || f.block.is_none() {
            continue;
        }
        let tr = f.trait_.as_deref().map(last_seg).unwrap_or("");
        if !matches!((tr, f.name.as_str()), ("From", "from") | ("Into", "into") | ("TryFrom", "try_from") | ("TryInto", "try_into")) {
            continue;
        }
        if skip(f) {
            continue;
        }
        let s = conv_source(f).peel();
        if let Some(e) = m.enums.get(s.path()) {
            let vs: Vec<(String, Vec<String>)> = e.variants.iter().map(|v| (v.name.clone(), v.fields.iter().map(|x| x.0.clone()).collect())).collect();
            check_enum(ck, f, &vs, s.path(), tab, "enum-conversion");
        } else if let Some(st) = m.structs.get(s.path()) {
            check_struct(ck, f, &st.fields, tab, "struct-conversion");
        } else if ck.dump {
            println!("DUMP external source: {} {} ({}:{})", label(f), s.show(), f.file, f.line);
        }
    }
}
