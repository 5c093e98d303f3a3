//! C07: JSON shape of API types, from the serde attributes in force on every field and variant.
use std::collections::{BTreeMap, BTreeSet};

use syn::Attribute;

use crate::model::*;
use crate::report::*;

#[derive(Default, Clone, Debug)]
struct Sd {
    rename: (Option<String>, Option<String>),
    rename_all: (Option<String>, Option<String>),
    rename_all_fields: (Option<String>, Option<String>),
    tag: Option<String>,
    content: Option<String>,
    untagged: bool,
    flatten: bool,
    default: bool,
    skip_if: Option<String>,
    other: Vec<String>,
}

fn lit(m: &syn::meta::ParseNestedMeta) -> Option<String> {
    m.value().ok().and_then(|v| v.parse::<syn::LitStr>().ok()).map(|l| l.value())
}
/// `x = "v"` or `x(serialize = "a", deserialize = "b")`
fn pair(m: &syn::meta::ParseNestedMeta) -> (Option<String>, Option<String>) {
    if m.input.peek(syn::token::Paren) {
        let mut r = (None, None);
        let _ = m.parse_nested_meta(|n| {
            if n.path.is_ident("serialize") {
                r.0 = lit(&n);
            } else {
                r.1 = lit(&n);
            }
            Ok(())
        });
        return r;
    }
    let l = lit(m);
    (l.clone(), l)
}
fn serde(attrs: &[Attribute]) -> Sd {
    let mut s = Sd::default();
    for a in attrs {
        if !a.path().is_ident("serde") {
            continue;
        }
        let r = a.parse_nested_meta(|m| {
            let n = last(&m.path);
            match n.as_str() {
                "rename" => s.rename = pair(&m),
                "rename_all" => s.rename_all = pair(&m),
                "rename_all_fields" => s.rename_all_fields = pair(&m),
                "tag" => s.tag = lit(&m),
                "content" => s.content = lit(&m),
                "untagged" => s.untagged = true,
                "flatten" => s.flatten = true,
                "deny_unknown_fields" | "crate" | "bound" | "expecting" | "transparent" => {
                    let _ = lit(&m);
                }
                "default" => {
                    s.default = true;
                    if m.input.peek(syn::Token![=]) {
                        s.other.push(format!("default={}", lit(&m).unwrap_or_default()));
                    }
                }
                "skip_serializing_if" => s.skip_if = lit(&m),
                _ => {
                    let v = if m.input.peek(syn::Token![=]) { lit(&m).unwrap_or_default() } else { String::new() };
                    s.other.push(if v.is_empty() { n } else { format!("{n}={v}") });
                }
            }
            Ok(())
        });
        if r.is_err() {
            s.other.push("unparsed".into());
        }
    }
    s
}

fn words(id: &str, field: bool) -> Vec<String> {
    if field {
        return id.split('_').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    }
    let mut v: Vec<String> = vec![];
    for c in id.chars() {
        if c.is_uppercase() || v.is_empty() {
            v.push(String::new());
        }
        v.last_mut().unwrap().extend(c.to_lowercase());
    }
    v
}
fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|x| x.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
/// serde's renaming rules
fn rule(r: &str, id: &str, field: bool) -> String {
    let w = words(id, field);
    match r {
        "lowercase" => if field { id.to_string() } else { id.to_lowercase() },
        "UPPERCASE" => id.to_uppercase(),
        "PascalCase" => w.iter().map(|x| cap(x)).collect(),
        "camelCase" => {
            if field {
                let p: String = w.iter().map(|x| cap(x)).collect();
                let mut c = p.chars();
                c.next().map(|x| x.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
            } else {
                let mut c = id.chars();
                c.next().map(|x| x.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
            }
        }
        "snake_case" => w.join("_"),
        "SCREAMING_SNAKE_CASE" => w.join("_").to_uppercase(),
        "kebab-case" => w.join("-"),
        _ => id.to_string(),
    }
}
fn wire(id: &str, field: bool, own: &Sd, all: &(Option<String>, Option<String>)) -> (String, String) {
    let id = id.trim_start_matches("r#");
    let one = |o: &Option<String>, a: &Option<String>| o.clone().unwrap_or_else(|| a.as_ref().map(|r| rule(r, id, field)).unwrap_or(id.to_string()));
    (one(&own.rename.0, &all.0), one(&own.rename.1, &all.1))
}

/// names on the wire that are not the camel case of the identifier
const NAMES: &[(&str, &str)] = &[
    ("typ", "type"),
    ("event_type", "type"),
    ("data_type", "type"),
    ("GCP", "gcp"),
];
/// internally tagged enums of the API and their tag
const TAGS: &[(&str, &str)] = &[
    ("platform::EventRef", "eventType"),
    ("platform::PropertyRef", "propertyType"),
    ("platform::SortablePropertyRef", "propertyType"),
];
const WITH: &[(&str, &str)] = &[("common::http::ApiErrorInner.status", "serialize_with=serialize_http_code"), ("common::http::ApiError.status", "serialize_with=serialize_http_code")];
/// untagged enums: the order decides which reading of a value wins
const UNTAGGED: &[(&str, &[&str])] = &[
    ("ingester::sources::http::PropValue", &["Date", "String", "Number", "Bool"]),
    ("platform::QueryResponse", &["JSON", "JSONCompact"]),
];

/// references that keep an object of their own: the two segment conditions on a property
const NESTED: &[&str] = &["platform::SegmentCondition::HasPropertyValue.property", "platform::SegmentCondition::HadPropertyValue.property"];
/// request fields that may be left out although they are no options
const DEFAULTS: &[&str] = &["platform::EventGroupedFilterGroup.filters_condition"];
/// parts of an answer that are left out when there is nothing to say
const SKIPS: &[&str] = &["common::http::ApiError.code", "common::http::ApiError.message", "common::http::ApiError.fields"];

struct Fl<'a> {
    owner: String,
    id: &'a str,
    ty: &'a Ty,
    sd: Sd,
}

fn fields<'m>(ck: &mut Ck<'m>, path: &str, at: (&str, usize), ser: bool, de: bool, api: bool, all: &(Option<String>, Option<String>), cont_default: bool, fs: Vec<Fl>, tag: Option<&str>) {
    let mut seen: BTreeMap<(bool, String), String> = BTreeMap::new();
    if let Some(t) = tag {
        seen.insert((true, t.into()), "tag".into());
        seen.insert((false, t.into()), "tag".into());
    }
    for f in fs {
        let key = format!("{}.{}", f.owner, f.id);
        let (ws, wd) = wire(f.id, true, &f.sd, all);
        if f.sd.flatten {
            // the variant tag of a flattened enum shares the object
            if let Some(t) = TAGS.iter().find(|t| f.ty.show().contains(t.0)) {
                for s in [true, false] {
                    if let Some(o) = seen.insert((s, t.1.into()), f.id.into()) {
                        ck.req("wire-distinct", false, format!("{key}~tag"), at, format!("{key}: its tag {} is also the name of {o}", t.1));
                    }
                }
            }
        } else {
            if ser && de {
                ck.req("wire-symmetric", ws == wd, format!("{key}~sym"), at, format!("{key} is written as {ws} and read as {wd}"));
            }
            if api {
                let want = if plain(path) { f.id.to_string() } else { camel(f.id) };
                let ok = |w: &str| w == want || NAMES.iter().any(|n| n.0 == f.id && n.1 == w);
                ck.req("wire-name", (!ser || ok(&ws)) && (!de || ok(&wd)), format!("{key}~name"), at, format!("{key} must be {want} in JSON, is {ws}/{wd}"));
            }
            for (s, w) in [(true, &ws), (false, &wd)] {
                if s && !ser || !s && !de {
                    continue;
                }
                if let Some(o) = seen.insert((s, w.clone()), f.id.into()) {
                    ck.req("wire-distinct", false, format!("{key}~dup"), at, format!("{key} and {o} have the same JSON name {w}"));
                }
            }
        }
        for o in &f.sd.other {
            let ok = WITH.iter().any(|w| w.0 == key && w.1 == o);
            ck.req("wire-attr", ok, format!("{key}~{o}"), at, format!("{key}: serde attribute {o} changes what is read or written"));
        }
        if api && path.starts_with("platform::") {
            let shown = f.ty.show();
            let r = TAGS.iter().any(|t| shown == t.0 || shown.ends_with(&format!("Option<{}>", t.0)));
            if r || f.sd.flatten {
                let want = r && !NESTED.contains(&key.as_str()) && !shown.contains("SortablePropertyRef");
                ck.req("wire-flat", f.sd.flatten == want, format!("{key}~flatten"), at, format!("{key}: a reference to an event or a property is part of the object that holds it ({want}), is flattened: {}", f.sd.flatten));
            }
        }
        if DEFAULTS.contains(&key.as_str()) {
            ck.req("wire-optional", f.sd.default || cont_default, format!("{key}~default"), at, format!("{key} may be left out of a request"));
        }
        if SKIPS.contains(&key.as_str()) {
            ck.req("wire-optional", f.sd.skip_if.is_some(), format!("{key}~skip"), at, format!("{key} is left out of the answer when it is empty"));
        }
        let optp = f.ty.name() == "OptionalProperty";
        if optp && !api {
        } else if optp {
            ck.req(
                "wire-optional",
                (!de || f.sd.default || cont_default) && (!ser || f.sd.skip_if.as_deref() == Some("OptionalProperty::is_none")),
                format!("{key}~opt"),
                at,
                format!("{key}: an absent optional property must be readable as absent and must not be written"),
            );
        } else if let Some(p) = &f.sd.skip_if {
            let p = last_seg(p.strip_suffix("::is_none").or(p.strip_suffix("::is_empty")).unwrap_or("?")).to_string();
            let ok = p == f.ty.name() && ["Option", "Vec", "BTreeMap", "HashMap", "String"].contains(&p.as_str()) && (p == "Option" || !de || f.sd.default || cont_default);
            ck.req("wire-attr", ok, format!("{key}~skip_if"), at, format!("{key}: skipping it when {} loses values or makes them unreadable", f.sd.skip_if.as_deref().unwrap()));
        }
        if f.sd.default && de && !optp && f.ty.name() == "bool" {
            ck.req("wire-attr", false, format!("{key}~default"), at, format!("{key}: an absent value is silently read as false"));
        }
    }
}
fn camel(id: &str) -> String {
    rule("camelCase", id.trim_start_matches("r#"), id.chars().next().map_or(false, |c| c.is_lowercase()))
}

pub fn check(ck: &mut Ck) {
    ck.rule("serde attributes in force (container, variant, field; rename, rename_all, tag, flatten, default, skip) folded into the JSON name and presence rule of every field and variant: written and read under one name, the camel case of the identifier for API types, distinct inside each object, nothing skipped");
    let m = ck.m;
    let mut n = (0, 0);
    for (path, s) in &m.structs {
        let d = Model::derives(&s.attrs);
        let (ser, de) = (d.iter().any(|x| x == "Serialize"), d.iter().any(|x| x == "Deserialize"));
        if !ser && !de {
            continue;
        }
        n.0 += 1;
        let c = serde(&s.attrs);
        let at = (s.file.as_str(), s.line);
        let api = is_api(path);
        for o in &c.other {
            ck.req("wire-attr", false, format!("{path}~{o}"), at, format!("{path}: serde attribute {o} changes what is read or written"));
        }
        if s.tuple {
            continue;
        }
        let fs = s.fields.iter().enumerate().map(|(i, (id, ty))| Fl { owner: path.clone(), id, ty, sd: serde(&s.field_attrs[i]) }).collect();
        fields(ck, path, at, ser, de, api, &c.rename_all, c.default, fs, None);
    }
    let mut tags = BTreeSet::new();
    for (path, e) in &m.enums {
        let d = Model::derives(&e.attrs);
        let (ser, de) = (d.iter().any(|x| x == "Serialize"), d.iter().any(|x| x == "Deserialize"));
        if !ser && !de {
            continue;
        }
        n.1 += 1;
        let c = serde(&e.attrs);
        let at = (e.file.as_str(), e.line);
        let api = is_api(path);
        for o in &c.other {
            ck.req("wire-attr", false, format!("{path}~{o}"), at, format!("{path}: serde attribute {o} changes what is read or written"));
        }
        let unt = UNTAGGED.iter().find(|u| u.0 == path);
        if !c.untagged && unt.is_some() {
            ck.req("wire-tag", false, format!("{path}~untagged"), at, format!("{path}: its variants are told apart by their content, not by a tag"));
        }
        if c.untagged {
            if let Some(u) = unt {
                let names: Vec<&str> = e.variants.iter().map(|v| v.name.as_str()).collect();
                ck.req("wire-tag", names == u.1, format!("{path}~untagged"), at, format!("{path}: values without a tag are read as the first variant that fits, the order must be {:?}, is {names:?}", u.1));
            } else {
                ck.req("wire-tag", false, format!("{path}~untagged"), at, format!("{path}: variants are not told apart in JSON"));
            }
        }
        if api {
            let want = TAGS.iter().find(|t| t.0 == path).map(|t| t.1);
            let payload = e.variants.iter().any(|v| v.fields.iter().len() > 0 && !v.tuple);
            if path.starts_with("common::") {
                ck.req("wire-tag", c.tag.is_none() && c.content.is_none(), format!("{path}~tag"), at, format!("{path}: its variants are externally tagged"));
            } else if payload && !c.untagged {
                let ok = match want {
                    Some(w) => c.tag.as_deref() == Some(w),
                    None => c.tag.as_deref() == Some("type"),
                };
                ck.req("wire-tag", ok && c.content.is_none(), format!("{path}~tag"), at, format!("{path}: variants must be told apart by the field {}, are by {:?}", want.unwrap_or("type"), c.tag));
            }
            tags.insert(path.clone());
        }
        let mut seen: BTreeMap<(bool, String), String> = BTreeMap::new();
        for v in &e.variants {
            let sd = serde(&v.attrs);
            let (ws, wd) = wire(&v.name, false, &sd, &c.rename_all);
            let key = format!("{path}::{}", v.name);
            if ser && de {
                ck.req("wire-symmetric", ws == wd, format!("{key}~sym"), at, format!("{key} is written as {ws} and read as {wd}"));
            }
            if api && !c.untagged {
                let want = if plain(path) { v.name.clone() } else { camel(&v.name) };
                let ok = |w: &str| w == want || NAMES.iter().any(|n| n.0 == v.name && n.1 == w);
                ck.req("wire-name", (!ser || ok(&ws)) && (!de || ok(&wd)), format!("{key}~name"), at, format!("{key} must be {want} in JSON, is {ws}/{wd}"));
            }
            for (s, w) in [(true, &ws), (false, &wd)] {
                if s && !ser || !s && !de || c.untagged {
                    continue;
                }
                if let Some(o) = seen.insert((s, w.clone()), v.name.clone()) {
                    ck.req("wire-distinct", false, format!("{key}~dup"), at, format!("{key} and {o} have the same JSON name {w}"));
                }
            }
            for o in &sd.other {
                ck.req("wire-attr", false, format!("{key}~{o}"), at, format!("{key}: serde attribute {o} changes what is read or written"));
            }
            if !v.tuple {
                let all = if sd.rename_all.0.is_some() || sd.rename_all.1.is_some() { sd.rename_all.clone() } else { c.rename_all_fields.clone() };
                let fs = v.fields.iter().enumerate().map(|(i, (id, ty))| Fl { owner: key.clone(), id, ty, sd: serde(&v.field_attrs[i]) }).collect();
                fields(ck, &key, at, ser, de, api, &all, false, fs, c.tag.as_deref());
            }
        }
    }
    ck.req("wire-types", n.0 >= 100 && n.1 >= 60, "types", ("", 0), format!("only {n:?} serializable structs and enums found"));
    ck.floor("wire-name", 10);
    ck.floor("wire-flat", 14);
    ck.floor("wire-optional", 10);
}
/// shared types whose JSON is camel case; the other shared types keep their identifiers
const CAMEL: &[&str] = &["common::query::TimeUnit", "common::types::DType", "common::types::SortDirection"];
fn plain(path: &str) -> bool {
    path.starts_with("common::") && !CAMEL.iter().any(|c| path.starts_with(c)) || path.starts_with("platform::accounts::Account") && path.len() == "platform::accounts::Account".len()
}
fn is_api(path: &str) -> bool {
    path.starts_with("platform::") || path.starts_with("ingester::sources::") || path.starts_with("common::")
}
