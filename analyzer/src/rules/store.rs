//! What is stored is what is read back: every record's encoder composed with its decoder, shape by shape.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use super::meta::*;
use super::tab::fresh;
use crate::interp::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;

/// message schemas of the .proto files: "pkg::Message" -> field -> (label, type, number); "pkg::Enum::Variant" -> number
#[derive(Default)]
pub struct Schema {
    pub msg: BTreeMap<String, BTreeMap<String, (String, String, i64)>>,
    pub num: BTreeMap<String, i64>,
    pub at: BTreeMap<String, (String, usize)>,
}
fn camel(s: &str) -> String {
    let mut out = String::new();
    let mut prev_lower = false;
    for w in s.split('_').filter(|w| !w.is_empty()) {
        for (i, c) in w.chars().enumerate() {
            if i == 0 {
                out.extend(c.to_uppercase());
            } else if prev_lower && c.is_uppercase() {
                out.push(c);
            } else {
                out.extend(c.to_lowercase());
            }
            prev_lower = c.is_lowercase();
        }
        prev_lower = false;
    }
    out
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}
/// modules that include generated code: package -> module
fn modules(lib: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(lib).unwrap_or_default();
    let mut r = BTreeMap::new();
    let mut last = String::new();
    for l in text.lines() {
        if let Some(m) = l.split("mod ").nth(1).and_then(|x| x.split('{').next()).filter(|_| l.contains('{')) {
            last = m.trim().to_string();
        }
        if let Some(f) = l.split("OUT_DIR").nth(1).and_then(|x| x.split(".rs").next()) {
            r.insert(f.rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string(), last.clone());
        }
    }
    r
}
pub fn schema(dir: &str, krate: &str, rel: &str) -> Schema {
    let mut sc = Schema::default();
    let mods = modules(&format!("{dir}/../lib.rs"));
    let mut fs: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "proto")).collect()).unwrap_or_default();
    fs.sort();
    for p in fs {
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        let rel = format!("{rel}/{}", p.file_name().unwrap().to_string_lossy());
        let mut toks: Vec<(String, usize)> = vec![];
        for (n, l) in text.lines().enumerate() {
            let l = l.split("//").next().unwrap_or("");
            let mut w = String::new();
            for c in l.chars() {
                if c.is_alphanumeric() || c == '_' || c == '.' || c == '"' {
                    w.push(c);
                } else {
                    if !w.is_empty() {
                        toks.push((std::mem::take(&mut w), n + 1));
                    }
                    if !c.is_whitespace() {
                        toks.push((c.to_string(), n + 1));
                    }
                }
            }
            if !w.is_empty() {
                toks.push((w, n + 1));
            }
        }
        let mut pkg = String::new();
        let mut stack: Vec<(String, String)> = vec![]; // kind, path
        let mut st: Vec<String> = vec![];
        for (t, ln) in toks {
            match t.as_str() {
                "{" => {
                    if st.len() == 2 && (st[0] == "message" || st[0] == "enum") {
                        let base = stack.last().map_or(format!("{krate}::{pkg}"), |x| format!("{}::{}", x.1.rsplit_once("::").unwrap().0, snake(last_seg(&x.1))));
                        let path = format!("{base}::{}", camel(&st[1]));
                        sc.at.insert(path.clone(), (rel.clone(), ln));
                        if st[0] == "message" {
                            sc.msg.entry(path.clone()).or_default();
                        }
                        stack.push((st[0].clone(), path));
                    } else if st.len() == 2 && st[0] == "oneof" {
                        let (_, m) = stack.last().unwrap().clone();
                        let path = format!("{}::{}::{}", m.rsplit_once("::").unwrap().0, snake(last_seg(&m)), camel(&st[1]));
                        sc.msg.get_mut(&m).unwrap().insert(st[1].clone(), ("oneof".into(), path.clone(), 0));
                        sc.at.insert(path.clone(), (rel.clone(), ln));
                        sc.msg.entry(path.clone()).or_default();
                        stack.push(("oneof".into(), path));
                    }
                    st.clear();
                }
                "}" => {
                    stack.pop();
                    st.clear();
                }
                ";" => {
                    if st.len() == 2 && st[0] == "package" {
                        pkg = mods.get(&st[1]).unwrap_or(&st[1]).clone();
                    } else if let Some((k, p)) = stack.last() {
                        let eq = st.iter().position(|x| x == "=");
                        if let Some(e) = eq {
                            let n: i64 = st.get(e + 1).and_then(|x| x.parse().ok()).unwrap_or(-1);
                            if k == "enum" {
                                let en = camel(last_seg(p));
                                let v = camel(&st[0]);
                                let v = v.strip_prefix(en.as_str()).filter(|r| r.chars().next().map_or(false, |c| c.is_uppercase() || c.is_ascii_digit())).map(|s| s.to_string()).unwrap_or(v);
                                sc.num.insert(format!("{p}::{v}"), n);
                            } else if e >= 2 {
                                let label = if e >= 3 { st[0].clone() } else { String::new() };
                                sc.msg.get_mut(p).unwrap().insert(st[e - 1].clone(), (label, st[e - 2].clone(), n));
                            }
                        }
                    }
                    st.clear();
                }
                _ => st.push(t),
            }
        }
    }
    sc
}

/// shapes of external types: (variant or "", [(field, kind)]); kinds: `?T` present option, `T` value, `=C` constant, `:L` literal, `None`
type Shape = &'static [(&'static str, &'static [(&'static str, &'static str)])];
fn external(t: &str) -> Option<Shape> {
    Some(match t {
        // datafusion's scalar values that a filter can hold
        "datafusion_common::ScalarValue" => &[
            ("Utf8", &[("0", "?String")]),
            ("Boolean", &[("0", "?bool")]),
            ("Int8", &[("0", "?i8")]),
            ("Int16", &[("0", "?i16")]),
            ("Int32", &[("0", "?i32")]),
            ("Int64", &[("0", "?i64")]),
            ("Decimal128", &[("0", "?i128"), ("1", "=DECIMAL_PRECISION"), ("2", "=DECIMAL_SCALE")]),
            ("TimestampMillisecond", &[("0", "?i64"), ("1", "None")]),
        ],
        "arrow2::datatypes::Schema" => &[("", &[("fields", "[arrow2::datatypes::Field")])],
        "arrow2::datatypes::Field" => &[("", &[("name", "String"), ("data_type", "arrow2::datatypes::DataType"), ("is_nullable", "bool")])],
        "arrow2::datatypes::DataType" => &[
            ("Utf8", &[]),
            ("Int8", &[]),
            ("Int16", &[]),
            ("Int32", &[]),
            ("Int64", &[]),
            ("Boolean", &[]),
            ("Decimal", &[("0", "=DECIMAL_PRECISION"), ("1", "=DECIMAL_SCALE")]),
            ("Timestamp", &[("0", ":arrow2::datatypes::TimeUnit::Millisecond"), ("1", "None")]),
        ],
        _ => return None,
    })
}

/// one shape of a record: a choice per optional, list and enum position (default 0)
struct Gen<'a> {
    pick: &'a BTreeMap<String, usize>,
    dims: BTreeMap<String, Vec<String>>,
    leaf: BTreeSet<String>,
    types: BTreeMap<String, String>,
}
impl Gen<'_> {
    fn choice(&mut self, at: &str, opts: Vec<String>) -> usize {
        let n = opts.len();
        self.dims.insert(at.to_string(), opts);
        self.pick.get(at).copied().unwrap_or(0).min(n - 1)
    }
    fn mk<'m>(&mut self, it: &mut Interp<'m>, t: &Ty, at: &str, depth: usize) -> Vid {
        let t = t.peel();
        if depth == 0 || self.leaf.contains(t.name()) {
            return it.param(at);
        }
        if let Ty::Tuple(ts) = &t {
            let xs = ts.iter().enumerate().map(|(i, x)| self.mk(it, x, &format!("{at}.{i}"), depth)).collect();
            return it.a.mk(Val::Tuple(xs));
        }
        match t.name() {
            "Option" => {
                if self.choice(at, vec!["Some".into(), "None".into()]) == 1 {
                    return it.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
                }
                let x = self.mk(it, &t.arg(0), at_in(at, "?").as_str(), depth);
                return it.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] });
            }
            "Vec" => {
                let must = match self.choice(at, vec!["one".into(), "two".into(), "empty".into()]) {
                    0 => vec![self.mk(it, &t.arg(0), &format!("{at}[0]"), depth)],
                    1 => (0..2).map(|i| self.mk(it, &t.arg(0), &format!("{at}[{i}]"), depth)).collect(),
                    _ => vec![],
                };
                return it.a.mk(Val::List { must, may: vec![] });
            }
            _ => {}
        }
        if let (Some(sh), false) = (external(t.path()), it.m.enums.contains_key(t.path()) || it.m.structs.contains_key(t.path())) {
            let k = if sh.len() > 1 { self.choice(at, sh.iter().map(|x| x.0.to_string()).collect()) } else { 0 };
            let (n, fs) = sh[k];
            let mut f = vec![];
            for (i, k) in fs {
                let a = if n.is_empty() { format!("{at}.{i}") } else { format!("{at}.{n}.{i}") };
                let path = |s: &str| Ty::Path(s.into(), vec![]);
                let v = match k.split_at(1) {
                    ("?", ty) => {
                        let x = self.mk(it, &path(ty), &a, depth - 1);
                        it.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] })
                    }
                    ("[", ty) => self.mk(it, &Ty::Path("Vec".into(), vec![path(ty)]), &a, depth - 1),
                    (":", l) => it.a.mk(Val::Ctor { p: l.to_string(), f: vec![] }),
                    ("=", c) => {
                        // the evaluated constant of the type
                        let c = it.m.consts.get(&format!("common::types::{c}")).map(|d| d.expr.clone());
                        match c.as_deref() {
                            Some(syn::Expr::Lit(l)) => {
                                let s = lit_str(&l.lit);
                                it.a.lit(&s)
                            }
                            _ => it.param(&a),
                        }
                    }
                    _ if *k == "None" => it.a.mk(Val::Ctor { p: k.to_string(), f: vec![] }),
                    _ => self.mk(it, &path(k), &a, depth - 1),
                };
                f.push((i.to_string(), v));
            }
            let p = if n.is_empty() { t.path().to_string() } else { format!("{}::{n}", t.path()) };
            return it.a.mk(Val::Ctor { p, f });
        }
        if let Some(e) = it.m.enums.get(t.path()) {
            let k = self.choice(at, e.variants.iter().map(|v| v.name.clone()).collect());
            let v = &e.variants[k];
            let f = v.fields.iter().map(|(n, ty)| (n.clone(), self.mk(it, ty, &format!("{at}.{}.{n}", v.name), depth - 1))).collect();
            return it.a.mk(Val::Ctor { p: format!("{}::{}", e.path, v.name), f });
        }
        if let Some(s) = it.m.structs.get(t.path()) {
            if !s.tuple || !s.fields.is_empty() {
                let f = s.fields.iter().map(|(n, ty)| (n.clone(), self.mk(it, ty, &format!("{at}.{n}"), depth - 1))).collect();
                return it.a.mk(Val::Ctor { p: s.path.clone(), f });
            }
        }
        let v = it.param(at);
        if let Ty::Path(p, _) = &t {
            self.types.insert(at.to_string(), p.clone());
        }
        v
    }
}
fn at_in(at: &str, s: &str) -> String {
    format!("{at}{s}")
}

/// leaf positions with a normalised text, lists and options flattened
fn flat(a: &Arena, v: Vid, at: &str, out: &mut BTreeMap<String, String>) {
    match a.get(v) {
        Val::Ctor { p, f } if p == "Some" => {
            // an empty list is the same as no list
            match a.get(f[0].1) {
                Val::List { must, may } if must.is_empty() && may.is_empty() => {
                    out.insert(at.into(), "None".into());
                }
                _ => flat(a, f[0].1, &at_in(at, "?"), out),
            }
        }
        Val::Ctor { p, .. } if p == "None" => {
            out.insert(at.into(), "None".into());
        }
        Val::Call { f, args } if f.contains("::") && last_seg(f).starts_with(char::is_uppercase) => {
            out.insert(at_in(at, "="), last_seg(f).to_string());
            args.iter().enumerate().for_each(|(i, x)| flat(a, *x, &format!("{at}.{i}"), out));
        }
        Val::Ctor { p, f } => {
            if f.is_empty() || !p.chars().next().map_or(false, |c| c.is_lowercase()) || p.contains("::") {
                out.insert(at_in(at, "="), last_seg(p).to_string());
            }
            for (n, x) in f {
                flat(a, *x, &format!("{at}.{n}"), out);
            }
        }
        Val::Tuple(xs) => xs.iter().enumerate().for_each(|(i, x)| flat(a, *x, &format!("{at}.{i}"), out)),
        Val::List { must, may } if may.is_empty() && !must.is_empty() => must.iter().enumerate().for_each(|(i, x)| flat(a, *x, &format!("{at}[{i}]"), out)),
        _ => {
            let t = text(a, v);
            out.insert(at.into(), if t == "[]" { "None".into() } else { t });
        }
    }
}
fn call1<'a>(a: &'a Arena, v: Vid, n: &[&str]) -> Option<(&'a str, &'a [Vid])> {
    match a.get(v) {
        Val::Call { f, args } if n.contains(&last_of(f)) => Some((last_of(f), args)),
        _ => None,
    }
}
/// encodings undone: integer casts, byte orders, timestamps, paths, flags
fn undo(a: &Arena, v: Vid) -> Vid {
    let pair = [("from_timestamp", "timestamp"), ("from_timestamp_millis", "timestamp_millis"), ("from_timestamp_micros", "timestamp_micros"), ("from_le_bytes", "to_le_bytes"), ("from_be_bytes", "to_be_bytes"), ("from_str", "to_string"), ("parse", "to_string")];
    match a.get(v) {
        Val::Cast(x, _) => undo(a, *x),
        Val::Bin(o, x, y) if o == "!=" && a.show(*y) == "0" => undo(a, *x),
        Val::Bin(o, x, y) if o == "==" && a.show(*y) == "1" => undo(a, *x),
        Val::Call { f, args } => {
            let n = last_of(f);
            for (d, e) in pair {
                if n == d && !args.is_empty() && (d != "from_timestamp" || args.len() == 1 || a.show(args[1]) == "0") {
                    let mut x = undo(a, args[0]);
                    while let Some((_, r)) = call1(a, x, &["try_into", "as_slice", "to_vec", "into", "clone"]) {
                        x = r[0];
                    }
                    if let Some((_, r)) = call1(a, x, &[e]) {
                        return undo(a, r[0]);
                    }
                }
            }
            match (n, args.len()) {
                ("into_os_string" | "into_string" | "try_into" | "to_vec" | "to_path_buf" | "to_str" | "to_string_lossy" | "into_owned" | "display", 1) if f.starts_with('.') => undo(a, args[0]),
                ("from" | "new", 1) if f.contains("PathBuf") || f.contains("Path::") => undo(a, args[0]),
                _ => v,
            }
        }
        _ => v,
    }
}
fn text(a: &Arena, v: Vid) -> String {
    let s = a.show_d(undo(a, v), 14);
    s.trim_end_matches("usize").trim_end_matches("u8").trim_end_matches("i8").to_string()
}
/// casts that can lose digits of what is stored
fn narrowing(a: &Arena, v: Vid, out: &mut BTreeSet<String>, ty: &dyn Fn(&str) -> Option<String>) {
    let bits = |t: &str| match t {
        "i8" | "u8" => 8,
        "i16" | "u16" => 16,
        "i32" | "u32" | "f32" => 32,
        "i64" | "u64" | "usize" | "isize" | "f64" => 64,
        "i128" | "u128" => 128,
        _ => 0,
    };
    a.walk(v, &mut |v, _| {
        if let Val::Cast(x, t) = a.get(v) {
            if let Val::Param(p) = a.get(undo(a, *x)) {
                if let Some(s) = ty(p) {
                    let lossy = s.starts_with('f') && !t.starts_with('f');
                    if bits(t) > 0 && (bits(&s) > bits(t) || lossy) {
                        out.insert(format!("{p}: {s} as {t}"));
                    }
                }
            }
        }
        true
    });
}

pub struct Rec {
    pub ser: &'static str,
    pub de: &'static str,
    /// shapes that are refused: position=choice
    pub refused: &'static [&'static str],
    /// positions whose range is known to fit the stored width
    pub fits: &'static [&'static str],
}
const META: &[Rec] = &[
    Rec { ser: "metadata::accounts::serialize", de: "metadata::accounts::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::backups::serialize", de: "metadata::backups::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::bookmarks::serialize", de: "metadata::bookmarks::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::custom_events::serialize", de: "metadata::custom_events::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::dashboards::serialize", de: "metadata::dashboards::deserialize", refused: &[], fits: &["x", "y", "w", "h"] },
    Rec { ser: "metadata::events::serialize", de: "metadata::events::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::groups::serialize_group_values", de: "metadata::groups::deserialize_group_values", refused: &["].value=List", "].value.*=None"], fits: &[] },
    Rec { ser: "metadata::groups::serialize_group", de: "metadata::groups::deserialize_group", refused: &[], fits: &[] },
    Rec { ser: "metadata::organizations::serialize", de: "metadata::organizations::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::projects::serialize", de: "metadata::projects::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::properties::serialize", de: "metadata::properties::deserialize", refused: &["data_type=List"], fits: &[] },
    Rec { ser: "metadata::reports::serialize_report", de: "metadata::reports::deserialize_report", refused: &[], fits: &[] },
    Rec { ser: "metadata::sessions::serialize", de: "metadata::sessions::deserialize", refused: &[], fits: &[] },
    Rec { ser: "metadata::settings::serialize", de: "metadata::settings::deserialize", refused: &[], fits: &["backup_schedule_start_hour"] },
    Rec { ser: "metadata::teams::serialize", de: "metadata::teams::deserialize", refused: &[], fits: &[] },
];

const TABLE: Rec = Rec { ser: "storage::table::serialize_md", de: "storage::table::deserialize_md", refused: &[], fits: &["version"] };

pub fn numbers(m: &Model, sc: &Schema) -> BTreeMap<String, i64> {
    let mut n = sc.num.clone();
    for e in m.enums.values() {
        let mut next = 0;
        for v in &e.variants {
            let d = v.disc.unwrap_or(next);
            n.insert(format!("{}::{}", e.path, v.name), d);
            next = d + 1;
        }
    }
    n
}

pub fn check(ck: &mut Ck) {
    ck.rule("encoder and decoder of every stored record composed symbolically, for every variant, option and list position in turn: each field read back must be the field written (times to the stored second, an empty optional list as none); what cannot be stored is refused before it is written");
    ck.rule("message schemas: every field written exists in its message with the right cardinality; field numbers are unique, and numbers and types of released fields and enum values stay as they are");
    let m = ck.m;
    let repo = std::env::var("OPTILINT_REPO").unwrap_or("/repo".into());
    let sc = schema(&format!("{repo}/src/metadata/src/pb"), "metadata", "src/metadata/src/pb");
    let nums = Rc::new(numbers(m, &sc));
    let known: BTreeSet<&str> = META.iter().map(|r| r.ser).collect();
    for f in m.fns.iter().filter(|f| f.krate == "metadata" && f.self_ty.is_none() && f.name.starts_with("serialize")) {
        ck.req("record-known", known.contains(f.path.as_str()), f.path.clone(), (&f.file, f.line), format!("{} is not covered by this rule", f.path));
    }
    for r in META {
        record(ck, r, &sc, &nums);
    }
    wire(ck, &sc, "metadata", include_str!("proto_metadata.txt"));
    let sc = schema(&format!("{repo}/src/storage/src/pb"), "storage", "src/storage/src/pb");
    let nums = Rc::new(numbers(m, &sc));
    record(ck, &TABLE, &sc, &nums);
    wire(ck, &sc, "storage", include_str!("proto_storage.txt"));
    ck.floor("record-field", 1500);
    ck.floor("record-shape", 150);
    ck.floor("schema-number", 130);
}

/// numbers of released fields
pub fn wire(ck: &mut Ck, sc: &Schema, krate: &str, frozen: &str) {
    let at = |p: &str| sc.at.get(p).cloned().unwrap_or((format!("src/{krate}/src/pb"), 0));
    for (p, fs) in &sc.msg {
        let mut seen = BTreeMap::new();
        for (n, (l, _, k)) in fs {
            if l == "oneof" {
                continue;
            }
            let a = at(p);
            let dup = seen.insert(*k, n);
            ck.req("schema-number", *k > 0 && dup.is_none(), format!("{p}.{n}"), (&a.0, a.1), format!("field number {k} of {p}.{n} is taken by {dup:?}"));
        }
    }
    for l in frozen.lines().filter(|l| !l.is_empty()) {
        let (k, v) = l.split_once(' ').unwrap();
        let (p, n) = k.rsplit_once("::").or_else(|| k.rsplit_once('.')).unwrap();
        match k.rsplit_once('.') {
            Some((p, n)) => {
                let a = at(p);
                let now = sc.msg.get(p).and_then(|f| f.get(n)).map(|x| format!("{} {} {}", if x.0.is_empty() { "-" } else { &x.0 }, x.1, x.2));
                let num = v.rsplit(' ').next().unwrap();
                let reuse = sc.msg.get(p).map_or(false, |f| f.iter().any(|(m, x)| m != n && x.2.to_string() == num && x.0 != "oneof"));
                ck.req("schema-frozen", now.as_deref() == Some(v) || now.is_none() && !reuse, k, (&a.0, a.1), format!("{k} was stored as `{v}`, is now {now:?}: records written before are misread"));
            }
            None => {
                let a = at(p);
                let now = sc.num.get(k).map(|x| x.to_string());
                ck.req("schema-frozen", now.as_deref() == Some(v), k, (&a.0, a.1), format!("{n} of {p} was stored as {v}, is now {now:?}"));
            }
        }
    }
}

pub fn record<'m>(ck: &mut Ck<'m>, r: &Rec, sc: &Schema, nums: &Rc<BTreeMap<String, i64>>) {
    let (Some(s), Some(d)) = (ck.func(r.ser), ck.func(r.de)) else { return };
    let ty = s.params[0].1.peel();
    let name = ty.name().to_string();
    let mut todo: Vec<BTreeMap<String, usize>> = vec![BTreeMap::new()];
    let mut seen: BTreeSet<Vec<(String, usize)>> = BTreeSet::new();
    let mut all = 0;
    let mut base: BTreeSet<String> = BTreeSet::new();
    while let Some(pick) = todo.pop() {
        if !seen.insert(pick.iter().map(|(k, v)| (k.clone(), *v)).collect()) {
            continue;
        }
        all += 1;
        if all > 4000 {
            ck.req("record-shape", false, format!("{name}:shapes"), (&s.file, s.line), format!("{name}: too many shapes"));
            break;
        }
        let mut it = fresh(ck);
        it.unroll = true;
        let n2 = nums.clone();
        let oneofs: BTreeSet<String> = sc.msg.values().flat_map(|m| m.values()).filter(|x| x.0 == "oneof").map(|x| x.1.clone()).collect();
        it.ext = Some(Rc::new(move |a: &mut Arena, f: &str, args: &[Vid]| -> Option<Vid> {
            let ok = |a: &mut Arena, v: Vid| a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), v)] });
            if f == "as" {
                let p = match a.get(args[0]) {
                    Val::Ctor { p, f } if f.is_empty() => p.clone(),
                    Val::Const(p) => p.clone(),
                    _ => return None,
                };
                return n2.get(&p).map(|k| a.lit(&k.to_string()));
            }
            let n = last_of(f);
            if n == "new" && f == "arrow2::datatypes::Field::new" && args.len() == 3 {
                let fs = ["name", "data_type", "is_nullable"].iter().zip(args).map(|(n, x)| (n.to_string(), *x)).collect();
                return Some(a.mk(Val::Ctor { p: "arrow2::datatypes::Field".into(), f: fs }));
            }
            if oneofs.contains(f.rsplit_once("::").map_or("", |x| x.0)) && args.len() == 1 {
                return Some(a.mk(Val::Ctor { p: f.to_string(), f: vec![("0".into(), args[0])] }));
            }
            if f.starts_with("bincode::") {
                if n == "serialize" && args.len() == 1 {
                    let v = a.mk(Val::Call { f: "bincode".into(), args: args.to_vec() });
                    return Some(ok(a, v));
                }
                if n == "deserialize" && args.len() == 1 {
                    if let Val::Call { f, args } = a.get(args[0]).clone() {
                        if f == "bincode" {
                            return Some(ok(a, args[0]));
                        }
                    }
                }
                return None;
            }
            if n == "decode" && args.len() == 1 {
                if let Val::Call { f: g, args } = a.get(args[0]).clone() {
                    if g == ".encode_to_vec" {
                        if let Val::Ctor { p, .. } = a.get(args[0]).clone() {
                            if f.strip_suffix("::decode") == Some(p.as_str()) {
                                return Some(ok(a, args[0]));
                            }
                        }
                    }
                }
            }
            None
        }));
        let mut g = Gen { pick: &pick, dims: BTreeMap::new(), leaf: ["Query".to_string()].into(), types: BTreeMap::new() };
        let v = g.mk(&mut it, &ty, "", 9);
        let dims = g.dims;
        let types = g.types;
        // vary one more position, at most one from the default each
        for (at, opts) in &dims {
            if pick.is_empty() || !base.contains(at) && !pick.contains_key(at) && pick.len() < 3 {
                for k in 1..opts.len() {
                    let mut p = pick.clone();
                    p.insert(at.clone(), k);
                    todo.push(p);
                }
            }
        }
        if pick.is_empty() {
            base = dims.keys().cloned().collect();
        }
        // everything absent, once
        if pick.is_empty() {
            let none: BTreeMap<String, usize> = dims.iter().filter(|d| d.1.contains(&"None".to_string()) && !d.0.trim_start_matches('.').contains(['.', '['])).map(|(k, o)| (k.clone(), o.iter().position(|x| x == "None").unwrap())).collect();
            todo.push(none);
        }
        let shape: String = pick.iter().map(|(k, i)| format!("{}={}", k.trim_start_matches('.'), dims.get(k).map_or("?", |o| o[*i].as_str()))).collect::<Vec<_>>().join(",");
        let shape = if shape.is_empty() { "default".to_string() } else if shape.len() > 120 { "none".into() } else { shape };
        let refused = r.refused.iter().any(|x| match x.split_once('*') {
            Some((a, b)) => shape.split(',').any(|s| s.contains(a) && s.ends_with(b)),
            None => shape.split(',').any(|s| s.contains(x)),
        });
        let ex = it.run(s.id, Some(vec![v]), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let enc: Vec<Vid> = ex.iter().flat_map(|e| it.a.alts(e.v)).filter_map(|v| ok_payload(&it.a, v)).collect();
        let errs = ex.iter().any(|e| ctor(&it.a, e.v).map_or(false, |c| c.0 == "Err"));
        if enc.is_empty() && refused {
            continue;
        }
        if !ck.req("record-shape", enc.len() == 1 && !errs, format!("{name}:{shape}:write"), (&s.file, s.line), format!("{} does not store {name} with {shape} ({} results)", r.ser, enc.len())) {
            continue;
        }
        // the message agrees with its schema
        let msg = is_call(&it.a, enc[0], "encode_to_vec").map(|a| a[0]);
        if let Some(mv) = msg {
            against(ck, &it, mv, sc, s, &name, &shape);
        }
        let mut bad = BTreeSet::new();
        let tys = |p: &str| types.get(p).cloned();
        narrowing(&it.a, enc[0], &mut bad, &tys);
        bad.retain(|b| !r.fits.iter().any(|x| b.split(':').next().unwrap().ends_with(&format!(".{x}"))));
        ck.req("record-width", bad.is_empty(), format!("{name}:width"), (&s.file, s.line), format!("{name}: digits are lost when storing {bad:?}"));
        let bytes = enc[0];
        let ex = it.run(d.id, Some(vec![bytes]), None);
        ck.absorb(&it);
        ck.paths += ex.len();
        let dec: Vec<Vid> = ex.iter().flat_map(|e| it.a.alts(e.v)).filter_map(|v| ok_payload(&it.a, v)).collect();
        let errs: Vec<String> = ex.iter().filter(|e| ctor(&it.a, e.v).map_or(false, |c| c.0 == "Err")).map(|e| it.a.show_d(e.v, 3)).collect();
        if !ck.req("record-shape", dec.len() == 1 && errs.is_empty(), format!("{name}:{shape}:read"), (&d.file, d.line), format!("{} does not read back {name} with {shape} ({} results, errors {errs:?})", r.de, dec.len())) {
            continue;
        }
        let mut bad = BTreeSet::new();
        narrowing(&it.a, dec[0], &mut bad, &tys);
        bad.retain(|b| !r.fits.iter().any(|x| b.split(':').next().unwrap().ends_with(&format!(".{x}"))));
        ck.req("record-width", bad.is_empty(), format!("{name}:width"), (&d.file, d.line), format!("{name}: digits are lost when reading back {bad:?}"));
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        flat(&it.a, v, "", &mut a);
        flat(&it.a, dec[0], "", &mut b);
        for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
            let (x, y) = (a.get(k), b.get(k));
            if x.is_none() && y.map_or(false, |y| y.ends_with("default()")) {
                continue;
            }
            let f = k.trim_start_matches('.').split(['?', '=', '[']).next().unwrap().to_string();
            ck.req("record-field", x == y, format!("{name}.{f}"), (&d.file, d.line), format!("{name} with {shape}: {} is stored as {x:?} but read back as {y:?}", k.trim_start_matches('.')));
        }
    }
}

fn against<'m>(ck: &mut Ck<'m>, it: &Interp, v: Vid, sc: &Schema, f: &FnDef, name: &str, shape: &str) {
    let Some((p, fs)) = ctor(&it.a, v) else { return };
    let at = (f.file.as_str(), f.line);
    let Some(ms) = sc.msg.get(p) else {
        if matches!(p, "Some" | "Ok") {
            against(ck, it, fs[0].1, sc, f, name, shape);
        }
        return;
    };
    if sc.msg.values().any(|m| m.values().any(|x| x.0 == "oneof" && x.1 == p)) {
        return;
    }
    let have: BTreeSet<&str> = fs.iter().map(|x| x.0.trim_start_matches("r#")).collect();
    let want: BTreeSet<&str> = ms.keys().map(|s| s.as_str()).collect();
    ck.req("schema-fields", have == want, format!("{name}:{}", last_seg(p)), at, format!("{p} is written with {:?} and without {:?}", have.difference(&want).collect::<Vec<_>>(), want.difference(&have).collect::<Vec<_>>()));
    for (n, x) in fs {
        let Some((l, t, _)) = ms.get(n.trim_start_matches("r#")) else { continue };
        let opt = ctor(&it.a, *x).map_or(false, |c| c.0 == "Some" || c.0 == "None");
        let list = matches!(it.a.get(*x), Val::List { .. });
        let msgty = sc.msg.contains_key(&format!("{}::{t}", p.rsplit_once("::").unwrap().0));
        let want_opt = l == "optional" || l == "oneof" || l.is_empty() && msgty;
        ck.req("schema-label", (!opt || want_opt) && (!list || l == "repeated" || t == "bytes"), format!("{name}:{n}:{shape}"), at, format!("{p}.{n} is `{l} {t}` but is written {}", it.a.show_d(*x, 2)));
        if let Val::List { must, .. } = it.a.get(*x) {
            must.iter().for_each(|y| against(ck, it, *y, sc, f, name, shape));
        }
        if opt {
            against(ck, it, *x, sc, f, name, shape);
        }
    }
}
