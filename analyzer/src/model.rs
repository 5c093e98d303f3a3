//! Source model: parses every workspace member from /repo's working tree and resolves names.
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

use quote::ToTokens;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    Unknown,
    /// canonical path (workspace items) or the written path (external), generic args
    Path(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Fn(Box<Ty>),
}

impl Ty {
    pub fn name(&self) -> &str {
        match self {
            Ty::Path(p, _) => last_seg(p),
            _ => "",
        }
    }
    pub fn path(&self) -> &str {
        match self {
            Ty::Path(p, _) => p,
            _ => "",
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::Path(_, a) => a.get(i).cloned().unwrap_or(Ty::Unknown),
            _ => Ty::Unknown,
        }
    }
    pub fn known(&self) -> bool {
        !matches!(self, Ty::Unknown)
    }
    /// strips smart pointers
    pub fn peel(&self) -> Ty {
        match self {
            Ty::Path(_, a) if matches!(self.name(), "Arc" | "Box" | "Rc" | "Cow" | "Pin" | "MutexGuard" | "RwLockReadGuard" | "RwLockWriteGuard") && !a.is_empty() => a[0].peel(),
            _ => self.clone(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ty::Unknown => "_".into(),
            Ty::Path(p, a) if a.is_empty() => p.clone(),
            Ty::Path(p, a) => format!("{}<{}>", p, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            Ty::Tuple(a) => format!("({})", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            Ty::Fn(r) => format!("fn -> {}", r.show()),
        }
    }
}

pub fn last_seg(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}

pub struct FnDef {
    pub id: usize,
    pub krate: String,
    pub module: String,
    pub path: String,
    pub name: String,
    pub self_ty: Option<Ty>,
    pub trait_: Option<String>,
    pub trait_args: Vec<Ty>,
    pub sig: syn::Signature,
    pub params: Vec<(syn::Pat, Ty, bool)>,
    pub has_self: bool,
    pub self_mut: bool,
    pub ret: Ty,
    pub block: Option<Rc<syn::Block>>,
    pub file: String,
    pub line: usize,
    pub is_pub: bool,
    pub generics: Vec<String>,
}

impl FnDef {
    pub fn self_name(&self) -> &str {
        self.self_ty.as_ref().map(|t| t.name()).unwrap_or("")
    }
}

pub struct StructDef {
    pub path: String,
    pub name: String,
    pub fields: Vec<(String, Ty)>,
    pub attrs: Vec<syn::Attribute>,
    pub field_attrs: Vec<Vec<syn::Attribute>>,
    pub generics: Vec<String>,
    pub file: String,
    pub line: usize,
    pub tuple: bool,
}

pub struct EnumDef {
    pub path: String,
    pub name: String,
    pub variants: Vec<Variant>,
    pub attrs: Vec<syn::Attribute>,
    pub file: String,
    pub line: usize,
}
pub struct Variant {
    pub name: String,
    pub disc: Option<i64>,
    pub fields: Vec<(String, Ty)>,
    pub tuple: bool,
    pub attrs: Vec<syn::Attribute>,
    pub field_attrs: Vec<Vec<syn::Attribute>>,
}

pub struct ConstDef {
    pub path: String,
    pub ty: Ty,
    pub expr: Rc<syn::Expr>,
    pub module: String,
    pub file: String,
    pub line: usize,
}

pub struct MacroDef {
    pub name: String,
    pub module: String,
    pub rules: Vec<(proc_macro2::TokenStream, proc_macro2::TokenStream)>,
    pub file: String,
}

pub struct ImplDef {
    pub module: String,
    pub self_ty: Ty,
    pub trait_: Option<(String, Vec<Ty>)>,
    pub fns: Vec<usize>,
    pub file: String,
}

#[derive(Default)]
pub struct Model {
    pub root: PathBuf,
    pub fns: Vec<FnDef>,
    pub by_path: HashMap<String, Vec<usize>>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub structs: BTreeMap<String, StructDef>,
    pub enums: BTreeMap<String, EnumDef>,
    pub consts: BTreeMap<String, ConstDef>,
    pub aliases: HashMap<String, (syn::Type, String, Vec<String>)>,
    pub traits: BTreeMap<String, Vec<String>>,
    pub macros: HashMap<String, Rc<MacroDef>>,
    pub uses: HashMap<String, HashMap<String, Vec<String>>>,
    pub globs: HashMap<String, Vec<Vec<String>>>,
    pub modules: std::collections::HashSet<String>,
    pub impls: Vec<ImplDef>,
    pub methods: HashMap<(String, String), Vec<usize>>,
    pub files: usize,
    pub derives: HashMap<String, Vec<String>>,
    pub problems: Vec<String>,
}

pub const CRATES: &[&str] = &["common", "metadata", "storage", "ingester", "platform", "query", "cmd"];

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]" || s.contains("tokio::test")
    })
}

struct RawFn {
    module: String,
    krate: String,
    self_ty: Option<syn::Type>,
    trait_: Option<syn::Path>,
    sig: syn::Signature,
    block: Option<syn::Block>,
    file: String,
    is_pub: bool,
    generics: Vec<String>,
    impl_no: Option<usize>,
}

pub struct Loader {
    m: Model,
    raw_fns: Vec<RawFn>,
    raw_structs: Vec<(String, syn::ItemStruct, String)>,
    raw_enums: Vec<(String, syn::ItemEnum, String)>,
    raw_consts: Vec<(String, String, syn::Type, syn::Expr, String, usize)>,
    raw_impls: Vec<(String, syn::Type, Option<syn::Path>, Vec<String>, String)>,
}

pub fn gen_names(g: &syn::Generics) -> Vec<String> {
    g.type_params().map(|p| p.ident.to_string()).collect()
}

impl Loader {
    pub fn load(root: &Path) -> Model {
        let mut l = Loader { m: Model::default(), raw_fns: vec![], raw_structs: vec![], raw_enums: vec![], raw_consts: vec![], raw_impls: vec![] };
        l.m.root = root.to_path_buf();
        for c in CRATES {
            let dir = root.join("src").join(c).join("src");
            let lib = dir.join("lib.rs");
            if !lib.exists() {
                l.m.problems.push(format!("missing crate root {}", lib.display()));
                continue;
            }
            l.file(c, c, &lib, &dir, true);
            if *c == "cmd" {
                let main = dir.join("bin/main.rs");
                if main.exists() {
                    l.file(c, "cmd::main_bin", &main, &dir.join("bin"), true);
                }
            }
        }
        l.finish()
    }

    fn file(&mut self, krate: &str, module: &str, path: &Path, dir: &Path, _is_root: bool) {
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                self.m.problems.push(format!("{}: {}", path.display(), e));
                return;
            }
        };
        let f = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                self.m.problems.push(format!("{}: {}", path.display(), e));
                return;
            }
        };
        self.m.files += 1;
        self.m.modules.insert(module.to_string());
        let rel = path.strip_prefix(&self.m.root).unwrap_or(path).display().to_string();
        self.items(krate, module, &f.items, &rel, dir);
    }

    /// names brought in within a function, where the module has no such name of its own
    fn inner_uses(&mut self, module: &str, items: &[syn::Item]) {
        struct Uses<'a>(Vec<&'a syn::UseTree>);
        impl<'a> syn::visit::Visit<'a> for Uses<'a> {
            fn visit_item_use(&mut self, u: &'a syn::ItemUse) {
                self.0.push(&u.tree);
            }
            fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
        }
        let mut found = Uses(vec![]);
        let mut own: Vec<String> = vec![];
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    own.push(f.sig.ident.to_string());
                    if !is_test_attr(&f.attrs) {
                        syn::visit::Visit::visit_block(&mut found, &f.block);
                    }
                }
                syn::Item::Impl(i) if !is_test_attr(&i.attrs) => syn::visit::Visit::visit_item_impl(&mut found, i),
                syn::Item::Struct(x) => own.push(x.ident.to_string()),
                syn::Item::Enum(x) => own.push(x.ident.to_string()),
                syn::Item::Trait(x) => own.push(x.ident.to_string()),
                syn::Item::Type(x) => own.push(x.ident.to_string()),
                _ => {}
            }
        }
        if found.0.is_empty() {
            return;
        }
        let scratch = format!("{module}::{{inner}}");
        for t in found.0 {
            self.add_use(&scratch, vec![], t);
        }
        let names = self.m.uses.remove(&scratch).unwrap_or_default();
        let globs = self.m.globs.remove(&scratch).unwrap_or_default();
        let uses = self.m.uses.entry(module.into()).or_default();
        for (n, p) in names {
            if !own.contains(&n) {
                uses.entry(n).or_insert(p);
            }
        }
        self.m.globs.entry(module.into()).or_default().extend(globs);
    }

    fn add_use(&mut self, module: &str, pre: Vec<String>, t: &syn::UseTree) {
        match t {
            syn::UseTree::Path(p) => {
                let mut q = pre;
                q.push(p.ident.to_string());
                self.add_use(module, q, &p.tree)
            }
            syn::UseTree::Name(n) => {
                let mut q = pre;
                let id = n.ident.to_string();
                if id == "self" {
                    let name = q.last().cloned().unwrap_or_default();
                    self.m.uses.entry(module.into()).or_default().insert(name, q);
                } else {
                    q.push(id.clone());
                    self.m.uses.entry(module.into()).or_default().insert(id, q);
                }
            }
            syn::UseTree::Rename(n) => {
                let mut q = pre;
                if n.ident != "self" {
                    q.push(n.ident.to_string());
                }
                self.m.uses.entry(module.into()).or_default().insert(n.rename.to_string(), q);
            }
            syn::UseTree::Glob(_) => self.m.globs.entry(module.into()).or_default().push(pre),
            syn::UseTree::Group(g) => {
                for x in &g.items {
                    self.add_use(module, pre.clone(), x)
                }
            }
        }
    }

    fn items(&mut self, krate: &str, module: &str, items: &[syn::Item], rel: &str, dir: &Path) {
        self.items_(krate, module, items, rel, dir);
        self.inner_uses(module, items);
    }

    fn items_(&mut self, krate: &str, module: &str, items: &[syn::Item], rel: &str, dir: &Path) {
        for it in items {
            match it {
                syn::Item::Mod(md) => {
                    if is_test_attr(&md.attrs) {
                        continue;
                    }
                    let name = md.ident.to_string();
                    let sub = format!("{module}::{name}");
                    if let Some((_, its)) = &md.content {
                        self.m.modules.insert(sub.clone());
                        self.items(krate, &sub, its, rel, &dir.join(&name));
                    } else {
                        let a = dir.join(format!("{name}.rs"));
                        let b = dir.join(&name).join("mod.rs");
                        let p = if a.exists() { a } else { b };
                        self.file(krate, &sub, &p, &dir.join(&name), false);
                    }
                }
                syn::Item::Use(u) => self.add_use(module, vec![], &u.tree),
                syn::Item::Fn(f) => {
                    if is_test_attr(&f.attrs) {
                        continue;
                    }
                    self.raw_fns.push(RawFn {
                        module: module.into(),
                        krate: krate.into(),
                        self_ty: None,
                        trait_: None,
                        sig: f.sig.clone(),
                        block: Some((*f.block).clone()),
                        file: rel.into(),
                        is_pub: matches!(f.vis, syn::Visibility::Public(_)),
                        generics: gen_names(&f.sig.generics),
                        impl_no: None,
                    });
                }
                syn::Item::Impl(im) => {
                    if is_test_attr(&im.attrs) {
                        continue;
                    }
                    self.add_impl(krate, module, im, rel);
                }
                syn::Item::Trait(t) => {
                    let path = format!("{module}::{}", t.ident);
                    let mut names = vec![];
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            names.push(f.sig.ident.to_string());
                            let mut g = gen_names(&t.generics);
                            g.extend(gen_names(&f.sig.generics));
                            let id = &t.ident;
                            self.raw_fns.push(RawFn {
                                module: module.into(),
                                krate: krate.into(),
                                self_ty: Some(syn::parse_quote!(#id)),
                                trait_: None,
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                                file: rel.into(),
                                is_pub: true,
                                generics: g,
                                impl_no: None,
                            });
                        }
                    }
                    self.m.traits.insert(path, names);
                }
                syn::Item::Struct(s) => self.raw_structs.push((module.into(), s.clone(), rel.into())),
                syn::Item::Enum(s) => self.raw_enums.push((module.into(), s.clone(), rel.into())),
                syn::Item::Const(c) => self.raw_consts.push((module.into(), c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone(), rel.into(), c.ident.span().start().line)),
                syn::Item::Static(c) => self.raw_consts.push((module.into(), c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone(), rel.into(), c.ident.span().start().line)),
                syn::Item::Type(t) => {
                    self.m.aliases.insert(format!("{module}::{}", t.ident), ((*t.ty).clone(), module.into(), gen_names(&t.generics)));
                }
                syn::Item::Macro(mac) => {
                    if mac.mac.path.is_ident("macro_rules") {
                        if let Some(id) = &mac.ident {
                            let rules = crate::macros::parse_rules(mac.mac.tokens.clone());
                            let md = Rc::new(MacroDef { name: id.to_string(), module: module.into(), rules, file: rel.into() });
                            self.m.macros.insert(id.to_string(), md.clone());
                            self.m.macros.insert(format!("{rel}::{id}"), md);
                        }
                    } else if let Some(md) = self.m.macros.get(&last(&mac.mac.path)).cloned() {
                        // item-position macro: expand and load the items
                        if let Some(ts) = crate::macros::expand(&md, mac.mac.tokens.clone()) {
                            if let Ok(f) = syn::parse2::<syn::File>(ts) {
                                self.items(krate, module, &f.items, rel, dir);
                            }
                        }
                    } else if last(&mac.mac.path) == "lazy_static" {
                        let toks = mac.mac.tokens.to_string().replace("static ref", "static");
                        if let Ok(f) = syn::parse_str::<syn::File>(&toks) {
                            self.items(krate, module, &f.items, rel, dir);
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn add_impl(&mut self, krate: &str, module: &str, im: &syn::ItemImpl, rel: &str) {
        let no = self.raw_impls.len();
        let gens = gen_names(&im.generics);
        self.raw_impls.push((module.into(), (*im.self_ty).clone(), im.trait_.as_ref().map(|t| t.1.clone()), gens.clone(), rel.into()));
        for x in &im.items {
            match x {
                syn::ImplItem::Fn(f) => {
                    if is_test_attr(&f.attrs) {
                        continue;
                    }
                    let mut g = gens.clone();
                    g.extend(gen_names(&f.sig.generics));
                    self.raw_fns.push(RawFn {
                        module: module.into(),
                        krate: krate.into(),
                        self_ty: Some((*im.self_ty).clone()),
                        trait_: im.trait_.as_ref().map(|t| t.1.clone()),
                        sig: f.sig.clone(),
                        block: Some(f.block.clone()),
                        file: rel.into(),
                        is_pub: matches!(f.vis, syn::Visibility::Public(_)) || im.trait_.is_some(),
                        generics: g,
                        impl_no: Some(no),
                    });
                }
                syn::ImplItem::Macro(mac) => {
                    if let Some(md) = self.m.macros.get(&last(&mac.mac.path)).cloned() {
                        if let Some(ts) = crate::macros::expand(&md, mac.mac.tokens.clone()) {
                            let st = &im.self_ty;
                            let wrapped = match &im.trait_ {
                                Some((_, p, _)) => quote::quote!(impl #p for #st { #ts }),
                                None => quote::quote!(impl #st { #ts }),
                            };
                            if let Ok(i2) = syn::parse2::<syn::ItemImpl>(wrapped) {
                                self.add_impl(krate, module, &i2, rel);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn finish(mut self) -> Model {
        // register names first so that types resolve
        for (m, s, _) in &self.raw_structs {
            self.m.structs.insert(
                format!("{m}::{}", s.ident),
                StructDef { path: format!("{m}::{}", s.ident), name: s.ident.to_string(), fields: vec![], attrs: vec![], field_attrs: vec![], generics: vec![], file: String::new(), line: 0, tuple: false },
            );
        }
        for (m, s, _) in &self.raw_enums {
            self.m.enums.insert(format!("{m}::{}", s.ident), EnumDef { path: format!("{m}::{}", s.ident), name: s.ident.to_string(), variants: vec![], attrs: vec![], file: String::new(), line: 0 });
        }
        for (m, n, _, e, f, l) in &self.raw_consts {
            let path = format!("{m}::{n}");
            self.m.consts.insert(path.clone(), ConstDef { path, ty: Ty::Unknown, expr: Rc::new(e.clone()), module: m.clone(), file: f.clone(), line: *l });
        }
        for (m, n, t, _, _, _) in &self.raw_consts {
            let ty = self.m.ty(t, m, None, &[]);
            self.m.consts.get_mut(&format!("{m}::{n}")).unwrap().ty = ty;
        }
        for (m, s, f) in std::mem::take(&mut self.raw_structs) {
            let path = format!("{m}::{}", s.ident);
            let g = gen_names(&s.generics);
            let st = Ty::Path(path.clone(), vec![]);
            let mut fields = vec![];
            let mut fa = vec![];
            for (i, fl) in s.fields.iter().enumerate() {
                let n = fl.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                fields.push((n, self.m.ty(&fl.ty, &m, Some(&st), &g)));
                fa.push(fl.attrs.clone());
            }
            self.m.structs.insert(
                path.clone(),
                StructDef { path, name: s.ident.to_string(), fields, attrs: s.attrs.clone(), field_attrs: fa, generics: g, file: f, line: s.ident.span().start().line, tuple: matches!(s.fields, syn::Fields::Unnamed(_)) },
            );
        }
        for (m, s, f) in std::mem::take(&mut self.raw_enums) {
            let path = format!("{m}::{}", s.ident);
            let g = gen_names(&s.generics);
            let st = Ty::Path(path.clone(), vec![]);
            let variants = s
                .variants
                .iter()
                .map(|v| Variant {
                    name: v.ident.to_string(),
                    disc: v.discriminant.as_ref().and_then(|d| d.1.to_token_stream().to_string().replace(' ', "").parse().ok()),
                    fields: v.fields.iter().enumerate().map(|(i, fl)| (fl.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), self.m.ty(&fl.ty, &m, Some(&st), &g))).collect(),
                    tuple: matches!(v.fields, syn::Fields::Unnamed(_)),
                    attrs: v.attrs.clone(),
                    field_attrs: v.fields.iter().map(|f| f.attrs.clone()).collect(),
                })
                .collect();
            self.m.enums.insert(path.clone(), EnumDef { path, name: s.ident.to_string(), variants, attrs: s.attrs.clone(), file: f, line: s.ident.span().start().line });
        }
        for (m, t, tr, g, f) in std::mem::take(&mut self.raw_impls) {
            let self_ty = self.m.ty(&t, &m, None, &g);
            let trait_ = tr.map(|p| {
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = self.m.resolve(&m, &segs);
                let args = match &p.segments.last().unwrap().arguments {
                    syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(self.m.ty(t, &m, Some(&self_ty), &g)) } else { None }).collect(),
                    _ => vec![],
                };
                (name, args)
            });
            self.m.impls.push(ImplDef { module: m, self_ty, trait_, fns: vec![], file: f });
        }
        for rf in std::mem::take(&mut self.raw_fns) {
            let self_ty = rf.self_ty.as_ref().map(|t| self.m.ty(t, &rf.module, None, &rf.generics));
            let (trait_, trait_args) = match rf.impl_no {
                Some(n) => match &self.m.impls[n].trait_ {
                    Some((a, b)) => (Some(a.clone()), b.clone()),
                    None => (None, vec![]),
                },
                None => (None, vec![]),
            };
            let id = self.m.fns.len();
            let mut params = vec![];
            let mut has_self = false;
            let mut self_mut = false;
            for a in &rf.sig.inputs {
                match a {
                    syn::FnArg::Receiver(r) => {
                        has_self = true;
                        self_mut = r.mutability.is_some();
                    }
                    syn::FnArg::Typed(t) => {
                        let is_mut = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                        params.push(((*t.pat).clone(), self.m.ty(&t.ty, &rf.module, self_ty.as_ref(), &rf.generics), is_mut));
                    }
                }
            }
            let ret = match &rf.sig.output {
                syn::ReturnType::Default => Ty::Tuple(vec![]),
                syn::ReturnType::Type(_, t) => self.m.ty(t, &rf.module, self_ty.as_ref(), &rf.generics),
            };
            let name = rf.sig.ident.to_string();
            let path = match &self_ty {
                Some(t) => format!("{}::{}", t.path(), name),
                None => format!("{}::{}", rf.module, name),
            };
            let line = rf.sig.ident.span().start().line;
            if let Some(n) = rf.impl_no {
                self.m.impls[n].fns.push(id);
            }
            self.m.by_path.entry(path.clone()).or_default().push(id);
            self.m.by_name.entry(name.clone()).or_default().push(id);
            if let Some(t) = &self_ty {
                self.m.methods.entry((t.path().to_string(), name.clone())).or_default().push(id);
            }
            self.m.fns.push(FnDef {
                id,
                krate: rf.krate,
                module: rf.module,
                path,
                name,
                self_ty,
                trait_,
                trait_args,
                params,
                has_self,
                self_mut,
                ret,
                sig: rf.sig,
                block: rf.block.map(Rc::new),
                file: rf.file,
                line,
                is_pub: rf.is_pub,
                generics: rf.generics,
            });
        }
        self.m
    }
}

pub fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

impl Model {
    fn is_item(&self, p: &str) -> bool {
        self.structs.contains_key(p) || self.enums.contains_key(p) || self.consts.contains_key(p) || self.aliases.contains_key(p) || self.traits.contains_key(p) || self.modules.contains(p) || self.by_path.contains_key(p)
    }

    /// Canonical path of a path written in `module`.
    pub fn resolve(&self, module: &str, segs: &[String]) -> String {
        self.resolve_d(module, segs, 0)
    }
    fn resolve_d(&self, module: &str, segs: &[String], d: usize) -> String {
        let joined = segs.join("::");
        if d > 12 || segs.is_empty() {
            return joined;
        }
        let krate = module.split("::").next().unwrap();
        match segs[0].as_str() {
            "crate" => {
                let mut v = vec![krate.to_string()];
                v.extend_from_slice(&segs[1..]);
                return self.canon(&v, d);
            }
            "self" if segs.len() > 1 => {
                let mut v: Vec<String> = module.split("::").map(|s| s.to_string()).collect();
                v.extend_from_slice(&segs[1..]);
                return self.canon(&v, d);
            }
            "super" => {
                let mut v: Vec<String> = module.split("::").map(|s| s.to_string()).collect();
                let mut i = 0;
                while i < segs.len() && segs[i] == "super" {
                    v.pop();
                    i += 1;
                }
                v.extend_from_slice(&segs[i..]);
                return self.canon(&v, d);
            }
            "" => return self.resolve_d(module, &segs[1..], d + 1),
            _ => {}
        }
        let local = format!("{module}::{}", segs[0]);
        if self.is_item(&local) {
            let mut v: Vec<String> = module.split("::").map(|s| s.to_string()).collect();
            v.extend_from_slice(segs);
            return self.canon(&v, d);
        }
        if let Some(u) = self.uses.get(module).and_then(|m| m.get(&segs[0])) {
            let mut v = u.clone();
            v.extend_from_slice(&segs[1..]);
            if u.len() == 1 && u[0] == segs[0] {
                return self.canon(&v, d);
            }
            return self.resolve_d(module, &v, d + 1);
        }
        if let Some(gs) = self.globs.get(module) {
            for g in gs {
                let mut v = g.clone();
                v.push(segs[0].clone());
                let base = self.resolve_d(module, g, d + 1);
                let cand = format!("{base}::{}", segs[0]);
                if self.is_item(&cand) || self.enums.get(&base).map_or(false, |e| e.variants.iter().any(|x| x.name == segs[0])) {
                    let mut w: Vec<String> = base.split("::").map(|s| s.to_string()).collect();
                    w.extend_from_slice(segs);
                    return self.canon(&w, d);
                }
            }
        }
        self.canon(segs, d)
    }

    /// follows re-exports inside the workspace
    fn canon(&self, segs: &[String], d: usize) -> String {
        let joined = segs.join("::");
        if d > 12 || segs.is_empty() || !CRATES.contains(&segs[0].as_str()) {
            return joined;
        }
        // longest module prefix
        let mut n = 0;
        for i in 1..=segs.len() {
            if self.modules.contains(&segs[..i].join("::")) {
                n = i;
            } else {
                break;
            }
        }
        if n == 0 || n == segs.len() {
            return joined;
        }
        let module = segs[..n].join("::");
        let item = format!("{module}::{}", segs[n]);
        if self.is_item(&item) {
            return joined;
        }
        if let Some(u) = self.uses.get(&module).and_then(|m| m.get(&segs[n])) {
            let mut v = u.clone();
            v.extend_from_slice(&segs[n + 1..]);
            return self.resolve_d(&module, &v, d + 1);
        }
        if let Some(gs) = self.globs.get(&module) {
            for g in gs {
                let base = self.resolve_d(&module, g, d + 1);
                if self.is_item(&format!("{base}::{}", segs[n])) {
                    let mut w: Vec<String> = base.split("::").map(|s| s.to_string()).collect();
                    w.extend_from_slice(&segs[n..]);
                    return self.canon(&w, d + 1);
                }
            }
        }
        joined
    }

    pub fn ty(&self, t: &syn::Type, module: &str, self_ty: Option<&Ty>, generics: &[String]) -> Ty {
        match t {
            syn::Type::Reference(r) => self.ty(&r.elem, module, self_ty, generics),
            syn::Type::Paren(p) => self.ty(&p.elem, module, self_ty, generics),
            syn::Type::Group(p) => self.ty(&p.elem, module, self_ty, generics),
            syn::Type::Slice(s) => Ty::Path("Vec".into(), vec![self.ty(&s.elem, module, self_ty, generics)]),
            syn::Type::Array(s) => Ty::Path("Vec".into(), vec![self.ty(&s.elem, module, self_ty, generics)]),
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| self.ty(e, module, self_ty, generics)).collect()),
            syn::Type::TraitObject(o) => self.bounds(&o.bounds, module, self_ty, generics),
            syn::Type::ImplTrait(o) => self.bounds(&o.bounds, module, self_ty, generics),
            syn::Type::Ptr(p) => self.ty(&p.elem, module, self_ty, generics),
            syn::Type::Path(p) => {
                if p.qself.is_some() {
                    return Ty::Unknown;
                }
                self.path_ty(&p.path, module, self_ty, generics)
            }
            _ => Ty::Unknown,
        }
    }

    fn bounds(&self, b: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>, module: &str, self_ty: Option<&Ty>, generics: &[String]) -> Ty {
        for x in b {
            if let syn::TypeParamBound::Trait(t) = x {
                let l = last(&t.path);
                if matches!(l.as_str(), "Fn" | "FnMut" | "FnOnce") {
                    if let syn::PathArguments::Parenthesized(pa) = &t.path.segments.last().unwrap().arguments {
                        let r = match &pa.output {
                            syn::ReturnType::Default => Ty::Tuple(vec![]),
                            syn::ReturnType::Type(_, t) => self.ty(t, module, self_ty, generics),
                        };
                        return Ty::Fn(Box::new(r));
                    }
                    return Ty::Fn(Box::new(Ty::Unknown));
                }
                return self.path_ty(&t.path, module, self_ty, generics);
            }
        }
        Ty::Unknown
    }

    pub fn path_ty(&self, p: &syn::Path, module: &str, self_ty: Option<&Ty>, generics: &[String]) -> Ty {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 && generics.contains(&segs[0]) {
            return Ty::Unknown;
        }
        if segs[0] == "Self" {
            if segs.len() == 1 {
                return self_ty.cloned().unwrap_or(Ty::Unknown);
            }
            return Ty::Unknown;
        }
        let args: Vec<Ty> = match &p.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(self.ty(t, module, self_ty, generics)) } else { None }).collect(),
            _ => vec![],
        };
        let full = self.resolve(module, &segs);
        if let Some((t, m, g)) = self.aliases.get(&full) {
            let base = self.ty(t, m, None, g);
            // substitute a single generic positionally
            return self.subst_alias(t, m, g, &args).unwrap_or(base);
        }
        let l = last_seg(&full).to_string();
        // std result aliases (crate::Result<T>) resolve through aliases above; normalise std paths
        if matches!(l.as_str(), "Option" | "Result" | "Vec" | "Arc" | "Box" | "Rc" | "String" | "HashMap" | "BTreeMap" | "HashSet" | "RwLock" | "Mutex" | "Cow" | "VecDeque" | "BinaryHeap")
            && !CRATES.contains(&full.split("::").next().unwrap())
        {
            return Ty::Path(l, args);
        }
        Ty::Path(full, args)
    }

    fn subst_alias(&self, t: &syn::Type, m: &str, g: &[String], args: &[Ty]) -> Option<Ty> {
        if let syn::Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 1 {
                if let Some(i) = g.iter().position(|x| *x == segs[0]) {
                    return Some(args.get(i).cloned().unwrap_or(Ty::Unknown));
                }
            }
            let a: Vec<Ty> = match &p.path.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { self.subst_alias(t, m, g, args) } else { None }).collect(),
                _ => vec![],
            };
            let base = self.path_ty(&p.path, m, None, g);
            return Some(match base {
                Ty::Path(n, old) if old.len() == a.len() => Ty::Path(n, a),
                o => o,
            });
        }
        Some(self.ty(t, m, None, g))
    }

    pub fn field_ty(&self, t: &Ty, f: &str) -> Ty {
        let t = t.peel();
        match &t {
            Ty::Tuple(v) => f.parse::<usize>().ok().and_then(|i| v.get(i).cloned()).unwrap_or(Ty::Unknown),
            Ty::Path(p, _) => self.structs.get(p).and_then(|s| s.fields.iter().find(|x| x.0 == f).map(|x| x.1.clone())).unwrap_or(Ty::Unknown),
            _ => Ty::Unknown,
        }
    }

    pub fn method(&self, t: &Ty, name: &str) -> Option<usize> {
        let t = t.peel();
        if let Ty::Path(p, _) = &t {
            if let Some(v) = self.methods.get(&(p.clone(), name.to_string())) {
                // prefer the one with a body
                let mut best = None;
                for id in v {
                    if self.fns[*id].block.is_some() {
                        if best.is_none() || self.fns[*id].trait_.is_none() {
                            best = Some(*id);
                        }
                    }
                }
                return best.or(v.first().copied());
            }
        }
        None
    }

    pub fn find_fn(&self, path: &str) -> Option<&FnDef> {
        self.by_path.get(path).and_then(|v| v.first()).map(|i| &self.fns[*i])
    }

    /// impl fns of `trait_name` (last segment) for a self type
    pub fn trait_impl_fns<'a>(&'a self, trait_name: &'a str) -> impl Iterator<Item = &'a FnDef> + 'a {
        self.fns.iter().filter(move |f| f.trait_.as_deref().map(last_seg) == Some(trait_name))
    }

    pub fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    v.push(last(&m.path));
                    Ok(())
                });
            }
        }
        v
    }
}
