//! Abstract interpreter: value-provenance + typestate facts over the syntax tree, with inlining of
//! workspace functions and path partitioning on Ok/Err/Some/None tags.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

use syn::spanned::Spanned;
use syn::{Expr, Pat, Stmt};

use crate::model::*;
use crate::report::access;
use crate::val::*;

pub type Set = Rc<BTreeSet<u32>>;

#[derive(Clone)]
pub struct State {
    pub env: Rc<BTreeMap<u32, Vid>>,
    pub must: Set,
    pub may: Set,
    /// locks held, in the order they were taken, with the variable that holds the guard
    pub held: Rc<Vec<(String, Option<u32>)>>,
    /// what the locks guard, as last released
    pub cells: Rc<BTreeMap<String, Vid>>,
}

impl State {
    pub fn new() -> Self {
        State { env: Rc::new(BTreeMap::new()), must: Rc::new(BTreeSet::new()), may: Rc::new(BTreeSet::new()), held: Rc::new(vec![]), cells: Rc::new(BTreeMap::new()) }
    }
    fn set(&mut self, k: u32, v: Vid) {
        Rc::make_mut(&mut self.env).insert(k, v);
    }
    fn add(&mut self, f: u32) {
        Rc::make_mut(&mut self.must).insert(f);
        Rc::make_mut(&mut self.may).insert(f);
    }
}

#[derive(Clone)]
pub struct Out {
    pub v: Vid,
    pub t: Ty,
    pub s: State,
}

#[derive(Clone)]
pub struct Event {
    pub val: Vid,
    pub f: String,
    pub args: Vec<Vid>,
    pub fid: Option<usize>,
    pub recv_ty: Ty,
    pub must: Set,
    pub may: Set,
    pub file: String,
    pub line: usize,
    pub func: String,
    pub depth: usize,
    pub loops: usize,
    pub seq: usize,
}

impl Event {
    pub fn name(&self) -> &str {
        last_seg(&self.f).trim_start_matches('.')
    }
}

#[derive(Clone)]
pub struct Exit {
    pub v: Vid,
    pub s: State,
    pub line: usize,
    pub kind: ExitKind,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExitKind {
    Tail,
    Return,
    Question,
}

struct LoopCtx {
    label: Option<String>,
    breaks: Vec<Out>,
    conts: Vec<State>,
}

struct Frame {
    exits: Vec<Exit>,
    loops: Vec<LoopCtx>,
    module: String,
    self_ty: Option<Ty>,
    generics: Vec<String>,
    file: String,
    func: String,
    ret: Ty,
    id: u32,
}

struct ClosureDef {
    expr: syn::ExprClosure,
    scopes: Vec<HashMap<String, u32>>,
    frame_like: (String, Option<Ty>, Vec<String>, String, String),
}

pub struct Interp<'m> {
    pub m: &'m Model,
    pub a: Arena,
    pub events: Vec<Event>,
    pub opaque: Box<dyn Fn(&FnDef) -> bool + 'm>,
    /// models of external functions: (path or ".method", args) -> value
    pub ext: Option<Rc<dyn Fn(&mut Arena, &str, &[Vid]) -> Option<Vid> + 'm>>,
    refs: HashMap<u32, (u32, Vec<Step>)>,
    entry_ref: Option<(Vid, u32, Vec<Step>)>,
    /// the mapping whose results are collected up to the first failure
    until_err: Option<proc_macro2::LineColumn>,
    /// variables holding an optional reference into a place
    opt_refs: HashMap<u32, (Vid, u32, Vec<Step>)>,
    /// how many bytes a number was written as
    widths: HashMap<Vid, usize>,
    pub max_depth: usize,
    frames: Vec<Frame>,
    scopes: Vec<HashMap<String, u32>>,
    var_keys: HashMap<(u32, String), u32>,
    var_ty: Vec<Ty>,
    var_site: Vec<(usize, usize)>,
    closures: Vec<ClosureDef>,
    next_frame: u32,
    pub steps: usize,
    pub max_steps: usize,
    pub overflow: bool,
    pub unresolved: usize,
    pub call_stack: Vec<usize>,
    call_vals: Vec<Vid>,
    pub inlined: BTreeSet<usize>,
    loop_depth: usize,
    const_cache: HashMap<String, Option<Vid>>,
    /// unroll `for` over literal arrays
    pub unroll: bool,
    /// times a `loop` or `while` body is interpreted
    pub rounds: usize,
    tf: String,
    /// follow the locks: guards, what they guard, their order
    pub locks: bool,
    pub on_lock: Option<Rc<dyn Fn(&mut Arena, &str, &str) + 'm>>,
    /// (held, taken, where, file, line)
    pub lock_edges: BTreeSet<(String, String, String, String, usize)>,
    pub lock_sites: BTreeSet<(String, String, usize)>,
    /// evaluate constant bodies to literals when read
    pub eval_consts: bool,
    pub max_states: usize,
    /// keep every path apart instead of merging the ones with equal tags
    pub precise: bool,
    /// literal collections are computed with: maps, sets, folds, lookups
    pub concrete: bool,
    /// variable keys of the entry function's self and parameters
    pub entry_keys: Vec<(String, u32)>,
}

fn strip_group(e: &Expr) -> &Expr {
    match e {
        Expr::Group(g) => strip_group(&g.expr),
        Expr::Paren(g) => strip_group(&g.expr),
        _ => e,
    }
}

fn width(t: &str) -> Option<usize> {
    let w = t.strip_prefix(['u', 'i', 'f'])?;
    Some(if w == "size" { 8 } else { w.parse::<usize>().ok()? / 8 })
}

pub const TRANSPARENT: &[&str] = &[
    "clone", "to_owned", "to_string", "as_str", "as_ref", "as_mut", "borrow", "borrow_mut", "iter", "iter_mut", "into_iter", "collect", "to_vec", "as_slice", "cloned", "copied", "deref", "into_string", "as_deref",
    "as_deref_mut", "as_bytes", "into_boxed_slice", "into_inner", "by_ref", "as_any", "into_bytes", "peekable", "as_path", "to_path_buf", "into_boxed", "boxed", "fuse", "values", "into_values", "values_mut", "try_collect", "rev", "sorted", "as_mut_slice", "trim_start_matches_none",
];
pub const MUTATORS: &[&str] = &[
    "push", "push_back", "push_front", "insert", "extend", "extend_from_slice", "append", "retain", "clear", "remove", "pop", "drain", "sort", "sort_by", "sort_by_key", "dedup", "truncate", "reverse", "swap", "pop_front", "pop_back",
    "take", "replace", "split_off", "entry", "set", "resize", "swap_remove", "remove_entry", "get_mut", "push_str", "fill", "clone_from", "sort_unstable", "get_or_insert_with",
];

impl<'m> Interp<'m> {
    pub fn new(m: &'m Model) -> Self {
        Interp {
            m,
            a: Arena::new(),
            events: vec![],
            opaque: Box::new(|_| false),
            ext: None,
            refs: HashMap::new(),
            entry_ref: None,
            until_err: None,
            opt_refs: HashMap::new(),
            widths: HashMap::new(),
            max_depth: 8,
            frames: vec![],
            scopes: vec![],
            var_keys: HashMap::new(),
            var_ty: vec![],
            var_site: vec![],
            closures: vec![],
            next_frame: 0,
            steps: 0,
            max_steps: 3_000_000,
            overflow: false,
            unresolved: 0,
            call_stack: vec![],
            call_vals: vec![],
            inlined: BTreeSet::new(),
            loop_depth: 0,
            const_cache: HashMap::new(),
            unroll: true,
            rounds: 2,
            tf: String::new(),
            locks: false,
            on_lock: None,
            lock_edges: BTreeSet::new(),
            lock_sites: BTreeSet::new(),
            eval_consts: false,
            max_states: 24,
            precise: false,
            concrete: false,
            entry_keys: vec![],
        }
    }

    // ---------------------------------------------------------------- entry
    /// Runs a function with its parameters as symbolic roots (or the given values).
    pub fn run(&mut self, fid: usize, args: Option<Vec<Vid>>, self_v: Option<Vid>) -> Vec<Exit> {
        let f = &self.m.fns[fid];
        let sv = match self_v {
            Some(v) => v,
            None => self.a.mk(Val::Param("self".into())),
        };
        let av: Vec<Vid> = match args {
            Some(v) => v,
            None => f
                .params
                .iter()
                .map(|(p, _, _)| {
                    let n = pat_name(p);
                    self.a.mk(Val::Param(n))
                })
                .collect(),
        };
        self.exec_fn(fid, if f.has_self { Some(sv) } else { None }, &av, State::new())
    }

    fn exec_fn(&mut self, fid: usize, self_v: Option<Vid>, args: &[Vid], st: State) -> Vec<Exit> {
        let m = self.m;
        let f = &m.fns[fid];
        let block = match &f.block {
            Some(b) => b.clone(),
            None => return vec![],
        };
        self.next_frame += 1;
        let fr = Frame {
            exits: vec![],
            loops: vec![],
            module: f.module.clone(),
            self_ty: f.self_ty.clone(),
            generics: f.generics.clone(),
            file: f.file.clone(),
            func: f.path.clone(),
            ret: f.ret.clone(),
            id: self.next_frame,
        };
        self.frames.push(fr);
        self.call_stack.push(fid);
        self.inlined.insert(fid);
        let saved = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        let mut st = st;
        let held = st.held.len();
        if let Some(v) = self_v {
            let k = self.declare("self", f.self_ty.clone().unwrap_or(Ty::Unknown));
            if self.frames.len() == 1 {
                self.entry_keys.push(("self".into(), k));
            }
            st.set(k, v);
        }
        let mut states = vec![st];
        for (i, (p, t, _)) in f.params.iter().enumerate() {
            let v = args.get(i).copied().unwrap_or(TOP);
            let mut ns = vec![];
            for s in states {
                if let (Some(s), _) = self.bind(p, v, t, s) {
                    ns.push(s)
                }
            }
            states = ns;
            if self.frames.len() == 1 {
                let n = pat_name(p);
                if let Some(k) = self.lookup(&n) {
                    self.entry_keys.push((n, k));
                }
            }
        }
        let ret = f.ret.clone();
        let mut outs = vec![];
        for s in states {
            outs.extend(self.block(&block, s, &ret));
        }
        let line = block.brace_token.span.close().start().line;
        self.scopes = saved;
        self.call_stack.pop();
        let mut fr = self.frames.pop().unwrap();
        for o in outs {
            fr.exits.push(Exit { v: o.v, s: o.s, line, kind: ExitKind::Tail });
        }
        if self.locks {
            let keep = ret.show().contains("Guard");
            for e in &mut fr.exits {
                self.frames.push(Frame { exits: vec![], loops: vec![], module: f.module.clone(), self_ty: None, generics: vec![], file: f.file.clone(), func: f.path.clone(), ret: Ty::Unknown, id: fr.id });
                self.release_from(&mut e.s, held, true, !keep);
                self.frames.pop();
            }
        }
        fr.exits
    }

    fn fr(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    fn module(&self) -> String {
        self.frames.last().unwrap().module.clone()
    }

    pub fn declare(&mut self, name: &str, t: Ty) -> u32 {
        self.declare_at(name, t, (0, 0))
    }
    fn declare_at(&mut self, name: &str, t: Ty, site: (usize, usize)) -> u32 {
        let key = (self.frames.last().map(|f| f.id).unwrap_or(0), format!("{}@{}", name, self.scopes.len()));
        let n = self.var_ty.len() as u32;
        let k = *self.var_keys.entry(key).or_insert(n);
        if k == n {
            self.var_ty.push(t);
            self.var_site.push(site);
        } else if t.known() || !self.var_ty[k as usize].known() || self.var_site[k as usize] != site {
            // another binding of the same name takes nothing over from the earlier one
            self.var_ty[k as usize] = t;
            self.var_site[k as usize] = site;
        }
        self.scopes.last_mut().unwrap().insert(name.to_string(), k);
        k
    }
    /// shadowing within the same scope level needs a distinct key when the old variable is captured; we accept reuse
    fn lookup(&self, name: &str) -> Option<u32> {
        for s in self.scopes.iter().rev() {
            if let Some(k) = s.get(name) {
                return Some(*k);
            }
        }
        None
    }

    // ---------------------------------------------------------------- joins
    pub fn tag(&self, v: Vid) -> String {
        match self.a.get(v) {
            Val::Ctor { p, .. } => {
                let l = last_seg(p);
                if matches!(l, "Ok" | "Err" | "Some" | "None") {
                    l.to_string()
                } else {
                    String::new()
                }
            }
            Val::Lit(s) if s == "true" || s == "false" => s.clone(),
            _ => String::new(),
        }
    }

    fn sig(&self, s: &State) -> String {
        let mut r = String::new();
        for (k, v) in s.env.iter() {
            let t = self.tag(*v);
            if !t.is_empty() {
                r.push_str(&format!("{k}{t};"));
            }
        }
        r
    }

    pub fn join_state(&mut self, a: &State, b: &State) -> State {
        let mut env = (*a.env).clone();
        if !Rc::ptr_eq(&a.env, &b.env) {
            for (k, v) in b.env.iter() {
                match env.get(k) {
                    Some(x) => {
                        let j = self.a.join(*x, *v);
                        env.insert(*k, j);
                    }
                    None => {
                        env.insert(*k, *v);
                    }
                }
            }
        }
        State {
            env: Rc::new(env),
            must: if Rc::ptr_eq(&a.must, &b.must) { a.must.clone() } else { Rc::new(a.must.intersection(&b.must).copied().collect()) },
            may: if Rc::ptr_eq(&a.may, &b.may) { a.may.clone() } else { Rc::new(a.may.union(&b.may).copied().collect()) },
            held: if a.held == b.held { a.held.clone() } else { Rc::new(a.held.iter().zip(b.held.iter()).take_while(|(x, y)| x == y).map(|x| x.0.clone()).collect()) },
            cells: if a.cells == b.cells {
                a.cells.clone()
            } else {
                let mut c = (*a.cells).clone();
                for (k, v) in b.cells.iter() {
                    let j = match c.get(k) {
                        Some(x) => self.a.join(*x, *v),
                        None => *v,
                    };
                    c.insert(k.clone(), j);
                }
                Rc::new(c)
            },
        }
    }

    // ---------------------------------------------------------------- locks
    fn lock_note(&mut self, what: &str, label: &str, s: &State) {
        self.a.held = s.held.iter().map(|x| x.0.clone()).collect();
        if let Some(h) = self.on_lock.clone() {
            h(&mut self.a, what, label);
        }
    }

    fn acquire(&mut self, e: &Expr, v: Vid, s: &mut State, line: usize, how: &str) -> Vid {
        let mut v = v;
        let label = match self.a.get(v).clone() {
            Val::Ctor { p, f } if last_seg(&p) == "Lock" && f.len() == 2 => {
                let n = f.iter().find(|x| x.0 == "name").map(|x| x.1).unwrap_or(TOP);
                v = f.iter().find(|x| x.0 == "value").map(|x| x.1).unwrap_or(TOP);
                self.a.show(n).trim_matches('"').to_string()
            }
            Val::Field(_, f) => f,
            Val::Param(p) => p,
            _ => match strip_group(e) {
                Expr::Field(f) => member(&f.member),
                Expr::Path(p) => last(&p.path).to_string(),
                _ => String::new(),
            },
        };
        if let Some(c) = s.cells.get(&label) {
            v = *c;
        }
        let (file, func) = {
            let f = self.fr();
            (f.file.clone(), f.func.clone())
        };
        for (h, _) in s.held.iter() {
            self.lock_edges.insert((h.clone(), label.clone(), format!("{func} ({how})"), file.clone(), line));
        }
        self.lock_sites.insert((label.clone(), file, line));
        Rc::make_mut(&mut s.held).push((label.clone(), None));
        self.lock_note(how, &label, s);
        v
    }

    fn release(&mut self, s: &mut State, i: usize) {
        let (label, var) = s.held[i].clone();
        if let Some(v) = var.and_then(|k| s.env.get(&k).copied()) {
            Rc::make_mut(&mut s.cells).insert(label.clone(), v);
        }
        Rc::make_mut(&mut s.held).remove(i);
        self.lock_note("unlock", &label, s);
    }

    /// the guards taken since there were `from`: released, the ones of variables or the temporaries
    fn release_from(&mut self, s: &mut State, from: usize, bound: bool, temps: bool) {
        let mut i = s.held.len();
        while i > from {
            i -= 1;
            if if s.held[i].1.is_some() { bound } else { temps } {
                self.release(s, i);
            }
        }
    }

    /// does the expression hand on a guard
    fn guard_tail(&self, e: &Expr) -> bool {
        match strip_group(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "unwrap" | "expect") {
                    return self.guard_tail(&m.receiver);
                }
                m.args.is_empty() && matches!(n.as_str(), "lock" | "read" | "write") || self.m.fns.iter().any(|f| f.name == n && f.ret.show().contains("Guard"))
            }
            Expr::Call(c) => match strip_group(&c.func) {
                Expr::Path(p) => {
                    let n = last(&p.path).to_string();
                    self.m.fns.iter().any(|f| f.name == n && f.ret.show().contains("Guard"))
                }
                _ => false,
            },
            Expr::Try(t) => self.guard_tail(&t.expr),
            _ => false,
        }
    }

    fn join_ty(a: Ty, b: &Ty) -> Ty {
        if a.known() {
            a
        } else {
            b.clone()
        }
    }

    fn merge(&mut self, outs: Vec<Out>) -> Vec<Out> {
        if outs.len() <= 1 {
            return outs;
        }
        let mut groups: BTreeMap<String, Vec<Out>> = BTreeMap::new();
        for o in outs {
            let key = if self.precise { format!("{}|{:?}|{:?}", o.v, o.s.must, o.s.env) } else { format!("{}|{}", self.tag(o.v), self.sig(&o.s)) };
            groups.entry(key).or_default().push(o);
        }
        let mut res = vec![];
        let collapse = groups.len() > self.max_states;
        if collapse {
            // group by the value tag only
            let mut g2: BTreeMap<String, Vec<Out>> = BTreeMap::new();
            for (_, v) in groups {
                for o in v {
                    g2.entry(self.tag(o.v)).or_default().push(o);
                }
            }
            groups = g2;
        }
        for (_, g) in groups {
            let mut it = g.into_iter();
            let mut acc = it.next().unwrap();
            for o in it {
                acc.v = self.a.join(acc.v, o.v);
                acc.s = self.join_state(&acc.s, &o.s);
                acc.t = Self::join_ty(acc.t, &o.t);
            }
            res.push(acc);
        }
        res
    }

    fn merge_states(&mut self, ss: Vec<State>) -> Vec<State> {
        let outs = ss.into_iter().map(|s| Out { v: UNIT, t: Ty::Unknown, s }).collect();
        self.merge(outs).into_iter().map(|o| o.s).collect()
    }

    fn join_all_states(&mut self, ss: Vec<State>) -> Option<State> {
        let mut it = ss.into_iter();
        let mut acc = it.next()?;
        for s in it {
            acc = self.join_state(&acc, &s);
        }
        Some(acc)
    }

    // ---------------------------------------------------------------- blocks
    fn block(&mut self, b: &syn::Block, s: State, exp: &Ty) -> Vec<Out> {
        self.scopes.push(HashMap::new());
        let held = s.held.len();
        let mut r = self.stmts(&b.stmts, s, exp);
        let vars = self.scopes.pop().unwrap();
        if self.locks {
            let moved = match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => match strip_group(e) {
                    Expr::Path(p) if p.path.segments.len() == 1 => vars.get(&p.path.segments[0].ident.to_string()).copied(),
                    _ => None,
                },
                _ => None,
            };
            for o in &mut r {
                let mut i = o.s.held.len();
                while i > held {
                    i -= 1;
                    match o.s.held[i].1 {
                        Some(k) if Some(k) == moved => Rc::make_mut(&mut o.s.held)[i].1 = None,
                        Some(k) if vars.values().any(|x| *x == k) => self.release(&mut o.s, i),
                        _ => {}
                    }
                }
            }
        }
        r
    }

    fn stmts(&mut self, stmts: &[Stmt], s: State, exp: &Ty) -> Vec<Out> {
        // statics and constants of a block are bindings of their initialisers
        if stmts.iter().any(|s| matches!(s, Stmt::Item(syn::Item::Const(_) | syn::Item::Static(_))) || matches!(s, Stmt::Macro(m) if last(&m.mac.path) == "lazy_static")) {
            let mut pre: Vec<Stmt> = vec![];
            let mut rest: Vec<Stmt> = vec![];
            let mut add = |id: &syn::Ident, ty: &syn::Type, e: &Expr| -> Stmt { syn::parse_quote!(let mut #id: #ty = #e;) };
            for st in stmts {
                match st {
                    Stmt::Item(syn::Item::Const(c)) => pre.push(add(&c.ident, &c.ty, &c.expr)),
                    Stmt::Item(syn::Item::Static(c)) => pre.push(add(&c.ident, &c.ty, &c.expr)),
                    Stmt::Macro(m) if last(&m.mac.path) == "lazy_static" => {
                        let f = syn::parse_str::<syn::File>(&m.mac.tokens.to_string().replace("static ref", "static"));
                        for it in f.map(|f| f.items).unwrap_or_default() {
                            if let syn::Item::Static(c) = &it {
                                pre.push(add(&c.ident, &c.ty, &c.expr));
                            }
                        }
                    }
                    _ => rest.push(st.clone()),
                }
            }
            pre.extend(rest);
            return self.stmts(&pre, s, exp);
        }
        let mut states = vec![s];
        let n = stmts.len();
        // nested fns are hoisted as unknown
        for (i, st) in stmts.iter().enumerate() {
            let lastp = i + 1 == n;
            let mut next: Vec<State> = vec![];
            let mut outs: Vec<Out> = vec![];
            for s in states {
                match st {
                    Stmt::Local(l) => {
                        let (pat, ann) = match &l.pat {
                            Pat::Type(pt) => {
                                let (m, st, g) = self.ctx();
                                ((*pt.pat).clone(), self.m.ty(&pt.ty, &m, st.as_ref(), &g))
                            }
                            p => (p.clone(), Ty::Unknown),
                        };
                        match &l.init {
                            None => {
                                if let (Some(s2), _) = self.bind(&pat, TOP, &ann, s) {
                                    next.push(s2);
                                }
                            }
                            Some(init) => {
                                let held = s.held.len();
                                self.entry_ref = None;
                                let hands = self.locks && self.guard_tail(&init.expr);
                                let os = self.ev(&init.expr, s, &ann);
                                for mut o in os {
                                    let mut guard = None;
                                    if self.locks && o.s.held.len() > held {
                                        if hands && o.s.held.last().map_or(false, |x| x.1.is_none()) {
                                            guard = Rc::make_mut(&mut o.s.held).pop();
                                        }
                                        self.release_from(&mut o.s, held, false, true);
                                    }
                                    let t = if ann.known() { ann.clone() } else { o.t.clone() };
                                    let er = self.entry_ref.clone().filter(|r| r.0 == o.v).or_else(|| self.mut_place(&init.expr, &o.s).map(|(r, st)| (o.v, r, st)));
                                    let (y, nn) = self.bind(&pat, o.v, &t, o.s);
                                    match (er, &pat) {
                                        (Some((_, root, steps)), Pat::Ident(i)) => {
                                            if let Some(k) = self.lookup(&i.ident.to_string()) {
                                                self.refs.insert(k, (root, steps));
                                            }
                                        }
                                        (_, Pat::Ident(i)) if self.locks => {
                                            let some = |v: Vid, x: Vid| matches!(self.a.get(v), Val::Ctor { p, f } if p == "Some" && f.len() == 1 && f[0].1 == x);
                                            if let (Some(k), Some(r)) = (self.lookup(&i.ident.to_string()), self.entry_ref.clone().filter(|r| some(o.v, r.0))) {
                                                self.opt_refs.insert(k, r);
                                            }
                                        }
                                        _ => self.refs_in_some(&pat, o.v),
                                    }
                                    if let Some(mut y) = y {
                                        if let Some((l, _)) = guard {
                                            Rc::make_mut(&mut y.held).push((l.clone(), None));
                                            match &pat {
                                                Pat::Ident(i) => {
                                                    let k = self.lookup(&i.ident.to_string());
                                                    Rc::make_mut(&mut y.held).last_mut().unwrap().1 = k;
                                                }
                                                // `let _ = ..` drops at once
                                                _ => {
                                                    let i = y.held.len() - 1;
                                                    self.release(&mut y, i)
                                                }
                                            }
                                        }
                                        next.push(y);
                                    }
                                    if let (Some(nn), Some((_, d))) = (nn, &init.diverge) {
                                        // let-else
                                        let r = self.ev(d, nn, &Ty::Unknown);
                                        next.extend(r.into_iter().map(|o| o.s));
                                    }
                                }
                            }
                        }
                    }
                    Stmt::Item(it) => {
                        if let syn::Item::Use(_) = it {}
                        next.push(s);
                    }
                    Stmt::Expr(e, semi) => {
                        let held = s.held.len();
                        let mut os = self.ev(e, s, if lastp && semi.is_none() { exp } else { &Ty::Unknown });
                        if self.locks && !(lastp && semi.is_none()) {
                            for o in &mut os {
                                self.release_from(&mut o.s, held, false, true);
                            }
                        }
                        if lastp && semi.is_none() {
                            outs.extend(os);
                        } else {
                            next.extend(os.into_iter().map(|o| o.s));
                        }
                    }
                    Stmt::Macro(mc) => {
                        let os = self.mac(&mc.mac, s, exp, mc.mac.span());
                        if lastp && mc.semi_token.is_none() {
                            outs.extend(os);
                        } else {
                            next.extend(os.into_iter().map(|o| o.s));
                        }
                    }
                }
            }
            if lastp && !outs.is_empty() {
                let mut all = outs;
                all.extend(next.into_iter().map(|s| Out { v: UNIT, t: Ty::Tuple(vec![]), s }));
                return self.merge(all);
            }
            states = self.merge_states(next);
            if states.is_empty() {
                return vec![];
            }
        }
        states.into_iter().map(|s| Out { v: UNIT, t: Ty::Tuple(vec![]), s }).collect()
    }

    fn ctx(&self) -> (String, Option<Ty>, Vec<String>) {
        let f = self.frames.last().unwrap();
        (f.module.clone(), f.self_ty.clone(), f.generics.clone())
    }

    // ---------------------------------------------------------------- patterns
    /// resolves a pattern/expr path to a canonical path
    fn canon(&self, p: &syn::Path) -> String {
        let (m, st, _) = self.ctx();
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "Self" {
            let base = st.map(|t| t.path().to_string()).unwrap_or("Self".into());
            let mut r = base;
            for s in &segs[1..] {
                r.push_str("::");
                r.push_str(s);
            }
            return r;
        }
        let r = self.m.resolve(&m, &segs);
        // type aliases
        if segs.len() > 1 {
            let base = r.rsplitn(2, "::").nth(1).unwrap_or("").to_string();
            if let Some((t, md, g)) = self.m.aliases.get(&base) {
                let t = self.m.ty(t, md, None, g);
                if t.known() {
                    return format!("{}::{}", t.path(), segs.last().unwrap());
                }
            }
        }
        match r.as_str() {
            "Option::Some" | "std::option::Option::Some" => "Some".into(),
            "Option::None" | "std::option::Option::None" => "None".into(),
            "Result::Ok" | "std::result::Result::Ok" => "Ok".into(),
            "Result::Err" | "std::result::Result::Err" => "Err".into(),
            _ => r,
        }
    }

    fn variant_fields(&self, canon: &str) -> Option<(&'m EnumDef, usize)> {
        let m: &'m Model = self.m;
        let (e, v) = canon.rsplit_once("::")?;
        let ed = m.enums.get(e)?;
        let i = ed.variants.iter().position(|x| x.name == v)?;
        Some((ed, i))
    }

    fn same_variant(a: &str, b: &str) -> bool {
        a == b || {
            // external enums may be written with different import prefixes
            let ra: Vec<&str> = a.rsplitn(3, "::").collect();
            let rb: Vec<&str> = b.rsplitn(3, "::").collect();
            ra[0] == rb[0] && ra.len() > 1 && rb.len() > 1 && ra[1] == rb[1] && !(CRATES.contains(&a.split("::").next().unwrap()) && CRATES.contains(&b.split("::").next().unwrap()))
        }
    }

    /// binds pattern; returns (matching state, non-matching state)
    pub fn bind(&mut self, p: &Pat, v: Vid, t: &Ty, s: State) -> (Option<State>, Option<State>) {
        match p {
            Pat::Wild(_) | Pat::Rest(_) => (Some(s), None),
            Pat::Ident(i) => {
                let name = i.ident.to_string();
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && name.chars().next().map_or(false, |c| c.is_uppercase()) {
                    let path: syn::Path = i.ident.clone().into();
                    return self.bind_variant(&path, &[], None, v, t, s);
                }
                let mut s = s;
                let mut no = None;
                if let Some((_, sp)) = &i.subpat {
                    let (y, n) = self.bind(sp, v, t, s);
                    no = n;
                    match y {
                        Some(y) => s = y,
                        None => return (None, no),
                    }
                }
                let sp = i.ident.span().start();
                let k = self.declare_at(&name, t.clone(), (sp.line, sp.column));
                s.set(k, v);
                (Some(s), no)
            }
            Pat::Type(pt) => {
                let (m, st, g) = self.ctx();
                let ty = self.m.ty(&pt.ty, &m, st.as_ref(), &g);
                self.bind(&pt.pat, v, if ty.known() { &ty } else { t }, s)
            }
            Pat::Reference(r) => self.bind(&r.pat, v, t, s),
            Pat::Paren(r) => self.bind(&r.pat, v, t, s),
            Pat::Tuple(tp) => {
                let pats: Vec<&Pat> = tp.elems.iter().collect();
                self.bind_seq(&pats, v, t, s)
            }
            Pat::Slice(sl) => {
                if let (true, Val::List { must, may }) = (self.concrete, self.a.get(v).clone()) {
                    let is_rest = |p: &Pat| match p {
                        Pat::Rest(_) => true,
                        Pat::Ident(i) => i.subpat.as_ref().is_some_and(|x| matches!(&*x.1, Pat::Rest(_))),
                        _ => false,
                    };
                    let rest = sl.elems.iter().position(is_rest);
                    if may.is_empty() {
                        let n = sl.elems.len();
                        if rest.is_none() && must.len() != n || rest.is_some() && must.len() < n - 1 {
                            return (None, Some(s));
                        }
                        let et = t.peel().arg(0);
                        let mut cur = s.clone();
                        let mut no = None;
                        for (i, q) in sl.elems.iter().enumerate() {
                            let (x, q) = match rest {
                                Some(r) if i == r => {
                                    let mid = must[r..must.len() - (n - 1 - r)].to_vec();
                                    match q {
                                        Pat::Ident(id) => {
                                            let mut id = id.clone();
                                            id.subpat = None;
                                            (self.a.mk(Val::List { must: mid, may: vec![] }), Pat::Ident(id))
                                        }
                                        _ => continue,
                                    }
                                }
                                Some(r) if i > r => (must[must.len() - (n - i)], q.clone()),
                                _ => (must[i], q.clone()),
                            };
                            let qt = if rest == Some(i) { t.clone() } else { et.clone() };
                            match self.bind(&q, x, &qt, cur.clone()) {
                                (Some(y), None) => cur = y,
                                (Some(y), Some(_)) => {
                                    // may or may not fit
                                    cur = y;
                                    no = Some(s.clone());
                                }
                                (None, n) => return (None, n),
                            }
                        }
                        return (Some(cur), no);
                    }
                }
                let mut cur = s.clone();
                let el = self.a.elem(v);
                for q in &sl.elems {
                    let et = t.peel().arg(0);
                    if let (Some(y), _) = self.bind(q, el, &et, cur.clone()) {
                        cur = y;
                    }
                }
                (Some(cur), Some(s))
            }
            Pat::TupleStruct(ts) => {
                let subs: Vec<(String, Pat)> = ts.elems.iter().enumerate().filter(|(_, p)| !matches!(p, Pat::Rest(_))).map(|(i, p)| (i.to_string(), p.clone())).collect();
                self.bind_variant(&ts.path, &subs, None, v, t, s)
            }
            Pat::Struct(ps) => {
                let subs: Vec<(String, Pat)> = ps.fields.iter().map(|f| (member(&f.member), (*f.pat).clone())).collect();
                self.bind_variant(&ps.path, &subs, None, v, t, s)
            }
            Pat::Path(pp) => self.bind_variant(&pp.path, &[], None, v, t, s),
            Pat::Lit(l) => {
                let lv = lit_str(&l.lit);
                if let Val::Lit(x) = self.a.get(v) {
                    return if *x == lv { (Some(s), None) } else { (None, Some(s)) };
                }
                let lid = self.a.lit(&lv);
                if lv == "true" || lv == "false" {
                    let f = self.a.fact(Fact::Cond(v, lv == "true"));
                    let g = self.a.fact(Fact::Cond(v, lv != "true"));
                    if s.must.contains(&f) {
                        return (Some(s), None);
                    }
                    if s.must.contains(&g) {
                        return (None, Some(s));
                    }
                    let mut y = s.clone();
                    y.add(f);
                    let mut n = s;
                    n.add(g);
                    return (Some(y), Some(n));
                }
                let eq = self.a.mk(Val::Bin("==".into(), v, lid));
                self.split_cond(eq, s)
            }
            Pat::Range(r) => {
                let num = |t: &str| t.trim_end_matches(|c: char| c.is_alphabetic() || c == '_').parse::<i128>().ok();
                let edge = |x: &Option<Box<Expr>>| match x.as_deref() {
                    None => Some(None),
                    Some(Expr::Lit(l)) => num(&lit_str(&l.lit)).map(Some),
                    Some(Expr::Unary(u)) if matches!(u.op, syn::UnOp::Neg(_)) => match &*u.expr {
                        Expr::Lit(l) => num(&lit_str(&l.lit)).map(|n| Some(-n)),
                        _ => None,
                    },
                    _ => None,
                };
                let at = match self.a.get(v) {
                    Val::Lit(x) => num(x),
                    _ => None,
                };
                if let (Some(n), Some(lo), Some(hi)) = (at, edge(&r.start), edge(&r.end)) {
                    let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                    let fits = lo.is_none_or(|l| n >= l) && hi.is_none_or(|h| if closed { n <= h } else { n < h });
                    return if fits { (Some(s), None) } else { (None, Some(s)) };
                }
                (Some(s.clone()), Some(s))
            }
            Pat::Or(o) => {
                // bind each case; union
                let mut yes = vec![];
                let mut rest = Some(s);
                for c in &o.cases {
                    if let Some(r) = rest.take() {
                        let (y, n) = self.bind(c, v, t, r);
                        if let Some(y) = y {
                            yes.push(y);
                        }
                        rest = n;
                    }
                }
                (self.join_all_states(yes), rest)
            }
            Pat::Macro(_) | Pat::Verbatim(_) => (Some(s.clone()), Some(s)),
            _ => (Some(s.clone()), Some(s)),
        }
    }

    fn bind_seq(&mut self, pats: &[&Pat], v: Vid, t: &Ty, s: State) -> (Option<State>, Option<State>) {
        let mut cur = s.clone();
        let mut refut: Vec<State> = vec![];
        let rest_at = pats.iter().position(|p| matches!(p, Pat::Rest(_)));
        let n = pats.len();
        let total = match self.a.get(v) {
            Val::Tuple(x) => x.len(),
            _ => match t.peel() {
                Ty::Tuple(x) => x.len(),
                _ => n,
            },
        };
        for (i, p) in pats.iter().enumerate() {
            if matches!(p, Pat::Rest(_)) {
                continue;
            }
            let idx = match rest_at {
                Some(r) if i > r => total - (n - i),
                _ => i,
            };
            let fv = self.a.field(v, &idx.to_string());
            let ft = self.m.field_ty(t, &idx.to_string());
            let (y, nn) = self.bind(p, fv, &ft, cur.clone());
            if let Some(nn) = nn {
                refut.push(nn);
            }
            match y {
                Some(y) => cur = y,
                None => return (None, self.join_all_states(refut)),
            }
        }
        let no = self.join_all_states(refut);
        (Some(cur), no)
    }

    fn bind_variant(&mut self, path: &syn::Path, subs: &[(String, Pat)], _x: Option<()>, v: Vid, t: &Ty, s: State) -> (Option<State>, Option<State>) {
        let c = self.canon(path);
        let l = last_seg(&c).to_string();
        // plain struct pattern
        if self.m.structs.contains_key(&c) {
            let mut cur = s;
            let mut refut = vec![];
            let st = Ty::Path(c.clone(), vec![]);
            for (f, p) in subs {
                let fv = self.a.field(v, f);
                let mut ft = self.m.field_ty(&st, f);
                // generic wrappers such as Json<T>
                if f == "0" && (!ft.known() || ft.path().len() == 1) && t.path() == c {
                    ft = t.arg(0);
                }
                let (y, nn) = self.bind(p, fv, &ft, cur.clone());
                if let Some(nn) = nn {
                    refut.push(nn);
                }
                match y {
                    Some(y) => cur = y,
                    None => return (None, self.join_all_states(refut)),
                }
            }
            let no = self.join_all_states(refut);
            return (Some(cur), no);
        }
        // constant pattern
        if self.m.consts.contains_key(&c) || (self.variant_fields(&c).is_none() && subs.is_empty() && path.segments.len() == 1 && !matches!(l.as_str(), "None" | "Some" | "Ok" | "Err") && l.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())) {
            let cv = self.a.mk(Val::Const(c));
            if cv == v {
                return (Some(s), None);
            }
            let eq = self.a.mk(Val::Bin("==".into(), v, cv));
            return self.split_cond(eq, s);
        }
        let special = matches!(c.as_str(), "Some" | "Ok" | "Err" | "None");
        // concrete constructor?
        let alts = self.a.alts(v);
        let all_ctor = alts.iter().all(|x| matches!(self.a.get(*x), Val::Ctor { .. }) || matches!(self.a.get(*x), Val::Const(k) if self.variant_fields(k).is_some()));
        if all_ctor {
            let mut yes = vec![];
            let mut noo = vec![];
            for x in alts {
                let (cp, fs) = match self.a.get(x).clone() {
                    Val::Ctor { p, f } => (p, f),
                    Val::Const(p) => (p, vec![]),
                    _ => unreachable!(),
                };
                if Self::same_variant(&cp, &c) {
                    let mut cur = s.clone();
                    let mut ok = true;
                    for (f, p) in subs {
                        let fv = fs.iter().find(|q| q.0 == *f).map(|q| q.1).unwrap_or(TOP);
                        let ft = self.payload_ty(&c, f, t);
                        let (y, n) = self.bind(p, fv, &ft, cur.clone());
                        if let Some(n) = n {
                            noo.push(n);
                        }
                        match y {
                            Some(y) => cur = y,
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        yes.push(cur);
                    }
                } else {
                    noo.push(s.clone());
                }
            }
            let y = self.join_all_states(yes);
            let n = self.join_all_states(noo);
            return (y, n);
        }
        let isf = match c.as_str() {
            "Ok" => self.a.fact(Fact::Ok(v)),
            "Err" => self.a.fact(Fact::Err(v)),
            "Some" => self.a.fact(Fact::Some(v)),
            "None" => self.a.fact(Fact::None(v)),
            _ => self.a.fact(Fact::Is(v, c.clone())),
        };
        let notf = match c.as_str() {
            "Ok" => self.a.fact(Fact::Err(v)),
            "Err" => self.a.fact(Fact::Ok(v)),
            "Some" => self.a.fact(Fact::None(v)),
            "None" => self.a.fact(Fact::Some(v)),
            _ => self.a.fact(Fact::NotIs(v, c.clone())),
        };
        if s.must.contains(&notf) {
            return (None, Some(s));
        }
        if !special {
            // known to be another variant?
            for f in s.must.iter() {
                if let Fact::Is(x, o) = &self.a.facts[*f as usize] {
                    if *x == v && !Self::same_variant(o, &c) {
                        return (None, Some(s));
                    }
                }
            }
        }
        let known = s.must.contains(&isf);
        let mut y = s.clone();
        y.add(isf);
        let mut refut = vec![];
        if !known {
            let mut n = s.clone();
            n.add(notf);
            // if every other variant is excluded the pattern is irrefutable
            let mut irref = false;
            if let Some((ed, _)) = self.variant_fields(&c) {
                if ed.variants.len() == 1 {
                    irref = true;
                } else {
                    let base = c.rsplit_once("::").unwrap().0;
                    irref = ed.variants.iter().all(|o| {
                        let q = format!("{base}::{}", o.name);
                        q == c || self.a.fact_id(&Fact::NotIs(v, q)).map_or(false, |f| s.must.contains(&f))
                    });
                }
            }
            if !irref {
                refut.push(n);
            }
        }
        let mut cur = y;
        for (f, p) in subs {
            let fv = if matches!(c.as_str(), "Some" | "Ok") { v } else { self.a.mk(Val::Payload(v, c.clone(), f.clone())) };
            let ft = self.payload_ty(&c, f, t);
            let (y, n) = self.bind(p, fv, &ft, cur.clone());
            if let Some(n) = n {
                refut.push(n);
            }
            match y {
                Some(y) => cur = y,
                None => return (None, self.join_all_states(refut)),
            }
        }
        let no = self.join_all_states(refut);
        (Some(cur), no)
    }

    fn payload_ty(&self, c: &str, f: &str, t: &Ty) -> Ty {
        let t = t.peel();
        match c {
            "Some" | "Ok" => t.arg(0),
            "Err" => t.arg(1),
            _ => match self.variant_fields(c) {
                Some((ed, i)) => {
                    let ft = ed.variants[i].fields.iter().find(|x| x.0 == f).map(|x| x.1.clone()).unwrap_or(Ty::Unknown);
                    if !ft.known() {
                        // generic payload such as OptionalProperty<T>::Some(T)
                        return t.arg(0);
                    }
                    ft
                }
                // external wrappers such as Extension<T>, Path<T>
                None if f == "0" && last_seg(c) == t.name() => t.arg(0),
                None => Ty::Unknown,
            },
        }
    }

    fn split_cond(&mut self, c: Vid, s: State) -> (Option<State>, Option<State>) {
        match self.a.get(c).clone() {
            Val::Lit(x) if x == "true" => return (Some(s), None),
            Val::Lit(x) if x == "false" => return (None, Some(s)),
            Val::Not(i) => {
                let (a, b) = self.split_cond(i, s);
                return (b, a);
            }
            Val::Bin(op, a, b) if op == "==" || op == "!=" => {
                let (la, lb) = (self.a.get(a).clone(), self.a.get(b).clone());
                let known = match (&la, &lb) {
                    (Val::Lit(x), Val::Lit(y)) => Some(x == y),
                    _ if a == b && access(&self.a, a).is_some() => Some(true),
                    (Val::Ctor { p, f }, Val::Ctor { p: q, f: g }) if f.is_empty() && g.is_empty() => Some(p == q),
                    (Val::Ctor { p, .. }, Val::Ctor { p: q, .. }) if p != q => Some(false),
                    (Val::Lit(_), Val::Cast(..)) | (Val::Cast(..), Val::Lit(_)) | (Val::Cast(..), Val::Cast(..)) if self.concrete => self.lit_eq(a, b),
                    (Val::Ctor { .. }, Val::Ctor { .. }) | (Val::List { .. }, Val::List { .. }) | (Val::Tuple(..), Val::Tuple(..)) if self.concrete => self.lit_eq(a, b),
                    _ => None,
                };
                if let Some(k) = known {
                    let k = if op == "==" { k } else { !k };
                    return if k { (Some(s), None) } else { (None, Some(s)) };
                }
            }
            Val::Call { f, args } if args.len() == 2 && f == ".contains" => {
                if let (Val::List { must, may }, y) = (self.a.get(args[0]).clone(), self.a.get(args[1]).clone()) {
                    let unit = |v: &Val| matches!(v, Val::Lit(_)) || matches!(v, Val::Ctor { f, .. } if f.is_empty());
                    if must.contains(&args[1]) {
                        return (Some(s), None);
                    }
                    if unit(&y) && must.iter().chain(&may).all(|x| unit(self.a.get(*x))) && !may.contains(&args[1]) {
                        return (None, Some(s));
                    }
                }
            }
            Val::Call { f, args } if args.len() == 1 && matches!(f.as_str(), ".is_some" | ".is_ok" | ".is_none" | ".is_err") => {
                let pos = matches!(f.as_str(), ".is_some" | ".is_ok");
                let x = args[0];
                let t = self.tag(x);
                if !t.is_empty() {
                    let ok = matches!(t.as_str(), "Ok" | "Some");
                    return if ok == pos { (Some(s), None) } else { (None, Some(s)) };
                }
                let (okf, erf) = self.okerr(x, if matches!(f.as_str(), ".is_some" | ".is_none") { "Option" } else { "Result" }, &s);
                let (y, n) = if s.must.contains(&okf) {
                    (Some(s), None)
                } else if s.must.contains(&erf) {
                    (None, Some(s))
                } else {
                    let mut y = s.clone();
                    y.add(okf);
                    let mut n = s;
                    n.add(erf);
                    (Some(y), Some(n))
                };
                return if pos { (y, n) } else { (n, y) };
            }
            _ => {}
        }
        let t = self.a.fact(Fact::Cond(c, true));
        let f = self.a.fact(Fact::Cond(c, false));
        if s.must.contains(&t) {
            return (Some(s), None);
        }
        if s.must.contains(&f) {
            return (None, Some(s));
        }
        let mut y = s.clone();
        y.add(t);
        let mut n = s;
        n.add(f);
        (Some(y), Some(n))
    }

    /// evaluates a condition; returns (true states, false states)
    fn cond(&mut self, e: &Expr, s: State) -> (Vec<State>, Vec<State>) {
        let e = strip_group(e);
        match e {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let (t, mut f) = self.cond(&b.left, s);
                let mut tt = vec![];
                for x in t {
                    let (a, c) = self.cond(&b.right, x);
                    tt.extend(a);
                    f.extend(c);
                }
                (self.merge_states(tt), self.merge_states(f))
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                let (mut t, f) = self.cond(&b.left, s);
                let mut ff = vec![];
                for x in f {
                    let (a, c) = self.cond(&b.right, x);
                    t.extend(a);
                    ff.extend(c);
                }
                (self.merge_states(t), self.merge_states(ff))
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                let (t, f) = self.cond(&u.expr, s);
                (f, t)
            }
            Expr::Let(l) => {
                self.entry_ref = None;
                let os = self.ev(&l.expr, s, &Ty::Unknown);
                self.entry_ref = self.found_at(&l.expr);
                let (mut t, mut f) = (vec![], vec![]);
                for o in os {
                    let (y, n) = self.bind(&l.pat, o.v, &o.t, o.s);
                    if y.is_some() {
                        self.refs_in_some(&l.pat, o.v);
                    }
                    t.extend(y);
                    f.extend(n);
                }
                (t, f)
            }
            Expr::Macro(m) if last(&m.mac.path) == "matches" => {
                let parsed = syn::parse::Parser::parse2(
                    |i: syn::parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g: Option<Expr> = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok((e, p, g))
                    },
                    m.mac.tokens.clone(),
                );
                if let Ok((x, p, g)) = parsed {
                    let os = self.ev(&x, s, &Ty::Unknown);
                    let (mut t, mut f) = (vec![], vec![]);
                    self.scopes.push(HashMap::new());
                    for o in os {
                        let (y, n) = self.bind(&p, o.v, &o.t, o.s);
                        f.extend(n);
                        if let Some(y) = y {
                            match &g {
                                None => t.push(y),
                                Some(g) => {
                                    let (a, b) = self.cond(g, y);
                                    t.extend(a);
                                    f.extend(b);
                                }
                            }
                        }
                    }
                    self.scopes.pop();
                    return (t, f);
                }
                (vec![s.clone()], vec![s])
            }
            _ => {
                let os = self.ev(e, s, &Ty::Path("bool".into(), vec![]));
                let (mut t, mut f) = (vec![], vec![]);
                for o in os {
                    let (y, n) = self.split_cond(o.v, o.s);
                    t.extend(y);
                    f.extend(n);
                }
                (t, f)
            }
        }
    }

    // ---------------------------------------------------------------- expressions
    fn ret_exit(&mut self, v: Vid, s: State, line: usize, kind: ExitKind) {
        let f = self.fr();
        f.exits.push(Exit { v, s, line, kind });
    }

    fn one(v: Vid, t: Ty, s: State) -> Vec<Out> {
        vec![Out { v, t, s }]
    }

    pub fn ev(&mut self, e: &Expr, s: State, exp: &Ty) -> Vec<Out> {
        self.steps += 1;
        if self.steps > self.max_steps {
            self.overflow = true;
            return vec![];
        }
        match e {
            Expr::Group(g) => self.ev(&g.expr, s, exp),
            Expr::Paren(g) => self.ev(&g.expr, s, exp),
            Expr::Reference(r) => self.ev(&r.expr, s, exp),
            Expr::Await(a) => self.ev(&a.base, s, exp),
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => self.ev(&u.expr, s, exp),
                syn::UnOp::Not(_) => {
                    let os = self.ev(&u.expr, s, exp);
                    os.into_iter()
                        .map(|o| {
                            let v = match self.a.get(o.v).clone() {
                                Val::Lit(x) if x == "true" => self.a.lit("false"),
                                Val::Lit(x) if x == "false" => self.a.lit("true"),
                                Val::Not(x) => x,
                                _ => self.a.mk(Val::Not(o.v)),
                            };
                            Out { v, ..o }
                        })
                        .collect()
                }
                _ => {
                    let os = self.ev(&u.expr, s, exp);
                    os.into_iter()
                        .map(|o| {
                            let v = match self.a.get(o.v).clone() {
                                Val::Lit(x) => self.a.lit(&format!("-{x}")),
                                _ => self.a.mk(Val::Call { f: "neg".into(), args: vec![o.v] }),
                            };
                            Out { v, ..o }
                        })
                        .collect()
                }
            },
            Expr::Lit(l) => {
                let v = self.a.lit(&lit_str(&l.lit));
                let t = match &l.lit {
                    syn::Lit::Str(_) => Ty::Path("str".into(), vec![]),
                    syn::Lit::Bool(_) => Ty::Path("bool".into(), vec![]),
                    _ => Ty::Unknown,
                };
                Self::one(v, t, s)
            }
            Expr::Path(p) => self.path_expr(p, s),
            Expr::Field(f) => {
                let os = self.ev(&f.base, s, &Ty::Unknown);
                let name = member(&f.member);
                let mut r = vec![];
                for o in os {
                    let v = self.a.field(o.v, &name);
                    let t = self.m.field_ty(&o.t, &name);
                    r.push(Out { v, t, s: o.s });
                }
                r
            }
            Expr::Index(ix) => {
                let os = self.ev(&ix.expr, s, &Ty::Unknown);
                let mut r = vec![];
                for o in os {
                    for i in self.ev(&ix.index, o.s.clone(), &Ty::Unknown) {
                        let mut v = None;
                        if let (Val::List { must, may }, Val::Lit(l)) = (self.a.get(o.v).clone(), self.a.get(i.v).clone()) {
                            if may.is_empty() {
                                if let Ok(n) = l.parse::<usize>() {
                                    v = must.get(n).copied();
                                }
                            }
                        }
                        let rng = matches!(self.a.get(i.v), Val::Ctor{p,..} if p == "Range");
                        let t = if rng { o.t.clone() } else { match o.t.peel().name() { "HashMap" | "BTreeMap" => o.t.peel().arg(1), _ => o.t.peel().arg(0) } };
                        if rng {
                            v = self.slice_list(o.v, i.v);
                        }
                        let v = match v {
                            Some(v) => v,
                            None => self.a.mk(Val::Index(o.v, i.v)),
                        };
                        r.push(Out { v, t, s: i.s });
                    }
                }
                r
            }
            Expr::Tuple(t) => {
                if t.elems.is_empty() {
                    return Self::one(UNIT, Ty::Tuple(vec![]), s);
                }
                let exps: Vec<Ty> = match exp {
                    Ty::Tuple(v) if v.len() == t.elems.len() => v.clone(),
                    _ => vec![Ty::Unknown; t.elems.len()],
                };
                let es: Vec<&Expr> = t.elems.iter().collect();
                let rs = self.evs(&es, s, &exps);
                rs.into_iter()
                    .map(|(vs, ts, s)| {
                        let v = self.a.mk(Val::Tuple(vs));
                        Out { v, t: Ty::Tuple(ts), s }
                    })
                    .collect()
            }
            Expr::Array(ar) => {
                let es: Vec<&Expr> = ar.elems.iter().collect();
                let et = exp.peel().arg(0);
                self.list(&es, s, &et)
            }
            Expr::Repeat(r) => {
                let os = self.ev(&r.expr, s, &exp.peel().arg(0));
                os.into_iter().map(|o| self.repeated(o, &r.len)).collect()
            }
            Expr::Cast(c) => {
                let (m, st, g) = self.ctx();
                let t = self.m.ty(&c.ty, &m, st.as_ref(), &g);
                let os = self.ev(&c.expr, s, &Ty::Unknown);
                os.into_iter()
                    .map(|o| {
                        let num = if matches!(self.a.get(o.v), Val::Ctor { f, .. } if f.is_empty()) || matches!(self.a.get(o.v), Val::Const(_)) { self.ext_model("as", &[o.v]) } else { None };
                        let same = self.concrete
                            && self.a.int(o.v).map_or(false, |n| match t.name() {
                                "i8" => i8::try_from(n).is_ok(),
                                "i16" => i16::try_from(n).is_ok(),
                                "i32" => i32::try_from(n).is_ok(),
                                "i64" | "isize" => i64::try_from(n).is_ok(),
                                "u8" => u8::try_from(n).is_ok(),
                                "u16" => u16::try_from(n).is_ok(),
                                "u32" => u32::try_from(n).is_ok(),
                                "u64" | "usize" => u64::try_from(n).is_ok(),
                                _ => false,
                            });
                        let v = num.unwrap_or_else(|| if same { o.v } else if t.known() { self.a.mk(Val::Cast(o.v, t.show())) } else { o.v });
                        Out { v, t: if t.known() { t.clone() } else { o.t }, s: o.s }
                    })
                    .collect()
            }
            Expr::Range(r) => {
                let mut fs: Vec<(&str, &Expr)> = vec![];
                if let Some(x) = &r.start {
                    fs.push(("start", x));
                }
                if let Some(x) = &r.end {
                    fs.push(("end", x));
                }
                let es: Vec<&Expr> = fs.iter().map(|x| x.1).collect();
                let n = es.len();
                let rs = self.evs(&es, s, &vec![Ty::Unknown; n]);
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                rs.into_iter()
                    .map(|(vs, ts, s)| {
                        let mut f: Vec<(String, Vid)> = fs.iter().zip(vs).map(|(x, v)| (x.0.to_string(), v)).collect();
                        if incl {
                            let t = self.a.lit("true");
                            f.push(("inclusive".into(), t));
                        }
                        let v = self.a.mk(Val::Ctor { p: "Range".into(), f });
                        Out { v, t: Ty::Path("Vec".into(), vec![ts.first().cloned().unwrap_or(Ty::Unknown)]), s }
                    })
                    .collect()
            }
            Expr::Struct(st) => self.struct_expr(st, s),
            Expr::Block(b) => {
                if let Some(l) = &b.label {
                    let name = l.name.ident.to_string();
                    self.fr().loops.push(LoopCtx { label: Some(name), breaks: vec![], conts: vec![] });
                    let mut r = self.block(&b.block, s, exp);
                    let lc = self.fr().loops.pop().unwrap();
                    r.extend(lc.breaks);
                    return self.merge(r);
                }
                self.block(&b.block, s, exp)
            }
            Expr::Unsafe(b) => self.block(&b.block, s, exp),
            Expr::Async(b) => self.inner_fn_block(&b.block, s),
            Expr::If(i) => {
                self.scopes.push(HashMap::new());
                let (t, f) = self.cond(&i.cond, s);
                let mut r = vec![];
                for x in t {
                    r.extend(self.block(&i.then_branch, x, exp));
                }
                self.scopes.pop();
                for x in f {
                    match &i.else_branch {
                        Some((_, e)) => r.extend(self.ev(e, x, exp)),
                        None => r.push(Out { v: UNIT, t: Ty::Tuple(vec![]), s: x }),
                    }
                }
                self.merge(r)
            }
            Expr::Match(m) => {
                self.entry_ref = None;
                let os = self.ev(&m.expr, s, &Ty::Unknown);
                let er = self.found_at(&m.expr);
                let mut r = vec![];
                for o in os {
                    let mut rest = vec![o.s.clone()];
                    for arm in &m.arms {
                        if rest.is_empty() {
                            break;
                        }
                        let mut nrest = vec![];
                        for s in rest {
                            self.scopes.push(HashMap::new());
                            let (y, n) = self.bind(&arm.pat, o.v, &o.t, s);
                            nrest.extend(n);
                            if let Some(y) = y {
                                self.note_refs(&arm.pat, &m.expr);
                                self.entry_ref = er.clone();
                                self.refs_in_some(&arm.pat, o.v);
                                let mut bodies = vec![];
                                match &arm.guard {
                                    None => bodies.push(y),
                                    Some((_, g)) => {
                                        let (a, b) = self.cond(g, y);
                                        bodies.extend(a);
                                        nrest.extend(b);
                                    }
                                }
                                for b in bodies {
                                    r.extend(self.ev(&arm.body, b, exp));
                                }
                            }
                            self.scopes.pop();
                        }
                        rest = self.merge_states(nrest);
                    }
                }
                self.merge(r)
            }
            Expr::Let(_) => {
                let (t, f) = self.cond(e, s);
                self.bools(t, f)
            }
            Expr::Binary(b) => self.binary(b, s, exp),
            Expr::Assign(a) => {
                if let Some(b) = self.hoisted(e) {
                    return self.ev(&b, s, exp);
                }
                let pt = self.place_ty(&a.left);
                let os = self.ev(&a.right, s, &pt);
                let mut r = vec![];
                for o in os {
                    let s2 = self.assign(&a.left, o.v, &o.t, o.s);
                    r.push(Out { v: UNIT, t: Ty::Tuple(vec![]), s: s2 });
                }
                r
            }
            Expr::Return(r) => {
                let line = r.return_token.span.start().line;
                let rt = self.frames.last().unwrap().ret.clone();
                match &r.expr {
                    Some(x) => {
                        for o in self.ev(x, s, &rt) {
                            self.ret_exit(o.v, o.s, line, ExitKind::Return);
                        }
                    }
                    None => self.ret_exit(UNIT, s, line, ExitKind::Return),
                }
                vec![]
            }
            Expr::Break(b) => {
                let outs = match &b.expr {
                    Some(x) => self.ev(x, s, &Ty::Unknown),
                    None => Self::one(UNIT, Ty::Tuple(vec![]), s),
                };
                let lab = b.label.as_ref().map(|l| l.ident.to_string());
                let f = self.fr();
                let n = f.loops.len();
                for i in (0..n).rev() {
                    if lab.is_none() || f.loops[i].label == lab {
                        f.loops[i].breaks.extend(outs);
                        break;
                    }
                }
                vec![]
            }
            Expr::Continue(c) => {
                let lab = c.label.as_ref().map(|l| l.ident.to_string());
                let f = self.fr();
                let n = f.loops.len();
                for i in (0..n).rev() {
                    if lab.is_none() || f.loops[i].label == lab {
                        f.loops[i].conts.push(s);
                        break;
                    }
                }
                vec![]
            }
            Expr::Try(t) if self.each(&t.expr).is_some() => {
                let e = self.each(&t.expr).unwrap();
                self.ev(&e, s, exp)
            }
            Expr::Try(t) => {
                let chained = matches!(&*t.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "and_then" | "map_err"));
                let inner = if chained { Ty::Path("Result".into(), vec![exp.clone()]) } else { exp.clone() };
                let os = self.ev(&t.expr, s, &inner);
                let line = t.question_token.span.start().line;
                let mut r = vec![];
                for o in os {
                    r.extend(self.question(o, line));
                }
                self.merge(r)
            }
            Expr::Closure(c) => {
                let f = self.frames.last().unwrap();
                let fl = (f.module.clone(), f.self_ty.clone(), f.generics.clone(), f.file.clone(), f.func.clone());
                self.closures.push(ClosureDef { expr: c.clone(), scopes: self.scopes.clone(), frame_like: fl });
                let v = self.a.mk(Val::Closure(self.closures.len() as u32 - 1));
                Self::one(v, Ty::Fn(Box::new(Ty::Unknown)), s)
            }
            Expr::ForLoop(f) => self.for_loop(f, s),
            Expr::While(w) => self.while_loop(w, s),
            Expr::Loop(l) => self.loop_(l, s),
            Expr::Call(c) => self.call(c, s, exp),
            Expr::MethodCall(m) => self.method_call(m, s, exp),
            Expr::Macro(m) => self.mac(&m.mac, s, exp, m.span()),
            _ => Self::one(TOP, Ty::Unknown, s),
        }
    }

    /// `xs.try_for_each(|x| ..)?` as a loop
    fn each(&self, e: &Expr) -> Option<Expr> {
        struct Leaves(bool);
        impl<'a> syn::visit::Visit<'a> for Leaves {
            fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        }
        let Expr::MethodCall(m) = strip_group(e) else { return None };
        if self.concrete || m.method != "try_for_each" || m.args.len() != 1 {
            return None;
        }
        let Expr::Closure(c) = strip_group(&m.args[0]) else { return None };
        let mut l = Leaves(false);
        syn::visit::Visit::visit_expr(&mut l, &c.body);
        if l.0 || c.inputs.len() != 1 {
            return None;
        }
        let p = match &c.inputs[0] {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        let (x, b) = (&m.receiver, &c.body);
        Some(syn::parse_quote!(for #p in #x { (#b)?; }))
    }

    fn bools(&mut self, t: Vec<State>, f: Vec<State>) -> Vec<Out> {
        let tv = self.a.lit("true");
        let fv = self.a.lit("false");
        let bt = Ty::Path("bool".into(), vec![]);
        let mut r = vec![];
        for s in t {
            r.push(Out { v: tv, t: bt.clone(), s });
        }
        for s in f {
            r.push(Out { v: fv, t: bt.clone(), s });
        }
        r
    }

    /// the `?` operator
    fn question(&mut self, o: Out, line: usize) -> Vec<Out> {
        let it = o.t.peel().arg(0);
        let mut res = vec![];
        let alts = self.a.alts(o.v);
        let tags: Vec<String> = alts.iter().map(|x| self.tag(*x)).collect();
        if tags.iter().all(|t| !t.is_empty()) && alts.len() > 0 {
            for x in alts {
                if let Val::Ctor { p, f } = self.a.get(x).clone() {
                    match p.as_str() {
                        "Ok" | "Some" => {
                            let v = f.first().map(|y| y.1).unwrap_or(UNIT);
                            res.push(Out { v, t: it.clone(), s: o.s.clone() });
                        }
                        _ => {
                            self.ret_exit(x, o.s.clone(), line, ExitKind::Question);
                        }
                    }
                }
            }
            return res;
        }
        let (ok, er) = self.okerr(o.v, o.t.peel().name(), &o.s);
        if !o.s.must.contains(&ok) {
            let mut es = o.s.clone();
            es.add(er);
            let pe = self.a.mk(Val::Payload(o.v, "Err".into(), "0".into()));
            let ev = self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), pe)] });
            self.ret_exit(ev, es, line, ExitKind::Question);
        }
        if !o.s.must.contains(&er) {
            let mut s = o.s;
            s.add(ok);
            // a join with Err alternatives continues only with the others
            let v = {
                let keep: Vec<Vid> = alts.iter().copied().filter(|x| !matches!(self.tag(*x).as_str(), "Err" | "None")).collect();
                let mut ks = vec![];
                for k in keep {
                    ks.push(match self.a.get(k).clone() {
                        Val::Ctor { p, f } if p == "Ok" || p == "Some" => f.first().map(|y| y.1).unwrap_or(UNIT),
                        _ => k,
                    });
                }
                self.a.join_all(ks)
            };
            res.push(Out { v, t: it, s });
        }
        res
    }

    fn evs(&mut self, es: &[&Expr], s: State, exps: &[Ty]) -> Vec<(Vec<Vid>, Vec<Ty>, State)> {
        let mut acc: Vec<(Vec<Vid>, Vec<Ty>, State)> = vec![(vec![], vec![], s)];
        for (i, e) in es.iter().enumerate() {
            let mut next = vec![];
            for (vs, ts, s) in acc {
                for o in self.ev(e, s, exps.get(i).unwrap_or(&Ty::Unknown)) {
                    let mut v2 = vs.clone();
                    v2.push(o.v);
                    let mut t2 = ts.clone();
                    t2.push(o.t);
                    next.push((v2, t2, o.s));
                }
            }
            if next.len() > self.max_states {
                // collapse
                let mut it = next.into_iter();
                let mut a = it.next().unwrap();
                for b in it {
                    for k in 0..a.0.len() {
                        a.0[k] = self.a.join(a.0[k], b.0[k]);
                    }
                    a.2 = self.join_state(&a.2, &b.2);
                }
                next = vec![a];
            }
            acc = next;
        }
        acc
    }

    fn list(&mut self, es: &[&Expr], s: State, et: &Ty) -> Vec<Out> {
        let n = es.len();
        let rs = self.evs(es, s, &vec![et.clone(); n]);
        rs.into_iter()
            .map(|(vs, ts, s)| {
                let v = self.a.mk(Val::List { must: vs, may: vec![] });
                let t = ts.into_iter().find(|t| t.known()).unwrap_or(et.clone());
                Out { v, t: Ty::Path("Vec".into(), vec![t]), s }
            })
            .collect()
    }

    fn path_expr(&mut self, p: &syn::ExprPath, s: State) -> Vec<Out> {
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            if let Some(k) = self.lookup(&n) {
                let v = s.env.get(&k).copied().unwrap_or(TOP);
                let t = self.var_ty[k as usize].clone();
                return Self::one(v, t, s);
            }
        }
        let c = self.canon(&p.path);
        if let Some((ed, i)) = self.variant_fields(&c) {
            let path = ed.path.clone();
            if ed.variants[i].fields.is_empty() {
                let v = self.a.mk(Val::Ctor { p: c, f: vec![] });
                return Self::one(v, Ty::Path(path, vec![]), s);
            }
            let v = self.a.mk(Val::Const(c));
            return Self::one(v, Ty::Fn(Box::new(Ty::Path(path, vec![]))), s);
        }
        if c == "None" {
            let v = self.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
            return Self::one(v, Ty::Path("Option".into(), vec![Ty::Unknown]), s);
        }
        if let Some(cd) = self.m.consts.get(&c) {
            let t = cd.ty.clone();
            if self.eval_consts {
                if let Some(v) = self.const_val(&c) {
                    return Self::one(v, t, s);
                }
            }
            let v = self.a.mk(Val::Const(c));
            return Self::one(v, t, s);
        }
        if self.m.structs.contains_key(&c) {
            let v = self.a.mk(Val::Ctor { p: c.clone(), f: vec![] });
            return Self::one(v, Ty::Path(c, vec![]), s);
        }
        let t = match self.m.by_path.get(&c).and_then(|v| v.first()) {
            Some(f) => Ty::Fn(Box::new(self.m.fns[*f].ret.clone())),
            None => Ty::Unknown,
        };
        // external unit variants (capitalised last two segments) are constructors
        let l = last_seg(&c);
        let caps = |x: &str| x.chars().next().map_or(false, |c| c.is_uppercase());
        let parent = c.rsplitn(3, "::").nth(1).unwrap_or("").to_string();
        if !t.known() && caps(l) && caps(&parent) && !l.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
            let v = self.a.mk(Val::Ctor { p: c.clone(), f: vec![] });
            let tp = c.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            return Self::one(v, Ty::Path(tp, vec![]), s);
        }
        let v = self.a.mk(Val::Const(c));
        Self::one(v, t, s)
    }

    /// literal value of a constant, if it is one
    pub fn const_val(&mut self, path: &str) -> Option<Vid> {
        if let Some(v) = self.const_cache.get(path) {
            return *v;
        }
        self.const_cache.insert(path.to_string(), None);
        let m = self.m;
        let cd = m.consts.get(path)?;
        self.next_frame += 1;
        self.frames.push(Frame { exits: vec![], loops: vec![], module: cd.module.clone(), self_ty: None, generics: vec![], file: cd.file.clone(), func: path.into(), ret: Ty::Unknown, id: self.next_frame });
        let saved = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        let os = self.ev(&cd.expr.clone(), State::new(), &cd.ty.clone());
        self.scopes = saved;
        self.frames.pop();
        let v = if os.len() == 1 { Some(os[0].v) } else { None };
        self.const_cache.insert(path.to_string(), v);
        v
    }

    fn struct_expr(&mut self, st: &syn::ExprStruct, s: State) -> Vec<Out> {
        let c = self.canon(&st.path);
        let vf = self.variant_fields(&c);
        let ty = match vf {
            Some((ed, _)) => Ty::Path(ed.path.clone(), vec![]),
            None => {
                let (m, stt, g) = self.ctx();
                let t = self.m.path_ty(&st.path, &m, stt.as_ref(), &g);
                if t.known() {
                    t
                } else {
                    Ty::Path(c.clone(), vec![])
                }
            }
        };
        let cpath = match vf {
            Some(_) => c.clone(),
            None => ty.path().to_string(),
        };
        let es: Vec<&Expr> = st.fields.iter().map(|f| &f.expr).collect();
        let names: Vec<String> = st.fields.iter().map(|f| member(&f.member)).collect();
        let exps: Vec<Ty> = names
            .iter()
            .map(|n| match vf {
                Some((ed, i)) => ed.variants[i].fields.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or(Ty::Unknown),
                None => self.m.field_ty(&ty, n),
            })
            .collect();
        let rs = self.evs(&es, s, &exps);
        let mut out = vec![];
        for (vs, _, s) in rs {
            let mut f: Vec<(String, Vid)> = names.iter().cloned().zip(vs).collect();
            f.sort();
            match &st.rest {
                Some(b) => {
                    for o in self.ev(b, s, &ty) {
                        let mut v = o.v;
                        for (n, x) in &f {
                            v = self.a.upd(v, n, *x);
                        }
                        out.push(Out { v, t: ty.clone(), s: o.s });
                    }
                }
                None => {
                    let v = self.a.mk(Val::Ctor { p: cpath.clone(), f });
                    let line = st.span().start().line;
                    self.event_raw(format!("struct {cpath}"), vec![v], v, None, Ty::Unknown, &s, line);
                    out.push(Out { v, t: ty.clone(), s });
                }
            }
        }
        out
    }

    fn binary(&mut self, b: &syn::ExprBinary, s: State, exp: &Ty) -> Vec<Out> {
        use syn::BinOp::*;
        match b.op {
            And(_) | Or(_) => {
                let (t, f) = self.cond(&Expr::Binary(b.clone()), s);
                return self.bools(t, f);
            }
            _ => {}
        }
        let op = quote::ToTokens::to_token_stream(&b.op).to_string();
        let assign = matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_));
        if assign {
            if let Some(b) = self.hoisted(&Expr::Binary(b.clone())) {
                return self.ev(&b, s, exp);
            }
        }
        let ls = self.ev(&b.left, s, exp);
        let mut r = vec![];
        for l in ls {
            let rexp = if matches!(op.as_str(), "==" | "!=") { l.t.clone() } else { exp.clone() };
            for x in self.ev(&b.right, l.s.clone(), &rexp) {
                if assign {
                    let o = op.trim_end_matches('=').to_string();
                    let txt = if o == "+" { self.concat_text(l.v, &l.t, x.v, &x.t) } else { None };
                    let v = match txt {
                        Some(v) => v,
                        None => self.a.mk(Val::Bin(o, l.v, x.v)),
                    };
                    let s2 = self.assign(&b.left, v, &l.t, x.s);
                    r.push(Out { v: UNIT, t: Ty::Tuple(vec![]), s: s2 });
                } else {
                    let v = match (op.as_str(), self.a.get(l.v).clone(), self.a.get(x.v).clone()) {
                        ("+", Val::Lit(a), Val::Lit(b)) if a.parse::<i64>().is_ok() && b.parse::<i64>().is_ok() => {
                            let n = a.parse::<i64>().unwrap().wrapping_add(b.parse::<i64>().unwrap());
                            self.a.lit(&n.to_string())
                        }
                        _ => match if op == "+" { self.concat_text(l.v, &l.t, x.v, &x.t) } else { None } {
                            Some(v) => v,
                            None => {
                                let whole = |v: Vid| matches!(self.a.get(v), Val::List { .. } | Val::Tuple(_) | Val::Ctor { .. });
                                let known = match op.as_str() {
                                    "==" | "!=" if self.locks && self.concrete && known_text(&self.a, l.v).is_some() && known_text(&self.a, x.v).is_some() => self.lit_eq(l.v, x.v).map(|r| r == (op == "==")),
                                    _ if !self.concrete || !whole(l.v) || !whole(x.v) => None,
                                    "==" => self.lit_eq(l.v, x.v),
                                    "!=" => self.lit_eq(l.v, x.v).map(|r| !r),
                                    "<" => self.lit_cmp(l.v, x.v).map(|o| o.is_lt()),
                                    "<=" => self.lit_cmp(l.v, x.v).map(|o| o.is_le()),
                                    ">" => self.lit_cmp(l.v, x.v).map(|o| o.is_gt()),
                                    ">=" => self.lit_cmp(l.v, x.v).map(|o| o.is_ge()),
                                    _ => None,
                                };
                                match known {
                                    Some(k) => self.a.lit(if k { "true" } else { "false" }),
                                    None => self.a.mk(Val::Bin(op.clone(), l.v, x.v)),
                                }
                            }
                        },
                    };
                    let t = match op.as_str() {
                        "==" | "!=" | "<" | ">" | "<=" | ">=" => Ty::Path("bool".into(), vec![]),
                        _ => l.t.clone(),
                    };
                    // `x == ""` and `x.len() == 0` ask what `x.is_empty()` asks
                    if let Val::Bin(o, p, q) = self.a.get(v).clone() {
                        let text = |me: &Self, v: Vid| matches!(me.a.get(v), Val::Lit(l) if l == "\"\"");
                        let size = |me: &Self, v: Vid| match me.a.get(v) {
                            Val::Call { f, args } if f == ".len" && args.len() == 1 => Some(args[0]),
                            _ => None,
                        };
                        let (zero, one) = (|me: &Self, v: Vid| me.a.int(v) == Some(0), |me: &Self, v: Vid| me.a.int(v) == Some(1));
                        let asked = match o.as_str() {
                            "==" | "!=" if text(self, q) => Some((p, o == "==")),
                            "==" | "!=" if text(self, p) => Some((q, o == "==")),
                            "==" | "!=" if zero(self, q) => size(self, p).map(|x| (x, o == "==")),
                            "==" | "!=" if zero(self, p) => size(self, q).map(|x| (x, o == "==")),
                            ">" if zero(self, q) => size(self, p).map(|x| (x, false)),
                            "<" if zero(self, p) => size(self, q).map(|x| (x, false)),
                            ">=" if one(self, q) => size(self, p).map(|x| (x, false)),
                            "<" if one(self, q) => size(self, p).map(|x| (x, true)),
                            _ => None,
                        };
                        let asked = asked.filter(|(of, _)| !(self.concrete && matches!(self.a.get(*of), Val::Lit(_) | Val::List { .. })));
                        if let Some((of, yes)) = asked {
                            let e = self.a.mk(Val::Call { f: ".is_empty".into(), args: vec![of] });
                            let mut s2 = x.s;
                            let line = b.op.span().start().line;
                            self.event(".is_empty".into(), vec![of], e, None, Ty::Path("String".into(), vec![]), &mut s2, line);
                            let v = if yes { e } else { self.a.mk(Val::Not(e)) };
                            r.push(Out { v, t, s: s2 });
                            continue;
                        }
                    }
                    r.push(Out { v, t, s: x.s });
                }
            }
        }
        r
    }

    /// elements of a literal list of options or lists, flattened
    fn flat(&self, v: Vid) -> Option<Vec<Vid>> {
        let Val::List { must, may } = self.a.get(v) else { return None };
        if !may.is_empty() || must.len() > 40 {
            return None;
        }
        let mut r = vec![];
        for x in must {
            match self.a.get(*x) {
                Val::Ctor { p, f } if p == "Some" => r.push(f[0].1),
                Val::Ctor { p, .. } if p == "None" => {}
                Val::List { must, may } if may.is_empty() => r.extend(must),
                _ => return None,
            }
        }
        Some(r)
    }
    /// the elements of a flattened exact list of options; each with its alternatives (None = absent)
    fn opt_elems(&self, v: Vid) -> Option<Vec<Vec<Option<Vid>>>> {
        if !self.unroll {
            return None;
        }
        let Val::Call { f, args } = self.a.get(v) else { return None };
        if !f.ends_with("flatten") || args.len() != 1 {
            return None;
        }
        let Val::List { must, may } = self.a.get(args[0]) else { return None };
        if !may.is_empty() || must.len() > 20 {
            return None;
        }
        let mut r = vec![];
        for x in must {
            let mut al = vec![];
            for y in self.a.alts(*x) {
                match self.a.get(y) {
                    Val::Ctor { p, f } if p == "Some" => al.push(Some(f[0].1)),
                    Val::Ctor { p, .. } if p == "None" => al.push(None),
                    _ => return None,
                }
            }
            r.push(al);
        }
        Some(r)
    }
    /// a string as (template, holes); None when the value is not known to be text
    fn text_parts(&self, v: Vid, t: &Ty) -> Option<(String, Vec<Vid>)> {
        match self.a.get(v) {
            Val::Lit(x) if x.starts_with('"') && x.len() >= 2 => Some((x[1..x.len() - 1].to_string(), vec![])),
            Val::Lit(x) if x.starts_with('\'') && x.len() >= 3 => Some((x[1..x.len() - 1].to_string(), vec![])),
            Val::Fmt(x, a) => Some((x.clone(), a.clone())),
            _ if matches!(t.peel().name(), "String" | "str") => Some(("{}".into(), vec![v])),
            _ => None,
        }
    }
    /// concatenation of two texts; the left one must be text, the right one is taken as displayed
    fn concat_text(&mut self, a: Vid, ta: &Ty, b: Vid, tb: &Ty) -> Option<Vid> {
        let (x, mut xa) = self.text_parts(a, ta)?;
        let (y, ya) = self.text_parts(b, tb).unwrap_or(("{}".into(), vec![b]));
        xa.extend(ya);
        Some(self.text(format!("{x}{y}"), xa))
    }
    fn text(&mut self, t: String, a: Vec<Vid>) -> Vid {
        if a.is_empty() {
            self.a.lit(&format!("\"{t}\""))
        } else {
            self.a.mk(Val::Fmt(t, a))
        }
    }

    // ---------------------------------------------------------------- places
    fn place_ty(&mut self, e: &Expr) -> Ty {
        match strip_group(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                self.lookup(&n).map(|k| self.var_ty[k as usize].clone()).unwrap_or(Ty::Unknown)
            }
            Expr::Field(f) => {
                let t = self.place_ty(&f.base);
                self.m.field_ty(&t, &member(&f.member))
            }
            Expr::Unary(u) => self.place_ty(&u.expr),
            Expr::Reference(u) => self.place_ty(&u.expr),
            Expr::Index(i) => self.place_ty(&i.expr).peel().arg(0),
            Expr::MethodCall(m) => {
                let t = self.place_ty(&m.receiver);
                match m.method.to_string().as_str() {
                    "unwrap" | "lock" | "write" | "read" | "get_mut" | "as_mut" | "expect" => {
                        if matches!(t.peel().name(), "RwLock" | "Mutex" | "Option" | "Result") {
                            t.peel().arg(0)
                        } else {
                            t
                        }
                    }
                    _ => Ty::Unknown,
                }
            }
            _ => Ty::Unknown,
        }
    }

    /// (root variable, field steps); None when the place is not rooted in a variable
    fn place(&self, e: &Expr) -> Option<(u32, Vec<Step>)> {
        match strip_group(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                self.lookup(&n).map(|k| (k, vec![]))
            }
            Expr::Field(f) => {
                let (k, mut st) = self.place(&f.base)?;
                st.push(Step::Field(member(&f.member)));
                Some((k, st))
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.place(&u.expr),
            Expr::Reference(u) => self.place(&u.expr),
            Expr::Index(i) => {
                let (k, mut st) = self.place(&i.expr)?;
                st.push(Step::At((*i.index).clone()));
                Some((k, st))
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "as_mut" | "borrow_mut" | "lock" | "write" | "expect" | "get_mut" | "iter_mut" | "last_mut" | "first_mut" | "entry" | "or_insert" | "or_default" | "or_insert_with") => {
                let (k, mut st) = self.place(&m.receiver)?;
                if matches!(m.method.to_string().as_str(), "get_mut" | "iter_mut" | "last_mut" | "first_mut" | "entry") && !m.args.is_empty() {
                    st.push(Step::Index);
                }
                Some((k, st))
            }
            _ => None,
        }
    }

    fn lit_usize(&self, l: &syn::ExprLit) -> Option<usize> {
        match &l.lit {
            syn::Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        }
    }
    fn upd_steps(&mut self, base: Vid, steps: &[Step], v: Vid) -> Vid {
        match steps.first() {
            None => v,
            Some(Step::Field(f)) => {
                let old = self.a.field(base, f);
                let nv = self.upd_steps(old, &steps[1..], v);
                self.a.upd(base, f, nv)
            }
            Some(Step::Pos(n)) if matches!(self.a.get(base), Val::List { must, may } if may.is_empty() && *n < must.len()) => {
                let Val::List { mut must, may } = self.a.get(base).clone() else { return base };
                must[*n] = self.upd_steps(must[*n], &steps[1..], v);
                self.a.mk(Val::List { must, may })
            }
            Some(Step::Index | Step::At(_) | Step::Pos(_)) => {
                let old = self.a.elem(base);
                let nv = self.upd_steps(old, &steps[1..], v);
                match self.a.get(base).clone() {
                    Val::List { must, mut may } => {
                        may.extend(must);
                        may.push(nv);
                        may.sort();
                        may.dedup();
                        self.a.mk(Val::List { must: vec![], may })
                    }
                    Val::Rec(b, fs) if fs.iter().any(|x| x.0 == "[]") => {
                        let cur = fs.iter().find(|x| x.0 == "[]").unwrap().1;
                        let j = self.a.join(cur, nv);
                        let base2 = self.a.mk(Val::Rec(b, fs));
                        self.a.upd(base2, "[]", j)
                    }
                    _ => self.a.upd(base, "[]", nv),
                }
            }
        }
    }

    /// pattern variables that refer into the matched place
    fn note_refs(&mut self, p: &Pat, e: &Expr) {
        if !self.concrete {
            return;
        }

        fn go(it: &Interp, p: &Pat, at: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
            let sub = |f: String| {
                let mut v = at.clone();
                v.push(f);
                v
            };
            match p {
                Pat::Ident(i) if i.subpat.is_none() => out.push((i.ident.to_string(), at)),
                Pat::Reference(_) => {}
                Pat::Paren(x) => go(it, &x.pat, at, out),
                Pat::TupleStruct(t) => {
                    let l = t.path.segments.last().unwrap().ident.to_string();
                    let special = matches!(l.as_str(), "Some" | "Ok" | "Err");
                    if !special {
                        t.elems.iter().enumerate().for_each(|(i, x)| go(it, x, sub(i.to_string()), out))
                    }
                }
                Pat::Struct(t) => t.fields.iter().for_each(|x| go(it, &x.pat, sub(member(&x.member)), out)),
                Pat::Tuple(t) => t.elems.iter().enumerate().for_each(|(i, x)| go(it, x, sub(i.to_string()), out)),
                _ => {}
            }
        }
        let Some((root, steps)) = self.place(e) else { return };
        let mut names = vec![];
        go(self, p, vec![], &mut names);
        for (n, at) in names {
            let Some(k) = self.lookup(&n) else { continue };
            if at.is_empty() || k == root {
                continue;
            }
            let mut st = steps.clone();
            st.extend(at.into_iter().map(Step::Field));
            self.refs.insert(k, (root, st));
        }
    }
    /// does the place name the payload of a constructor known on this path?
    fn ctor_at(&self, base: Vid, steps: &[Step]) -> bool {
        if let (Some(Step::Pos(n)), Val::List { must, may }) = (steps.first(), self.a.get(base)) {
            return may.is_empty() && must.get(*n).map_or(false, |x| self.ctor_at(*x, &steps[1..]));
        }
        let Some((Step::Field(f), rest)) = steps.split_first() else { return steps.is_empty() };
        match self.a.get(base) {
            Val::Ctor { f: fs, .. } => fs.iter().find(|x| x.0 == *f).map_or(false, |x| self.ctor_at(x.1, rest)),
            Val::Tuple(t) => f.parse::<usize>().ok().and_then(|i| t.get(i)).map_or(false, |x| self.ctor_at(*x, rest)),
            _ => false,
        }
    }
    /// the guard a place or receiver is reached through
    fn guard_in<'e>(&self, e: &'e mut Expr) -> Option<&'e mut Expr> {
        let here = matches!(e, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "lock" | "read" | "write" | "unwrap" | "expect")) && self.guard_tail(e);
        if here {
            return Some(e);
        }
        match e {
            Expr::Group(g) => self.guard_in(&mut g.expr),
            Expr::Paren(g) => self.guard_in(&mut g.expr),
            Expr::Unary(u) => self.guard_in(&mut u.expr),
            Expr::Reference(r) => self.guard_in(&mut r.expr),
            Expr::Field(f) => self.guard_in(&mut f.base),
            Expr::Index(i) => self.guard_in(&mut i.expr),
            Expr::Try(t) => self.guard_in(&mut t.expr),
            Expr::MethodCall(m) => self.guard_in(&mut m.receiver),
            _ => None,
        }
    }
    /// a place behind a temporary guard or behind a call, with both bound to variables first
    fn hoisted(&self, e: &Expr) -> Option<Expr> {
        if !self.locks {
            return None;
        }
        let (left, right) = match e {
            Expr::Assign(a) => (&a.left, Some(&a.right)),
            Expr::Binary(b) => (&b.left, Some(&b.right)),
            Expr::MethodCall(m) => (&m.receiver, None),
            _ => return None,
        };
        let mut pre: Vec<Stmt> = vec![];
        let mut place = (**left).clone();
        let r: syn::Ident = syn::parse_quote!(rhs__);
        if let Some(g) = self.guard_in(&mut place) {
            let c = std::mem::replace(g, syn::parse_quote!(guard__));
            pre.push(syn::parse_quote!(let mut guard__ = #c;));
        } else if right.is_none() {
            return None;
        }
        let mut call = &mut place;
        let mut deref = false;
        if right.is_some() {
            while let Expr::Unary(_) | Expr::Paren(_) | Expr::Field(_) = call {
                call = match call {
                    Expr::Unary(u) => {
                        deref = true;
                        &mut *u.expr
                    }
                    Expr::Paren(u) => &mut *u.expr,
                    Expr::Field(u) => &mut *u.base,
                    _ => break,
                };
            }
            if deref && matches!(&*call, Expr::MethodCall(m) if m.method == "or_insert" || m.method == "or_default") {
                let c = call.clone();
                pre.push(syn::parse_quote!(let mut place__ = #c;));
                *call = syn::parse_quote!(place__);
            }
        }
        if pre.is_empty() {
            return None;
        }
        let last: Expr = match e {
            Expr::Assign(_) => syn::parse_quote!(#place = #r),
            Expr::Binary(b) => {
                let mut b = b.clone();
                *b.left = place;
                *b.right = syn::parse_quote!(#r);
                Expr::Binary(b)
            }
            Expr::MethodCall(m) => {
                let mut m = m.clone();
                *m.receiver = place;
                return Some(syn::parse_quote!({ #(#pre)* #m }));
            }
            _ => return None,
        };
        let right = right?;
        Some(syn::parse_quote!({ let #r = #right; #(#pre)* #last; }))
    }

    fn assign(&mut self, place: &Expr, v: Vid, t: &Ty, mut s: State) -> State {
        let line = place.span().start().line;
        match strip_group(place) {
            Expr::Tuple(tp) => {
                for (i, e) in tp.elems.iter().enumerate() {
                    let fv = self.a.field(v, &i.to_string());
                    let ft = self.m.field_ty(t, &i.to_string());
                    s = self.assign(e, fv, &ft, s);
                }
                return s;
            }
            Expr::Infer(_) => return s,
            _ => {}
        }
        // event for observers
        let pv = match self.place_term(place, &s) {
            Some(p) => p,
            None => TOP,
        };
        let is_plain = matches!(strip_group(place), Expr::Path(_));
        if !is_plain {
            let ev = self.a.mk(Val::Call { f: "=".into(), args: vec![pv, v] });
            self.event("=".into(), vec![pv, v], ev, None, Ty::Unknown, &mut s, line);
        }
        if let Some((k, mut steps)) = self.place(place) {
            self.at_pos(&mut steps, &s);
            let base = s.env.get(&k).copied().unwrap_or(TOP);
            let nv = self.upd_steps(base, &steps, v);
            s.set(k, nv);
            if self.locks {
                if !is_plain {
                    self.follow(k, &mut s);
                }
            } else if self.concrete && !is_plain && self.refs.get(&k).is_some_and(|r| r.1.iter().any(|x| matches!(x, Step::Pos(_)))) {
                self.follow(k, &mut s);
            } else if matches!(strip_group(place), Expr::Unary(_)) && steps.is_empty() {
                if let Some((root, st)) = self.refs.get(&k).cloned() {
                    let b = s.env.get(&root).copied().unwrap_or(TOP);
                    if self.ctor_at(b, &st) {
                        let nv = self.upd_steps(b, &st, v);
                        s.set(root, nv);
                    }
                }
            }
            if steps.is_empty() && t.known() && !self.var_ty[k as usize].known() {
                self.var_ty[k as usize] = t.clone();
            }
        }
        s
    }

    /// the place `&mut place` and the like give access to
    fn mut_place(&mut self, e: &Expr, s: &State) -> Option<(u32, Vec<Step>)> {
        if !self.locks {
            return None;
        }
        let (root, mut steps) = match strip_group(e) {
            Expr::Reference(r) if r.mutability.is_some() => self.place(&r.expr)?,
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect") => match strip_group(&m.receiver) {
                Expr::MethodCall(i) if i.method == "get_mut" && i.args.len() == 1 => {
                    let (k, mut st) = self.place(&i.receiver)?;
                    st.push(Step::At(i.args[0].clone()));
                    (k, st)
                }
                Expr::MethodCall(i) if matches!(i.method.to_string().as_str(), "first_mut" | "last_mut") => {
                    let (k, mut st) = self.place(&i.receiver)?;
                    self.at_pos(&mut st, s);
                    let b = s.env.get(&k).copied()?;
                    let n = match self.a.get(self.at_steps(b, &st)?) {
                        Val::List { must, may } if may.is_empty() && !must.is_empty() => must.len(),
                        _ => return None,
                    };
                    st.push(Step::Pos(if i.method == "first_mut" { 0 } else { n - 1 }));
                    (k, st)
                }
                _ => return None,
            },
            _ => return None,
        };
        self.at_pos(&mut steps, s);
        let b = s.env.get(&root).copied()?;
        (!steps.is_empty() && self.ctor_at(b, &steps)).then_some((root, steps))
    }
    fn at_steps(&self, b: Vid, steps: &[Step]) -> Option<Vid> {
        let mut b = b;
        for st in steps {
            b = match (st, self.a.get(b)) {
                (Step::Pos(n), Val::List { must, .. }) => *must.get(*n)?,
                (Step::Field(n), Val::Ctor { f, .. }) => f.iter().find(|x| x.0 == *n)?.1,
                (Step::Field(n), Val::Tuple(t)) => *t.get(n.parse::<usize>().ok()?)?,
                _ => return None,
            };
        }
        Some(b)
    }

    /// what a variable refers to takes its value
    fn follow(&mut self, k: u32, s: &mut State) {
        if !self.locks && !self.concrete {
            return;
        }
        let mut k = k;
        for _ in 0..6 {
            let Some((root, st)) = self.refs.get(&k).cloned() else { return };
            if !self.locks && !st.iter().any(|x| matches!(x, Step::Pos(_))) {
                return;
            }
            let b = s.env.get(&root).copied().unwrap_or(TOP);
            if root == k || !self.ctor_at(b, &st) {
                return;
            }
            let v = s.env.get(&k).copied().unwrap_or(TOP);
            let x = self.upd_steps(b, &st, v);
            s.set(root, x);
            k = root;
        }
    }
    /// where an optional reference into a place comes from
    fn found_at(&self, e: &Expr) -> Option<(Vid, u32, Vec<Step>)> {
        match strip_group(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let k = self.lookup(&p.path.segments[0].ident.to_string())?;
                self.opt_refs.get(&k).cloned()
            }
            _ => self.entry_ref.clone(),
        }
    }
    /// what was found in a place refers into it
    fn refs_in_some(&mut self, p: &Pat, v: Vid) {
        if !self.locks || !matches!(p, Pat::TupleStruct(_)) {
            return;
        }
        if let Some((x, root, st)) = self.entry_ref.clone() {
            if matches!(self.a.get(v), Val::Ctor { p, f } if p == "Some" && f.len() == 1 && f[0].1 == x) {
                self.refs_into(p, root, &st);
            }
        }
    }
    /// the variables of a pattern refer into the place they are bound from
    fn refs_into(&mut self, p: &Pat, root: u32, steps: &[Step]) {
        match p {
            Pat::Ident(i) => {
                if let Some(k) = self.lookup(&i.ident.to_string()) {
                    if k != root {
                        self.refs.insert(k, (root, steps.to_vec()));
                    }
                }
            }
            Pat::Paren(x) => self.refs_into(&x.pat, root, steps),
            Pat::Tuple(t) => {
                for (i, x) in t.elems.iter().enumerate() {
                    let mut st = steps.to_vec();
                    st.push(Step::Field(i.to_string()));
                    self.refs_into(x, root, &st);
                }
            }
            Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.segments.last().map_or(false, |s| s.ident == "Some" || s.ident == "Ok") => self.refs_into(&t.elems[0], root, steps),
            _ => {}
        }
    }

    /// the same element `n` times; the list itself if the number is known on this path
    fn repeated(&mut self, o: Out, n: &Expr) -> Out {
        let mut len = None;
        let k = if self.concrete && self.locks {
            match size_of(n) {
                Some(n) => Some(n),
                None => {
                    let n = self.ev(n, o.s.clone(), &Ty::Path("usize".into(), vec![]));
                    len = n.first().map(|n| n.v);
                    n.first().and_then(|n| self.a.int(n.v)).and_then(|n| usize::try_from(n).ok()).filter(|n| *n <= 16)
                }
            }
        } else {
            None
        };
        let v = match k {
            None if len.is_some() && matches!(self.a.get(o.v), Val::Lit(_)) => self.a.mk(Val::Call { f: "repeat".into(), args: vec![o.v, len.unwrap()] }),
            Some(k) => self.a.mk(Val::List { must: vec![o.v; k], may: vec![] }),
            None => self.a.mk(Val::List { must: vec![], may: vec![o.v] }),
        };
        Out { v, t: Ty::Path("Vec".into(), vec![o.t]), s: o.s }
    }

    /// positions whose index is a number on this path
    fn at_pos(&mut self, steps: &mut [Step], s: &State) {
        if !self.concrete {
            return;
        }
        for st in steps.iter_mut() {
            if let Step::At(e) = st {
                let e = e.clone();
                let os = match strip_group(&e) {
                    Expr::Lit(_) | Expr::Path(_) | Expr::Binary(_) | Expr::Field(_) | Expr::Cast(_) => self.ev(&e, s.clone(), &Ty::Path("usize".into(), vec![])),
                    _ => vec![],
                };
                if os.len() == 1 {
                    if let Some(n) = self.a.int(os[0].v).and_then(|n| usize::try_from(n).ok()) {
                        *st = Step::Pos(n);
                    }
                }
            }
        }
    }

    /// provenance term of a place without updates applied by this function
    fn place_term(&mut self, e: &Expr, s: &State) -> Option<Vid> {
        match strip_group(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                let k = self.lookup(&n)?;
                s.env.get(&k).copied()
            }
            Expr::Field(f) => {
                let b = self.place_term(&f.base, s)?;
                // keep the field path symbolic
                let b = match self.a.get(b).clone() {
                    Val::Rec(b, _) => b,
                    _ => b,
                };
                Some(self.a.mk(Val::Field(b, member(&f.member))))
            }
            Expr::Unary(u) => self.place_term(&u.expr, s),
            Expr::Reference(u) => self.place_term(&u.expr, s),
            Expr::Index(i) => {
                let b = self.place_term(&i.expr, s)?;
                Some(self.a.mk(Val::Elem(b)))
            }
            Expr::MethodCall(m) => self.place_term(&m.receiver, s),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- loops
    fn loop_body(&mut self, label: Option<String>, s: State, body: &mut dyn FnMut(&mut Self, State) -> Vec<State>) -> (Vec<State>, Vec<Out>) {
        self.fr().loops.push(LoopCtx { label, breaks: vec![], conts: vec![] });
        self.loop_depth += 1;
        let held = s.held.len();
        let mut ends = body(self, s);
        self.loop_depth -= 1;
        let mut lc = self.fr().loops.pop().unwrap();
        ends.extend(lc.conts);
        if self.locks {
            for s in ends.iter_mut().chain(lc.breaks.iter_mut().map(|b| &mut b.s)) {
                self.release_from(s, held, true, true);
            }
        }
        (self.merge_states(ends), lc.breaks)
    }

    /// `list[1..3]` of a list that is written out
    fn slice_list(&mut self, l: Vid, r: Vid) -> Option<Vid> {
        if self.locks && self.concrete {
            if let (Some(t), Val::Ctor { f, .. }) = (known_text(&self.a, l), self.a.get(r).clone()) {
                let at = |n: &str, d: usize| f.iter().find(|x| x.0 == n).map_or(Some(d), |x| self.a.int(x.1).and_then(|n| usize::try_from(n).ok()));
                let hi = at("end", t.len())? + f.iter().any(|x| x.0 == "inclusive") as usize;
                let t = t.get(at("start", 0)?..hi)?.to_string();
                return Some(self.a.lit(&format!("{t:?}")));
            }
        }
        let (Val::List { must, may }, Val::Ctor { f, .. }) = (self.a.get(l).clone(), self.a.get(r).clone()) else { return None };
        if !self.concrete || !may.is_empty() {
            return None;
        }
        let mut at = |n: &str, d: i128| match f.iter().find(|x| x.0 == n) {
            Some(x) => self.a.int(x.1),
            None => Some(d),
        };
        let lo = at("start", 0)?;
        let hi = at("end", must.len() as i128)? + f.iter().any(|x| x.0 == "inclusive") as i128;
        if lo < 0 || hi < lo || hi > must.len() as i128 {
            return None;
        }
        let must = must[lo as usize..hi as usize].to_vec();
        Some(self.a.mk(Val::List { must, may: vec![] }))
    }
    /// `0..3` as the list of its numbers
    fn range_list(&mut self, v: Vid) -> Vid {
        if !self.concrete {
            return v;
        }
        let Val::Ctor { p, f } = self.a.get(v).clone() else { return v };
        if p != "Range" {
            return v;
        }
        let mut num = |n: &str| {
            let x = f.iter().find(|x| x.0 == n)?.1;
            let x = match self.a.get(x).clone() {
                Val::Const(c) => self.const_val(&c)?,
                _ => x,
            };
            self.a.int(x)
        };
        let (Some(lo), Some(hi)) = (num("start"), num("end")) else { return v };
        let hi = if f.iter().any(|x| x.0 == "inclusive") { hi + 1 } else { hi };
        if hi - lo > 40 {
            return v;
        }
        let must = (lo..hi).map(|i| self.a.lit(&i.to_string())).collect();
        self.a.mk(Val::List { must, may: vec![] })
    }
    fn for_loop(&mut self, f: &syn::ExprForLoop, s: State) -> Vec<Out> {
        let label = f.label.as_ref().map(|l| l.name.ident.to_string());
        let os = self.ev(&f.expr, s, &Ty::Unknown);
        let mut res: Vec<Out> = vec![];
        for mut o in os {
            o.v = self.range_list(o.v);
            if let (true, Val::Ctor { p, .. }) = (self.concrete, self.a.get(o.v).clone()) {
                if let Some(g) = self.m.fns.iter().find(|g| g.name == "into_iter" && g.self_ty.as_ref().map_or(false, |t| t.path() == p)) {
                    if let Some((x, _)) = self.call_fn(g.id, Some(o.v), &[], o.s.clone(), 0).into_iter().next() {
                        o = x;
                    }
                }
            }
            let et = iter_elem_ty(&o.t);
            // precise unrolling of literal lists
            if self.unroll {
                if let Val::List { must, may } = self.a.get(o.v).clone() {
                    if may.is_empty() && must.len() <= 40 && (!must.is_empty() || self.eval_consts) {
                        let mut cur = vec![o.s.clone()];
                        let by_ref = match strip_group(&f.expr) {
                            Expr::MethodCall(m) => m.method == "iter_mut",
                            Expr::Reference(r) => r.mutability.is_some(),
                            _ => false,
                        };
                        // iter_mut().zip(..) and iter_mut().enumerate(): one part of the pattern is the place
                        let (it_expr, it_pat): (&Expr, &Pat) = match (strip_group(&f.expr), &*f.pat) {
                            (Expr::MethodCall(m), Pat::Tuple(t)) if m.method == "zip" && t.elems.len() == 2 => (strip_group(&m.receiver), &t.elems[0]),
                            (Expr::MethodCall(m), Pat::Tuple(t)) if m.method == "enumerate" && t.elems.len() == 2 => (strip_group(&m.receiver), &t.elems[1]),
                            _ => (&f.expr, &f.pat),
                        };
                        let by_ref = by_ref || matches!(it_expr, Expr::MethodCall(m) if m.method == "iter_mut");
                        let into = if (self.locks || self.concrete) && by_ref { self.place(it_expr) } else { None };
                        for (i, el) in must.into_iter().enumerate() {
                            let mut nx = vec![];
                            for s in cur {
                                let (ends, br) = self.loop_body(label.clone(), s, &mut |me, s| {
                                    me.scopes.push(HashMap::new());
                                    let mut r = vec![];
                                    if let (Some(s), _) = me.bind(&f.pat, el, &et, s) {
                                        if let Some((root, st)) = &into {
                                            let mut st = st.clone();
                                            st.push(Step::Pos(i));
                                            me.refs_into(it_pat, *root, &st);
                                        }
                                        r = me.block(&f.body, s, &Ty::Unknown).into_iter().map(|o| o.s).collect();
                                    }
                                    me.scopes.pop();
                                    r
                                });
                                nx.extend(ends);
                                res.extend(br.into_iter().map(|b| Out { v: UNIT, ..b }));
                            }
                            cur = self.merge_states(nx);
                        }
                        res.extend(cur.into_iter().map(|s| Out { v: UNIT, t: Ty::Tuple(vec![]), s }));
                        continue;
                    }
                }
            }
            // a list of options, each present or absent
            if let Some(opts) = self.opt_elems(o.v) {
                let mut cur = vec![o.s.clone()];
                for alts in opts {
                    let mut nx = vec![];
                    for el in alts {
                        for s in cur.clone() {
                            let Some(el) = el else {
                                nx.push(s);
                                continue;
                            };
                            let (ends, br) = self.loop_body(label.clone(), s, &mut |me, s| {
                                me.scopes.push(HashMap::new());
                                let mut r = vec![];
                                if let (Some(s), _) = me.bind(&f.pat, el, &et, s) {
                                    r = me.block(&f.body, s, &Ty::Unknown).into_iter().map(|o| o.s).collect();
                                }
                                me.scopes.pop();
                                r
                            });
                            nx.extend(ends);
                            res.extend(br.into_iter().map(|b| Out { v: UNIT, ..b }));
                        }
                    }
                    cur = self.merge_states(nx);
                }
                res.extend(cur.into_iter().map(|s| Out { v: UNIT, t: Ty::Tuple(vec![]), s }));
                continue;
            }
            let el = self.a.elem(o.v);
            let r = self.iterate(label.clone(), o.s, true, &mut |me, s| {
                me.scopes.push(HashMap::new());
                let mut r = vec![];
                if let (Some(s), _) = me.bind(&f.pat, el, &et, s) {
                    r = me.block(&f.body, s, &Ty::Unknown).into_iter().map(|o| o.s).collect();
                }
                me.scopes.pop();
                (r, vec![])
            });
            res.extend(r);
        }
        self.merge(res)
    }

    /// body returns (states reaching the end of the body, states leaving the loop normally)
    fn iterate(&mut self, label: Option<String>, s0: State, zero: bool, body: &mut dyn FnMut(&mut Self, State) -> (Vec<State>, Vec<State>)) -> Vec<Out> {
        let mut res = vec![];
        let mut exits: Vec<State> = vec![];
        if zero {
            exits.push(s0.clone());
        }
        let mut head = s0.clone();
        for _round in 0..self.rounds {
            let mut leave = vec![];
            let (ends, br) = {
                let lv = &mut leave;
                self.loop_body(label.clone(), head.clone(), &mut |me, s| {
                    let (e, l) = body(me, s);
                    lv.extend(l);
                    e
                })
            };
            res.extend(br.into_iter().map(|b| Out { v: b.v, t: b.t, s: b.s }));
            exits.extend(leave);
            if zero {
                exits.extend(ends.iter().cloned());
            }
            match self.join_all_states(ends) {
                Some(e) => head = if self.locks { e } else { self.join_state(&head, &e) },
                None => break,
            }
        }
        let ex = self.merge_states(exits);
        res.extend(ex.into_iter().map(|s| Out { v: UNIT, t: Ty::Tuple(vec![]), s }));
        self.merge(res)
    }

    fn while_loop(&mut self, w: &syn::ExprWhile, s: State) -> Vec<Out> {
        let label = w.label.as_ref().map(|l| l.name.ident.to_string());
        self.iterate(label, s, false, &mut |me, s| {
            me.scopes.push(HashMap::new());
            let (t, f) = me.cond(&w.cond, s);
            let mut ends = vec![];
            for x in t {
                ends.extend(me.block(&w.body, x, &Ty::Unknown).into_iter().map(|o| o.s));
            }
            me.scopes.pop();
            (ends, f)
        })
    }

    fn loop_(&mut self, l: &syn::ExprLoop, s: State) -> Vec<Out> {
        let label = l.label.as_ref().map(|l| l.name.ident.to_string());
        self.iterate(label, s, false, &mut |me, s| {
            let e = me.block(&l.body, s, &Ty::Unknown).into_iter().map(|o| o.s).collect();
            (e, vec![])
        })
    }

    /// async blocks / closures: `return` and `?` leave the block only
    fn inner_fn_block(&mut self, b: &syn::Block, s: State) -> Vec<Out> {
        let f = self.frames.last().unwrap();
        let nf = Frame { exits: vec![], loops: vec![], module: f.module.clone(), self_ty: f.self_ty.clone(), generics: f.generics.clone(), file: f.file.clone(), func: f.func.clone(), ret: Ty::Unknown, id: f.id };
        self.frames.push(nf);
        let mut outs = self.block(b, s, &Ty::Unknown);
        let fr = self.frames.pop().unwrap();
        for e in fr.exits {
            outs.push(Out { v: e.v, t: Ty::Unknown, s: e.s });
        }
        self.merge(outs)
    }

    pub fn call_closure(&mut self, cv: Vid, args: &[(Vid, Ty)], s: State, exp: &Ty) -> Vec<Out> {
        let id = match self.a.get(cv).clone() {
            Val::Closure(i) => i as usize,
            Val::Const(p) => {
                // function item / tuple constructor used as a closure
                if let Some((ed, i)) = self.variant_fields(&p) {
                    let t = Ty::Path(ed.path.clone(), vec![]);
                    let f = ed.variants[i].fields.iter().enumerate().map(|(k, x)| (x.0.clone(), args.get(k).map(|a| a.0).unwrap_or(TOP))).collect();
                    let v = self.a.mk(Val::Ctor { p, f });
                    return Self::one(v, t, s);
                }
                if let Some(fid) = self.m.by_path.get(&p).and_then(|v| v.first()).copied() {
                    let vs: Vec<Vid> = args.iter().map(|x| x.0).collect();
                    let (recv, rest) = if self.m.fns[fid].has_self && !vs.is_empty() { (Some(vs[0]), vs[1..].to_vec()) } else { (None, vs) };
                    return self.call_fn(fid, recv, &rest, s, 0).into_iter().map(|(o, _)| o).collect();
                }
                let vs: Vec<Vid> = args.iter().map(|x| x.0).collect();
                if matches!(p.as_str(), "Some" | "Ok" | "Err") {
                    let v = self.a.mk(Val::Ctor { p, f: vec![("0".into(), vs.first().copied().unwrap_or(TOP))] });
                    return Self::one(v, exp.clone(), s);
                }
                let v = self.a.mk(Val::Call { f: p, args: vs });
                return Self::one(v, exp.clone(), s);
            }
            _ => {
                let mut vs = vec![cv];
                vs.extend(args.iter().map(|x| x.0));
                let v = self.a.mk(Val::Call { f: "call".into(), args: vs.clone() });
                let mut s = s;
                self.event("call".into(), vs, v, None, Ty::Unknown, &mut s, 0);
                return Self::one(v, exp.clone(), s);
            }
        };
        if self.frames.len() > 40 {
            return Self::one(TOP, Ty::Unknown, s);
        }
        let (expr, scopes, fl) = {
            let c = &self.closures[id];
            (c.expr.clone(), c.scopes.clone(), (c.frame_like.0.clone(), c.frame_like.1.clone(), c.frame_like.2.clone(), c.frame_like.3.clone(), c.frame_like.4.clone()))
        };
        let ret = match &expr.output {
            syn::ReturnType::Default => exp.clone(),
            syn::ReturnType::Type(_, t) => self.m.ty(t, &fl.0, fl.1.as_ref(), &fl.2),
        };
        self.next_frame += 1;
        let nid = self.next_frame;
        self.frames.push(Frame { exits: vec![], loops: vec![], module: fl.0, self_ty: fl.1, generics: fl.2, file: fl.3, func: fl.4, ret: ret.clone(), id: nid });
        let saved = std::mem::replace(&mut self.scopes, scopes);
        self.scopes.push(HashMap::new());
        let mut states = vec![s];
        for (i, p) in expr.inputs.iter().enumerate() {
            let (v, t) = args.get(i).cloned().unwrap_or((TOP, Ty::Unknown));
            let mut ns = vec![];
            for s in states {
                if let (Some(s), _) = self.bind(p, v, &t, s) {
                    ns.push(s);
                }
            }
            states = ns;
        }
        let mut outs = vec![];
        for s in states {
            outs.extend(self.ev(&expr.body, s, &ret));
        }
        self.scopes = saved;
        let fr = self.frames.pop().unwrap();
        for e in fr.exits {
            outs.push(Out { v: e.v, t: Ty::Unknown, s: e.s });
        }
        self.merge(outs)
    }

    // ---------------------------------------------------------------- calls
    fn event_raw(&mut self, f: String, args: Vec<Vid>, val: Vid, fid: Option<usize>, recv_ty: Ty, s: &State, line: usize) {
        if self.locks {
            self.a.held = s.held.iter().map(|x| x.0.clone()).collect();
        }
        let fr = self.frames.last().unwrap();
        let (file, func) = (fr.file.clone(), fr.func.clone());
        let seq = self.events.len();
        self.events.push(Event { val, f, args, fid, recv_ty, must: s.must.clone(), may: s.may.clone(), file, line, func, depth: self.call_stack.len(), loops: self.loop_depth, seq });
    }
    fn event(&mut self, f: String, args: Vec<Vid>, val: Vid, fid: Option<usize>, recv_ty: Ty, s: &mut State, line: usize) {
        self.event_raw(f, args, val, fid, recv_ty, s, line);
        let c = self.a.fact(Fact::Called(val));
        s.add(c);
    }

    /// returns (out, final values of params incl. self first) for write-back
    fn call_fn(&mut self, fid: usize, recv: Option<Vid>, args: &[Vid], s: State, line: usize) -> Vec<(Out, Vec<Option<Vid>>)> {
        let m = self.m;
        let f = &m.fns[fid];
        let mut all: Vec<Vid> = vec![];
        if let Some(r) = recv {
            all.push(r);
        }
        all.extend_from_slice(args);
        let val = self.a.mk(Val::Call { f: f.path.clone(), args: all.clone() });
        let mut s = s;
        self.event(f.path.clone(), all.clone(), val, Some(fid), f.self_ty.clone().unwrap_or(Ty::Unknown), &mut s, line);
        let depth = self.call_stack.iter().filter(|x| **x == fid).count();
        // recursion is followed a little way when the call is for a known constructor (`Self::Month.f(..)`)
        let known = all.iter().any(|v| matches!(self.a.get(*v), Val::Ctor { .. }));
        let recursive = depth > 0 && !(depth < 3 && known && !self.call_vals.contains(&val));
        if f.block.is_none() || recursive || self.call_stack.len() > self.max_depth || (self.opaque)(f) {
            // closures handed to an opaque callee may run
            let mut s2 = s.clone();
            for a in &all {
                if matches!(self.a.get(*a), Val::Closure(_)) {
                    let r = self.call_closure(*a, &[], s2.clone(), &Ty::Unknown);
                    for o in r {
                        s2 = self.join_state(&s2, &o.s);
                    }
                }
            }
            let val = self.ext_model(&f.path, &all).unwrap_or(val);
            return vec![(Out { v: val, t: f.ret.clone(), s: s2 }, vec![])];
        }
        // inline
        let before_frames = self.next_frame + 1;
        self.call_vals.push(val);
        let exits = self.exec_fn(fid, recv, args, s);
        self.call_vals.pop();
        // collect write-backs: the param vars of that frame
        let mut names: Vec<Option<String>> = vec![];
        if recv.is_some() {
            names.push(Some("self".into()));
        }
        for (p, _, _) in &f.params {
            names.push(match p {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            });
        }
        let keys: Vec<Option<u32>> = names
            .iter()
            .map(|n| n.as_ref().and_then(|n| self.var_keys.get(&(before_frames, format!("{n}@1"))).copied()))
            .collect();
        let mut outs: Vec<Out> = vec![];
        for e in exits {
            let mut st = e.s;
            let k = match self.tag(e.v).as_str() {
                "Ok" => Some(Fact::Ok(val)),
                "Some" => Some(Fact::Some(val)),
                "Err" => Some(Fact::Err(val)),
                "None" => Some(Fact::None(val)),
                _ => None,
            };
            if let Some(k) = k {
                let k = self.a.fact(k);
                st.add(k);
            }
            outs.push(Out { v: e.v, t: f.ret.clone(), s: st });
        }
        // merge by tag only
        let mut groups: BTreeMap<String, Vec<Out>> = BTreeMap::new();
        for o in outs {
            groups.entry(self.tag(o.v)).or_default().push(o);
        }
        let mut res = vec![];
        for (_, g) in groups {
            let mut it = g.into_iter();
            let mut acc = it.next().unwrap();
            for o in it {
                acc.v = self.a.join(acc.v, o.v);
                acc.s = self.join_state(&acc.s, &o.s);
            }
            let wb: Vec<Option<Vid>> = keys.iter().map(|k| k.and_then(|k| acc.s.env.get(&k).copied())).collect();
            // drop callee locals to keep environments small
            res.push((acc, wb));
        }
        res
    }

    fn conv(&mut self, v: Vid, from: &Ty, to: &Ty, kinds: &[&str], s: State, line: usize) -> Option<Vec<Out>> {
        // find From<from> for to, or Into<to> for from
        let fp = from.peel();
        let tp = to.peel();
        if tp.name() == "String" && self.text_parts(v, from).is_some() {
            return None;
        }
        let mut cands: Vec<usize> = vec![];
        for f in &self.m.fns {
            let tr = match &f.trait_ {
                Some(t) => last_seg(t),
                None => continue,
            };
            let (src, dst) = match tr {
                "From" | "TryFrom" if kinds.contains(&tr) => (f.trait_args.first().cloned().unwrap_or(Ty::Unknown), f.self_ty.clone().unwrap_or(Ty::Unknown)),
                "Into" | "TryInto" if kinds.contains(&tr) => (f.self_ty.clone().unwrap_or(Ty::Unknown), f.trait_args.first().cloned().unwrap_or(Ty::Unknown)),
                _ => continue,
            };
            if !matches!(f.name.as_str(), "from" | "into" | "try_from" | "try_into") {
                continue;
            }
            let okf = if fp.known() { src.peel() == fp || (src.peel().path() == fp.path() && !fp.path().is_empty()) } else { false };
            let okt = if tp.known() { dst.peel() == tp || (dst.peel().path() == tp.path() && !tp.path().is_empty()) } else { false };
            if okf && okt {
                cands.insert(0, f.id);
                cands.truncate(1);
                let fid = cands[0];
                let has_self = self.m.fns[fid].has_self;
                let r = if has_self { self.call_fn(fid, Some(v), &[], s, line) } else { self.call_fn(fid, None, &[v], s, line) };
                return Some(r.into_iter().map(|x| x.0).collect());
            }
            if (okf && !tp.known()) || (okt && !fp.known()) {
                cands.push(f.id);
            }
        }
        if cands.len() == 1 {
            let fid = cands[0];
            let has_self = self.m.fns[fid].has_self;
            let r = if has_self { self.call_fn(fid, Some(v), &[], s, line) } else { self.call_fn(fid, None, &[v], s, line) };
            return Some(r.into_iter().map(|x| x.0).collect());
        }
        None
    }

    fn write_back(&mut self, targets: &[Option<&Expr>], wb: &[Option<Vid>], orig: &[Vid], mut s: State) -> State {
        for (i, t) in targets.iter().enumerate() {
            if let (Some(e), Some(Some(nv))) = (t, wb.get(i)) {
                if orig.get(i) != Some(nv) {
                    if let Some((k, mut steps)) = self.place(e) {
                        self.at_pos(&mut steps, &s);
                        let base = s.env.get(&k).copied().unwrap_or(TOP);
                        let x = self.upd_steps(base, &steps, *nv);
                        s.set(k, x);
                        self.follow(k, &mut s);
                    }
                }
            }
        }
        s
    }

    fn call(&mut self, c: &syn::ExprCall, s: State, exp: &Ty) -> Vec<Out> {
        let line = c.span().start().line;
        let args: Vec<&Expr> = c.args.iter().collect();
        if let Expr::Path(p) = strip_group(&c.func) {
            let local = if p.path.segments.len() == 1 { self.lookup(&p.path.segments[0].ident.to_string()) } else { None };
            if local.is_none() {
                let mut cp = self.canon(&p.path);
                if let Some(q) = &p.qself {
                    let (m, st, g) = self.ctx();
                    let t = self.m.ty(&q.ty, &m, st.as_ref(), &g);
                    if t.known() {
                        cp = format!("{}::{}", t.path(), last(&p.path));
                    }
                }
                return self.call_path(&cp, &p.path, &args, s, exp, line);
            }
        }
        // callable value
        let fs = self.ev(&c.func, s, &Ty::Unknown);
        let mut r = vec![];
        for f in fs {
            let n = args.len();
            for (vs, ts, s) in self.evs(&args, f.s.clone(), &vec![Ty::Unknown; n]) {
                let a: Vec<(Vid, Ty)> = vs.into_iter().zip(ts).collect();
                let rt = match &f.t {
                    Ty::Fn(r) => (**r).clone(),
                    _ => Ty::Unknown,
                };
                r.extend(self.call_closure(f.v, &a, s, &rt));
            }
        }
        r
    }

    fn call_path(&mut self, cp: &str, path: &syn::Path, args: &[&Expr], s: State, exp: &Ty, line: usize) -> Vec<Out> {
        let l = last_seg(cp).to_string();
        let parent = cp.rsplitn(3, "::").nth(1).unwrap_or("").to_string();
        if self.locks && l == "drop" && args.len() == 1 {
            if let Expr::Path(p) = strip_group(args[0]) {
                if let Some(k) = self.lookup(&last(&p.path).to_string()) {
                    let mut s = s;
                    if let Some(i) = s.held.iter().rposition(|x| x.1 == Some(k)) {
                        self.release(&mut s, i);
                        return Self::one(UNIT, Ty::Tuple(vec![]), s);
                    }
                    return Self::one(UNIT, Ty::Tuple(vec![]), s);
                }
            }
        }
        if self.concrete && matches!(l.as_str(), "max" | "min") && args.len() == 2 && matches!(parent.as_str(), "cmp" | "") {
            let mut r = vec![];
            for (vs, ts, s) in self.evs(args, s.clone(), &[exp.clone(), exp.clone()]) {
                let Some(o) = self.lit_cmp(vs[0], vs[1]) else {
                    r.clear();
                    break;
                };
                let first = if l == "max" { o.is_gt() } else { o.is_le() };
                let i = usize::from(!first);
                r.push(Out { v: vs[i], t: ts[i].clone(), s });
            }
            if !r.is_empty() {
                return r;
            }
        }
        // Ok / Err / Some
        if matches!(cp, "Ok" | "Err" | "Some") {
            let e = match cp {
                "Err" => exp.peel().arg(1),
                _ => exp.peel().arg(0),
            };
            let rs = self.evs(args, s, &[e]);
            return rs
                .into_iter()
                .map(|(vs, ts, s)| {
                    let v = self.a.mk(Val::Ctor { p: cp.into(), f: vec![("0".into(), vs.first().copied().unwrap_or(UNIT))] });
                    let t0 = ts.first().cloned().unwrap_or(Ty::Unknown);
                    let t = match cp {
                        "Some" => Ty::Path("Option".into(), vec![t0]),
                        "Ok" => Ty::Path("Result".into(), vec![t0, exp.peel().arg(1)]),
                        _ => Ty::Path("Result".into(), vec![exp.peel().arg(0), t0]),
                    };
                    Out { v, t, s }
                })
                .collect();
        }
        // enum tuple constructor
        if let Some((ed, i)) = self.variant_fields(cp) {
            let exps: Vec<Ty> = ed.variants[i].fields.iter().map(|x| if x.1.known() { x.1.clone() } else { exp.arg(0) }).collect();
            let names: Vec<String> = ed.variants[i].fields.iter().map(|x| x.0.clone()).collect();
            let rs = self.evs(args, s, &exps);
            let mut out = vec![];
            for (vs, ts, s) in rs {
                let f = names.iter().cloned().zip(vs).collect();
                let v = self.a.mk(Val::Ctor { p: cp.into(), f });
                let ga = if exps.iter().any(|e| !e.known()) { ts.clone() } else { vec![] };
                out.push(Out { v, t: Ty::Path(ed.path.clone(), ga), s });
            }
            return out;
        }
        // tuple struct
        if let Some(sd) = self.m.structs.get(cp) {
            if sd.tuple {
                let exps: Vec<Ty> = sd.fields.iter().map(|x| x.1.clone()).collect();
                let names: Vec<String> = sd.fields.iter().map(|x| x.0.clone()).collect();
                let t = Ty::Path(cp.into(), vec![]);
                let rs = self.evs(args, s, &exps);
                return rs
                    .into_iter()
                    .map(|(vs, _, s)| {
                        let f = names.iter().cloned().zip(vs).collect();
                        let v = self.a.mk(Val::Ctor { p: cp.into(), f });
                        Out { v, t: t.clone(), s }
                    })
                    .collect();
            }
        }
        // workspace function
        if let Some(ids) = self.m.by_path.get(cp) {
            let fid = *ids.iter().find(|i| self.m.fns[**i].block.is_some() && self.m.fns[**i].trait_.is_none()).or(ids.iter().find(|i| self.m.fns[**i].block.is_some())).unwrap_or(&ids[0]);
            // several From impls share the path `T::from`
            if (ids.len() > 1 || parent == "String") && matches!(l.as_str(), "from" | "try_from") && args.len() == 1 {
                let mut out = vec![];
                let to = self.m.fns[fid].self_ty.clone().unwrap_or(Ty::Unknown);
                for o in self.ev(args[0], s, &Ty::Unknown) {
                    match self.conv(o.v, &o.t, &to, &["From", "TryFrom"], o.s.clone(), line) {
                        Some(r) => out.extend(r),
                        None if to.name() == "String" => out.push(Out { v: o.v, t: to.clone(), s: o.s }),
                        None => {
                            let v = self.a.mk(Val::Call { f: cp.into(), args: vec![o.v] });
                            let mut s = o.s;
                            self.event(cp.into(), vec![o.v], v, None, Ty::Unknown, &mut s, line);
                            out.push(Out { v, t: to.clone(), s });
                        }
                    }
                }
                return out;
            }
            let tf: Vec<String> = path.segments.iter().filter_map(|x| match &x.arguments {
                syn::PathArguments::AngleBracketed(b) => Some(b.args.iter().map(|t| quote::quote!(#t).to_string().replace(' ', "")).collect::<Vec<_>>().join(", ")),
                _ => None,
            }).collect();
            self.tf = tf.join("; ");
            return self.user_call(fid, args, s, line);
        }
        // smart pointers and transparent constructors
        if matches!(l.as_str(), "new") && matches!(parent.as_str(), "Arc" | "Box" | "Rc" | "RwLock" | "Mutex" | "BufWriter" | "BufReader" | "Cursor" | "Some" | "Cow" | "Wrapping" | "Reverse") && args.len() == 1
            || (matches!(cp, "String::from" | "std::mem::take" | "Reverse" | "std::cmp::Reverse" | "PathBuf::from" | "std::path::PathBuf::from" | "Arc::clone" | "std::sync::Arc::clone" | "Box::pin" | "std::slice::from_ref" | "Some" | "Json" | "axum::Json" | "Rc::clone"))
                && args.len() == 1
        {
            let wrap = matches!(parent.as_str(), "RwLock" | "Mutex");
            let e1 = if wrap { exp.arg(0) } else { exp.peel() };
            return self
                .ev(args[0], s, &e1)
                .into_iter()
                .map(|o| {
                    let t = if wrap { Ty::Path(parent.clone(), vec![o.t]) } else { o.t };
                    Out { v: o.v, t, s: o.s }
                })
                .collect();
        }
        if parent == "String" && matches!(l.as_str(), "new" | "with_capacity" | "default") {
            let v = self.a.lit("\"\"");
            return Self::one(v, Ty::Path("String".into(), vec![]), s);
        }
        if parent == "iter" && (l == "once" && args.len() == 1 || l == "empty" && args.is_empty()) {
            let empty = self.a.mk(Val::List { must: vec![], may: vec![] });
            let Some(x) = args.first() else { return Self::one(empty, Ty::Path("Vec".into(), vec![]), s) };
            return self
                .ev(x, s, &Ty::Unknown)
                .into_iter()
                .map(|o| {
                    let v = self.a.mk(Val::List { must: vec![o.v], may: vec![] });
                    Out { v, t: Ty::Path("Vec".into(), vec![o.t]), s: o.s }
                })
                .collect();
        }
        if (matches!(parent.as_str(), "Vec" | "VecDeque" | "HashSet" | "BTreeSet" | "BinaryHeap") || self.concrete && matches!(parent.as_str(), "HashMap" | "BTreeMap")) && matches!(l.as_str(), "new" | "with_capacity" | "default") {
            let mut st = s;
            for a in args {
                if let Some(o) = self.ev(a, st.clone(), &Ty::Unknown).into_iter().next() {
                    st = o.s;
                }
            }
            let v = self.a.mk(Val::List { must: vec![], may: vec![] });
            let t = if exp.known() { exp.clone() } else { Ty::Path(if self.concrete { parent.clone() } else { "Vec".into() }, vec![]) };
            return Self::one(v, t, st);
        }
        // generic external call
        let n = args.len();
        let (m, st, g) = self.ctx();
        let rs = self.evs(args, s, &vec![Ty::Unknown; n]);
        let mut out = vec![];
        for (vs, ts, s) in rs {
            if self.concrete && l == "spawn_blocking" && vs.len() == 1 && matches!(self.a.get(vs[0]), Val::Closure(_)) {
                for o in self.call_closure(vs[0], &[], s, &Ty::Unknown) {
                    let v = self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), o.v)] });
                    out.push(Out { v, t: Ty::Path("Result".into(), vec![o.t]), s: o.s });
                }
                continue;
            }
            // closures given to external functions run zero or more times
            let mut s = s;
            for v in &vs {
                if matches!(self.a.get(*v), Val::Closure(_)) {
                    s = self.run_closure_maybe(*v, &[], s, true);
                }
            }
            let val = self.a.mk(Val::Call { f: cp.into(), args: vs.clone() });
            self.event(cp.into(), vs.clone(), val, None, ts.first().cloned().unwrap_or(Ty::Unknown), &mut s, line);
            let t = if matches!(l.as_str(), "new" | "default" | "from" | "with_capacity" | "open" | "try_new" | "create" | "from_vec") && path.segments.len() > 1 {
                let mut p2 = path.clone();
                p2.segments.pop();
                p2.segments.pop_punct();
                let t = self.m.path_ty(&p2, &m, st.as_ref(), &g);
                if matches!(l.as_str(), "open" | "try_new" | "create") {
                    Ty::Path("Result".into(), vec![t])
                } else {
                    t
                }
            } else {
                exp.clone()
            };
            // mutable reference arguments of unknown callees
            let mut s2 = s;
            for (e, v) in args.iter().zip(&vs) {
                if let Expr::Reference(r) = strip_group(e) {
                    if r.mutability.is_some() {
                        if let Some((k, steps)) = self.place(&r.expr) {
                            let others: Vec<Vid> = vs.iter().copied().filter(|x| x != v).collect();
                            let nv = self.a.mk(Val::Mut(cp.into(), *v, others));
                            let base = s2.env.get(&k).copied().unwrap_or(TOP);
                            let x = self.upd_steps(base, &steps, nv);
                            s2.set(k, x);
                            self.follow(k, &mut s2);
                        }
                    }
                }
            }
            let val = self.ext_model(cp, &vs).unwrap_or(val);
            out.push(Out { v: val, t, s: s2 });
        }
        out
    }

    fn ext_model(&mut self, f: &str, args: &[Vid]) -> Option<Vid> {
        let h = self.ext.clone()?;
        h(&mut self.a, f, args)
    }

    fn run_closure_maybe(&mut self, c: Vid, args: &[(Vid, Ty)], s: State, once: bool) -> State {
        self.loop_depth += 1;
        let r = self.call_closure(c, args, s.clone(), &Ty::Unknown);
        self.loop_depth -= 1;
        let mut acc = s.clone();
        for o in r {
            acc = self.join_state(&acc, &o.s);
        }
        let _ = once;
        acc
    }

    fn user_call(&mut self, fid: usize, args: &[&Expr], s: State, line: usize) -> Vec<Out> {
        let m = self.m;
        let f = &m.fns[fid];
        let tf = std::mem::take(&mut self.tf);
        let mut exps: Vec<Ty> = vec![];
        if f.has_self {
            exps.push(f.self_ty.clone().unwrap_or(Ty::Unknown));
        }
        exps.extend(f.params.iter().map(|p| p.1.clone()));
        let rs = self.evs(args, s, &exps);
        let mut out = vec![];
        for (vs, _, s) in rs {
            let (recv, rest) = if f.has_self && !vs.is_empty() { (Some(vs[0]), vs[1..].to_vec()) } else { (None, vs.clone()) };
            let mut muts: Vec<bool> = vec![];
            if f.has_self {
                muts.push(f.self_mut);
            }
            muts.extend(f.params.iter().map(|p| p.2));
            self.a.tf = tf.clone();
            for (mut o, wb) in self.call_fn(fid, recv, &rest, s.clone(), line) {
                let targets: Vec<Option<&Expr>> = args.iter().enumerate().map(|(i, e)| if muts.get(i).copied().unwrap_or(false) { Some(*e) } else { None }).collect();
                o.s = self.write_back(&targets, &wb, &vs, o.s);
                out.push(o);
            }
        }
        out
    }

    fn method_call(&mut self, mc: &syn::ExprMethodCall, s: State, exp: &Ty) -> Vec<Out> {
        let name = mc.method.to_string();
        let line = mc.method.span().start().line;
        let args: Vec<&Expr> = mc.args.iter().collect();
        if self.concrete && matches!(name.as_str(), "or_insert" | "or_default") {
            if let Some(o) = self.entry_op(mc, &s) {
                return vec![o];
            }
        }
        if self.locks && name == "split_at" && args.len() == 1 {
            let (x, n) = (&mc.receiver, args[0]);
            return self.ev(&syn::parse_quote!((#x[..#n], #x[#n..])), s, exp);
        }
        if self.locks && self.concrete && matches!(name.as_str(), "get_or_insert" | "get_or_insert_with") && args.len() == 1 {
            if let Some(o) = self.get_or_insert(mc, &s) {
                return vec![o];
            }
        }
        let result = Ty::Path("Result".into(), vec![exp.peel().arg(0)]);
        let lazy = std::mem::replace(&mut self.until_err, None);
        if self.concrete && name == "collect" && args.is_empty() {
            let res = match mc.turbofish.as_ref().and_then(|t| t.args.first()) {
                Some(syn::GenericArgument::Type(syn::Type::Path(t))) => t.path.segments.last().map_or(false, |x| x.ident == "Result"),
                _ => exp.name() == "Result",
            };
            if let (true, Expr::MethodCall(m)) = (res, strip_group(&mc.receiver)) {
                if m.method == "map" {
                    self.until_err = Some(m.method.span().start());
                }
            }
        }
        let os = self.ev(&mc.receiver, s, if TRANSPARENT.contains(&name.as_str()) { exp } else if name == "map_err" { &result } else { &Ty::Unknown });
        self.until_err = lazy;
        let mut res = vec![];
        for mut o in os {
            o.v = self.range_list(o.v);
            let t = o.t.peel().clone();
            if self.locks && name == "len" && args.is_empty() {
                if let Some(n) = self.bytes_len(o.v) {
                    let v = self.a.lit(&n.to_string());
                    res.extend(Self::one(v, Ty::Path("usize".into(), vec![]), o.s));
                    continue;
                }
            }
            let n = res.len();
            res.extend(self.method_on(mc, &name, o, &args, exp, line));
            if self.locks && name.starts_with("to_") && name.ends_with("e_bytes") {
                if let Some(w) = width(t.name()) {
                    for o in &res[n..] {
                        self.widths.insert(o.v, w);
                    }
                }
            }
        }
        self.merge(res)
    }

    /// how long bytes put together of known pieces are
    fn bytes_len(&mut self, v: Vid) -> Option<usize> {
        if let Some(n) = self.widths.get(&v) {
            return Some(*n);
        }
        let Val::Call { f, args } = self.a.get(v).clone() else { return None };
        let Val::List { must, may } = self.a.get(*args.first()?).clone() else { return None };
        if f.rsplit("::").next().unwrap_or("").trim_start_matches('.') != "concat" || !may.is_empty() || must.is_empty() {
            return None;
        }
        let mut sum = 0;
        for x in must {
            sum += match self.bytes_len(x) {
                Some(n) => n,
                None => {
                    let l = self.ext_model("len", &[x])?;
                    usize::try_from(self.a.int(l)?).ok()?
                }
            };
        }
        Some(sum)
    }

    /// `option.get_or_insert(v)` of an option known on this path
    fn get_or_insert(&mut self, mc: &syn::ExprMethodCall, s: &State) -> Option<Out> {
        let (root, mut steps) = self.place(&mc.receiver)?;
        let one = |mut os: Vec<Out>| if os.len() == 1 { os.pop() } else { None };
        let o = one(self.ev(&mc.receiver, s.clone(), &Ty::Unknown))?;
        let Val::Ctor { p, f } = self.a.get(o.v).clone() else { return None };
        let d = match strip_group(&mc.args[0]) {
            x if mc.method == "get_or_insert" => one(self.ev(x, o.s, &o.t.peel().arg(0)))?,
            Expr::Closure(c) => one(self.ev(&c.body, o.s, &o.t.peel().arg(0)))?,
            x => one(self.ev(&syn::parse_quote!(#x()), o.s, &o.t.peel().arg(0)))?,
        };
        let mut s = d.s;
        self.at_pos(&mut steps, &s);
        let v = match (p.as_str(), f.first()) {
            ("Some", Some(x)) => x.1,
            ("None", None) => {
                let x = self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), d.v)] });
                let base = s.env.get(&root).copied().unwrap_or(TOP);
                let x = self.upd_steps(base, &steps, x);
                s.set(root, x);
                self.follow(root, &mut s);
                d.v
            }
            _ => return None,
        };
        steps.push(Step::Field("0".into()));
        self.entry_ref = Some((v, root, steps));
        Some(Out { v, t: if o.t.peel().arg(0).known() { o.t.peel().arg(0) } else { d.t }, s })
    }

    /// `map.entry(k).or_insert(v)` of a map known on this path
    fn entry_op(&mut self, mc: &syn::ExprMethodCall, s: &State) -> Option<Out> {
        let Expr::MethodCall(en) = strip_group(&mc.receiver) else { return None };
        if en.method != "entry" || en.args.len() != 1 {
            return None;
        }
        let (root, mut steps) = self.place(&en.receiver)?;
        let one = |mut os: Vec<Out>| if os.len() == 1 { os.pop() } else { None };
        let m = one(self.ev(&en.receiver, s.clone(), &Ty::Unknown))?;
        let mt = m.t.peel();
        if !matches!(mt.name(), "HashMap" | "BTreeMap") {
            return None;
        }
        let Val::List { mut must, may } = self.a.get(m.v).clone() else { return None };
        if !may.is_empty() {
            return None;
        }
        let k = one(self.ev(&en.args[0], m.s, &mt.arg(0)))?;
        let v = match mc.args.first() {
            Some(e) => one(self.ev(e, k.s.clone(), &mt.arg(1)))?,
            None => Out { v: if matches!(mt.arg(1).name(), "usize" | "u64" | "u32" | "i64" | "i32") { self.a.lit("0") } else { self.a.mk(Val::List { must: vec![], may: vec![] }) }, t: mt.arg(1), s: k.s.clone() },
        };
        let mut at = None;
        for (i, x) in must.iter().enumerate() {
            let Val::Tuple(t) = self.a.get(*x) else { return None };
            if self.lit_eq(t[0], k.v)? {
                at = Some(i);
            }
        }
        self.at_pos(&mut steps, s);
        let mut s = v.s;
        let i = match at {
            Some(i) => i,
            None => {
                let x = self.a.mk(Val::Tuple(vec![k.v, v.v]));
                must.push(x);
                let base = s.env.get(&root).copied().unwrap_or(TOP);
                let nv = self.a.mk(Val::List { must: must.clone(), may: vec![] });
                let x = self.upd_steps(base, &steps, nv);
                s.set(root, x);
                self.follow(root, &mut s);
                must.len() - 1
            }
        };
        steps.push(Step::Pos(i));
        steps.push(Step::Field("1".into()));
        let v = self.a.field(must[i], "1");
        self.entry_ref = Some((v, root, steps));
        Some(Out { v, t: mt.arg(1), s })
    }

    fn method_on(&mut self, mc: &syn::ExprMethodCall, name: &str, o: Out, args: &[&Expr], exp: &Ty, line: usize) -> Vec<Out> {
        // what is read into a buffer: numbered on each path
        if self.locks && args.len() == 1 && matches!(name, "read" | "read_exact" | "read_to_end" | "read_to_string") {
            if let Expr::Reference(r) = strip_group(args[0]) {
                if r.mutability.is_some() && self.place(&r.expr).is_some() {
                    let outs = self.method_any(mc, name, o, args, exp, line);
                    return outs
                        .into_iter()
                        .map(|mut x| {
                            const READS: u32 = u32::MAX;
                            let n = x.s.env.get(&READS).and_then(|v| self.a.int(*v)).unwrap_or(0) + 1;
                            let c = self.a.lit(&n.to_string());
                            x.s.set(READS, c);
                            let v = self.a.mk(Val::Param(format!("read{n}")));
                            x.s = self.assign(&r.expr, v, &Ty::Unknown, x.s);
                            x
                        })
                        .collect();
                }
            }
        }
        self.method_any(mc, name, o, args, exp, line)
    }

    fn method_any(&mut self, mc: &syn::ExprMethodCall, name: &str, o: Out, args: &[&Expr], exp: &Ty, line: usize) -> Vec<Out> {
        let m = self.m;
        // the items of a known option
        if self.concrete && args.is_empty() && matches!(name, "iter" | "into_iter" | "iter_mut") {
            let l = match self.a.get(o.v) {
                Val::Ctor { p, .. } if p == "None" => Some(vec![]),
                Val::Ctor { p, f } if p == "Some" && f.len() == 1 => Some(vec![f[0].1]),
                _ => None,
            };
            if let Some(must) = l {
                let v = self.a.mk(Val::List { must, may: vec![] });
                let t = Ty::Path("Vec".into(), vec![o.t.peel().arg(0)]);
                return Self::one(v, t, o.s);
            }
        }
        let mut rt = o.t.peel();
        // a record whose type is not written where it was read
        if self.locks && !rt.known() {
            if let Val::Ctor { p, .. } = self.a.get(o.v) {
                if m.structs.contains_key(p.as_str()) {
                    rt = Ty::Path(p.clone(), vec![]);
                }
            }
        }
        // an external value mapped where an option or a result is expected
        if !rt.known() && matches!(name, "map" | "and_then" | "inspect") && matches!(exp.name(), "Option" | "Result") && !matches!(self.a.get(o.v), Val::List { .. } | Val::Coll { .. }) {
            rt = Ty::Path(exp.name().into(), vec![]);
        }
        // workspace method
        let skip_user = name == "clone" || (name == "to_string") || (name == "to_owned");
        if !skip_user {
            if let Some(fid) = m.method(&rt, name) {
                let f = &m.fns[fid];
                if f.has_self && f.params.len() == args.len() && !(matches!(name, "into" | "try_into")) {
                    let exps: Vec<Ty> = f.params.iter().map(|p| p.1.clone()).collect();
                    let rs = self.evs(args, o.s.clone(), &exps);
                    let mut out = vec![];
                    for (vs, _, s) in rs {
                        let mut orig = vec![o.v];
                        orig.extend(vs.iter().copied());
                        for (mut r, wb) in self.call_fn(fid, Some(o.v), &vs, s.clone(), line) {
                            let mut targets: Vec<Option<&Expr>> = vec![if f.self_mut { Some(&*mc.receiver) } else { None }];
                            targets.extend(args.iter().enumerate().map(|(i, e)| if f.params[i].2 { Some(*e) } else { None }));
                            r.s = self.write_back(&targets, &wb, &orig, r.s);
                            out.push(r);
                        }
                    }
                    return out;
                }
            }
        }
        // boxed closures stored in fields handled by Expr::Call
        if (name == "into" || name == "try_into") && args.is_empty() {
            let to = if name == "try_into" { exp.peel().arg(0) } else { exp.clone() };
            let to = if to.known() { to } else { Ty::Unknown };
            if let Some(r) = self.conv(o.v, &o.t, &to, &["From", "Into", "TryInto", "TryFrom"], o.s.clone(), line) {
                return r;
            }
            let val = match self.ext_model(&format!(".{name}"), &[o.v]) {
                Some(v) => v,
                None => self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v] }),
            };
            let t = if name == "try_into" && !exp.known() { Ty::Path("Result".into(), vec![Ty::Unknown]) } else { exp.clone() };
            return Self::one(val, t, o.s);
        }
        let opt = matches!(rt.name(), "Option" | "Result") || matches!(self.tag(o.v).as_str(), "Ok" | "Err" | "Some" | "None");
        // a list of results collected into one result
        if self.concrete && name == "collect" && args.is_empty() {
            if let Val::List { must, may } = self.a.get(o.v).clone() {
                let res = match mc.turbofish.as_ref().and_then(|t| t.args.first()) {
                    Some(syn::GenericArgument::Type(t)) => {
                        let (m2, st, g) = self.ctx();
                        self.m.ty(t, &m2, st.as_ref(), &g).name() == "Result"
                    }
                    _ => exp.name() == "Result",
                };
                if res && may.is_empty() {
                    let ok: Option<Vec<Vid>> = must
                        .iter()
                        .map(|x| match self.a.get(*x) {
                            Val::Ctor { p, f } if p == "Ok" && f.len() == 1 => Some(f[0].1),
                            _ => None,
                        })
                        .collect();
                    if let Some(l) = ok {
                        let l = self.a.mk(Val::List { must: l, may: vec![] });
                        let v = self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), l)] });
                        let t = Ty::Path("Result".into(), vec![exp.arg(0)]);
                        return Self::one(v, t, o.s);
                    }
                    if let Some(e) = must.iter().find(|x| matches!(self.a.get(**x), Val::Ctor { p, .. } if p == "Err")) {
                        if must.iter().all(|x| matches!(self.a.get(*x), Val::Ctor { p, .. } if p == "Ok" || p == "Err")) {
                            return Self::one(*e, Ty::Path("Result".into(), vec![exp.arg(0)]), o.s);
                        }
                    }
                }
            }
        }
        if TRANSPARENT.contains(&name) && args.is_empty() && !(name == "rev" && self.concrete && matches!(self.a.get(o.v), Val::List { may, .. } if may.is_empty())) {
            // keep iterator element types
            let t = match name {
                "to_string" | "as_str" | "into_string" => Ty::Path("String".into(), vec![]),
                "values" | "into_values" | "values_mut" => Ty::Path("Vec".into(), vec![rt.arg(1)]),
                "collect" if exp.known() && !matches!(exp.name(), "Result") => exp.clone(),
                "collect" => {
                    let tf = mc.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| match a {
                        syn::GenericArgument::Type(t) => {
                            let (m2, st, g) = self.ctx();
                            Some(self.m.ty(t, &m2, st.as_ref(), &g))
                        }
                        _ => None,
                    });
                    match tf {
                        Some(t) if t.name() == "Result" => Ty::Path("Result".into(), vec![fill(t.arg(0), &o.t)]),
                        Some(t) => fill(t, &o.t),
                        None if exp.name() == "Result" => Ty::Path("Result".into(), vec![fill(exp.arg(0), &o.t)]),
                        None => o.t.clone(),
                    }
                }
                _ => o.t.clone(),
            };
            return Self::one(o.v, t, o.s);
        }
        // the type a value is taken for is part of the value
        if matches!(name, "downcast_ref" | "downcast_mut") && args.is_empty() {
            if let Some(syn::GenericArgument::Type(t)) = mc.turbofish.as_ref().and_then(|t| t.args.first()) {
                let (m2, st, g) = self.ctx();
                let t = self.m.ty(t, &m2, st.as_ref(), &g);
                let n = self.a.lit(&t.peel().name().to_string());
                let v = match self.ext_model(&format!(".{name}"), &[o.v, n]) {
                    Some(v) => v,
                    None => self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v, n] }),
                };
                return Self::one(v, Ty::Path("Option".into(), vec![t]), o.s);
            }
        }
        match (name, args.len()) {
            ("unwrap", 0) | ("expect", 1) | ("unwrap_or_default", 0) => {
                let t = if matches!(rt.name(), "Option" | "Result") { rt.arg(0) } else { o.t.clone() };
                match self.a.get(o.v).clone() {
                    Val::Ctor { p, f } if p == "Ok" || p == "Some" => return Self::one(f[0].1, t, o.s),
                    Val::Ctor { p, .. } if (p == "Err" || p == "None") && name != "unwrap_or_default" => return vec![],
                    _ => {}
                }
                let (ok, _) = self.okerr(o.v, rt.name(), &o.s);
                let mut s = o.s;
                if name != "unwrap_or_default" {
                    s.add(ok);
                }
                // a joined value that mixes Some(x) and others
                let alts = self.a.alts(o.v);
                let mut keep = vec![];
                for x in alts {
                    match self.a.get(x).clone() {
                        Val::Ctor { p, f } if p == "Ok" || p == "Some" => keep.push(f[0].1),
                        Val::Ctor { p, .. } if p == "Err" || p == "None" => {
                            if name == "unwrap_or_default" {
                                let d = if self.eval_consts && t.name() == "Vec" { Val::List { must: vec![], may: vec![] } } else { Val::Call { f: "default".into(), args: vec![] } };
                                let d = self.a.mk(d);
                                keep.push(d);
                            }
                        }
                        _ => keep.push(x),
                    }
                }
                let v = if keep.is_empty() { o.v } else { self.a.join_all(keep) };
                return Self::one(v, t, s);
            }
            ("read", 0) | ("write", 0) | ("lock", 0) => {
                let (t, is_lock) = if matches!(rt.name(), "RwLock" | "Mutex") { (rt.arg(0), true) } else { (o.t.clone(), !rt.known()) };
                let mut s = o.s;
                if is_lock && self.locks {
                    let v = self.acquire(&mc.receiver, o.v, &mut s, line, name);
                    return Self::one(v, t, s);
                }
                if is_lock {
                    let val = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v] });
                    self.event(format!(".{name}"), vec![o.v], val, None, rt.clone(), &mut s, line);
                    return Self::one(o.v, t, s);
                }
                let val = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v] });
                self.event(format!(".{name}"), vec![o.v], val, None, rt.clone(), &mut s, line);
                return Self::one(val, Ty::Unknown, s);
            }
            ("is_some", 0) | ("is_none", 0) | ("is_ok", 0) | ("is_err", 0) => {
                let t = self.tag(o.v);
                let v = if t.is_empty() {
                    self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v] })
                } else {
                    let ok = matches!(t.as_str(), "Ok" | "Some");
                    let pos = matches!(name, "is_some" | "is_ok");
                    self.a.lit(if ok == pos { "true" } else { "false" })
                };
                return Self::one(v, Ty::Path("bool".into(), vec![]), o.s);
            }
            ("is_empty", 0) | ("len", 0) | ("count", 0) if self.eval_consts && self.unroll && matches!(self.a.get(o.v), Val::List { may, .. } if may.is_empty()) => {
                let n = match self.a.get(o.v) {
                    Val::List { must, .. } => must.len(),
                    _ => 0,
                };
                let v = self.a.lit(&if name == "is_empty" { (n == 0).to_string() } else { n.to_string() });
                return Self::one(v, Ty::Path(if name == "is_empty" { "bool" } else { "usize" }.into(), vec![]), o.s);
            }
            ("is_empty", 0) if self.concrete && matches!(self.a.get(o.v), Val::Lit(l) if l.starts_with('"')) => {
                let empty = matches!(self.a.get(o.v), Val::Lit(l) if l == "\"\"");
                let v = self.a.lit(&empty.to_string());
                return Self::one(v, Ty::Path("bool".into(), vec![]), o.s);
            }
            ("contains", 1) if self.eval_consts && self.unroll && matches!(self.a.get(o.v), Val::List { must, may } if must.is_empty() && may.is_empty()) => {
                let v = self.a.lit("false");
                let os = self.ev(args[0], o.s, &Ty::Unknown);
                return os.into_iter().map(|o| Out { v, t: Ty::Path("bool".into(), vec![]), s: o.s }).collect();
            }
            ("ok", 0) if opt || !rt.known() => {
                let t = Ty::Path("Option".into(), vec![rt.arg(0)]);
                return match self.tag(o.v).as_str() {
                    "Err" => {
                        let v = self.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
                        Self::one(v, t, o.s)
                    }
                    "Ok" => {
                        let x = self.a.field(o.v, "0");
                        let v = self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] });
                        Self::one(v, t, o.s)
                    }
                    _ => {
                        let v = self.a.mk(Val::Call { f: ".ok".into(), args: vec![o.v] });
                        let mut s = o.s;
                        self.event(".ok".into(), vec![o.v], v, None, rt.clone(), &mut s, line);
                        Self::one(v, t, s)
                    }
                };
            }
            _ => {}
        }
        // evaluate the arguments (closures stay values)
        let n = args.len();
        let aexp: Vec<Ty> = vec![if name == "push" || name == "unwrap_or" { rt.arg(0) } else { Ty::Unknown }; n];
        let rs = self.evs(args, o.s.clone(), &aexp);
        let mut out = vec![];
        for (vs, ts, s) in rs {
            out.extend(self.method_builtin(mc, name, &o, &rt, opt, vs, ts, s, exp, line));
        }
        out
    }

    /// equality of two values when both are spelled out far enough to decide it
    /// an integer literal that the cast leaves as it is
    fn same_int(&self, v: Vid, t: &str) -> bool {
        let max: i128 = match t {
            "u8" => 255,
            "i8" => 127,
            "i16" => i16::MAX as i128,
            "u16" => u16::MAX as i128,
            "i32" => i32::MAX as i128,
            "u32" => u32::MAX as i128,
            "i64" | "u64" | "usize" | "isize" | "i128" | "u128" => i64::MAX as i128,
            _ => return false,
        };
        self.a.int(v).map_or(false, |n| n >= 0 && n <= max)
    }
    pub fn lit_eq(&self, a: Vid, b: Vid) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        match (self.a.get(a), self.a.get(b)) {
            (Val::Lit(x), Val::Lit(y)) => Some(x == y),
            (Val::Cast(x, t), _) if self.same_int(*x, t) => self.lit_eq(*x, b),
            (_, Val::Cast(y, t)) if self.same_int(*y, t) => self.lit_eq(a, *y),
            (Val::Ctor { p, f }, Val::Ctor { p: q, f: g }) => {
                if !Self::same_variant(p, q) {
                    return Some(false);
                }
                let mut r = Some(true);
                for ((n, x), (m, y)) in f.iter().zip(g) {
                    if n != m {
                        return None;
                    }
                    match self.lit_eq(*x, *y) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                if f.len() == g.len() {
                    r
                } else {
                    None
                }
            }
            (Val::List { must: f, may: y }, Val::List { must: g, may: z }) if y.is_empty() && z.is_empty() => self.all_eq(f, g),
            (Val::Tuple(f), Val::Tuple(g)) => self.all_eq(f, g),
            _ if self.locks => Some(known_text(&self.a, a)? == known_text(&self.a, b)?),
            _ => None,
        }
    }
    fn all_eq(&self, f: &[Vid], g: &[Vid]) -> Option<bool> {
        if f.len() != g.len() {
            return Some(false);
        }
        let mut r = Some(true);
        for (x, y) in f.iter().zip(g) {
            match self.lit_eq(*x, *y) {
                Some(false) => return Some(false),
                None => r = None,
                _ => {}
            }
        }
        r
    }
    /// the order of two values that are known
    pub fn lit_cmp(&self, a: Vid, b: Vid) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if a == b {
            return Some(Equal);
        }
        let seq = |f: Vec<Vid>, g: Vec<Vid>| -> Option<std::cmp::Ordering> {
            for (x, y) in f.iter().zip(&g) {
                match self.lit_cmp(*x, *y)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            Some(f.len().cmp(&g.len()))
        };
        match (self.a.get(a), self.a.get(b)) {
            (Val::Lit(x), Val::Lit(y)) => match (self.a.int(a), self.a.int(b)) {
                (Some(i), Some(j)) => Some(i.cmp(&j)),
                _ if x.starts_with('"') && y.starts_with('"') => Some(x.cmp(y)),
                _ => None,
            },
            (Val::Cast(x, t), _) if self.same_int(*x, t) => self.lit_cmp(*x, b),
            (_, Val::Cast(y, t)) if self.same_int(*y, t) => self.lit_cmp(a, *y),
            (Val::List { must: f, may: y }, Val::List { must: g, may: z }) if y.is_empty() && z.is_empty() => seq(f.clone(), g.clone()),
            (Val::Tuple(f), Val::Tuple(g)) => seq(f.clone(), g.clone()),
            (Val::Ctor { p, f }, Val::Ctor { p: q, f: g }) => {
                if Self::same_variant(p, q) {
                    return seq(f.iter().map(|x| x.1).collect(), g.iter().map(|x| x.1).collect());
                }
                match (last_seg(p), last_seg(q)) {
                    ("None", "Some") => Some(Less),
                    ("Some", "None") => Some(Greater),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn concrete_op(&mut self, mc: &syn::ExprMethodCall, name: &str, o: &Out, rt: &Ty, et: &Ty, vs: &[Vid], ts: &[Ty], s: &State) -> Option<Vec<Out>> {
        let must = match self.a.get(o.v) {
            Val::List { must, may } if may.is_empty() => must.clone(),
            _ => return None,
        };
        let bt = Ty::Path("bool".into(), vec![]);
        let map = matches!(rt.name(), "HashMap" | "BTreeMap");
        let set = matches!(rt.name(), "HashSet" | "BTreeSet");
        let int = |me: &Self, v: Vid| match me.a.get(v) {
            Val::Lit(l) => l.trim_end_matches(|c: char| c.is_alphabetic()).trim_end_matches("usize").parse::<usize>().ok(),
            _ => None,
        };
        let find = |me: &Self, k: Vid| -> Option<Option<usize>> {
            for (i, x) in must.iter().enumerate() {
                let key = match me.a.get(*x) {
                    Val::Tuple(t) if map && t.len() == 2 => t[0],
                    _ if map => return None,
                    _ => *x,
                };
                match me.lit_eq(key, k) {
                    Some(true) => return Some(Some(i)),
                    Some(false) => {}
                    None => return None,
                }
            }
            Some(None)
        };
        let write = |me: &mut Self, l: Vec<Vid>, s: &State| -> Option<State> {
            let (k, mut steps) = me.place(&mc.receiver)?;
            me.at_pos(&mut steps, s);
            let base = s.env.get(&k).copied().unwrap_or(TOP);
            let nv = me.a.mk(Val::List { must: l, may: vec![] });
            let x = me.upd_steps(base, &steps, nv);
            let mut s = s.clone();
            s.set(k, x);
            me.follow(k, &mut s);
            Some(s)
        };
        let some = |me: &mut Self, v: Vid| me.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), v)] });
        match (name, vs.len()) {
            ("contains", 1) | ("contains_key", 1) => {
                let r = find(self, vs[0])?.is_some();
                let v = self.a.lit(if r { "true" } else { "false" });
                Some(Self::one(v, bt, s.clone()))
            }
            ("get", 1) if map => {
                let r = find(self, vs[0])?;
                let v = match r {
                    Some(i) => {
                        let x = self.a.field(must[i], "1");
                        some(self, x)
                    }
                    None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                };
                Some(Self::one(v, Ty::Path("Option".into(), vec![rt.arg(1)]), s.clone()))
            }
            ("min" | "max", 0) if !map => {
                let mut best: Option<Vid> = None;
                for x in &must {
                    best = match best {
                        None => Some(*x),
                        Some(b) => {
                            let o = self.lit_cmp(*x, b)?;
                            Some(if name == "min" && o.is_lt() || name == "max" && o.is_ge() { *x } else { b })
                        }
                    };
                }
                let v = match best {
                    Some(x) => some(self, x),
                    None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                };
                Some(Self::one(v, Ty::Path("Option".into(), vec![et.clone()]), s.clone()))
            }
            ("sort" | "sort_unstable" | "dedup" | "reverse", 0) if !map && !set => {
                let mut l = must.clone();
                if name == "reverse" {
                    l.reverse();
                } else if name == "dedup" {
                    let mut i = 1;
                    while i < l.len() {
                        if self.lit_eq(l[i - 1], l[i])? {
                            l.remove(i);
                        } else {
                            i += 1;
                        }
                    }
                } else {
                    for x in &l {
                        for y in &l {
                            self.lit_cmp(*x, *y)?;
                        }
                    }
                    l.sort_by(|x, y| self.lit_cmp(*x, *y).unwrap());
                }
                let s = write(self, l, s)?;
                Some(Self::one(UNIT, Ty::Tuple(vec![]), s))
            }
            ("drain", 1) if !map && !set => {
                let Expr::Range(r) = strip_group(&mc.args[0]) else { return None };
                let mut at = |e: &Option<Box<Expr>>| -> Option<Option<usize>> {
                    match e {
                        None => Some(None),
                        Some(e) => {
                            let os = self.ev(e, s.clone(), &Ty::Path("usize".into(), vec![]));
                            let n = self.a.int(os.first()?.v).and_then(|n| usize::try_from(n).ok())?;
                            Some(Some(n))
                        }
                    }
                };
                let (a, b) = (at(&r.start)?.unwrap_or(0), at(&r.end)?.unwrap_or(must.len()));
                let b = if matches!(r.limits, syn::RangeLimits::Closed(_)) { b + 1 } else { b };
                if a > b || b > must.len() {
                    return None;
                }
                let mut rest = must.clone();
                let out: Vec<Vid> = rest.drain(a..b).collect();
                let s = write(self, rest, s)?;
                let v = self.a.mk(Val::List { must: out, may: vec![] });
                Some(Self::one(v, Ty::Path("Vec".into(), vec![et.clone()]), s))
            }
            ("get", 1) | ("nth", 1) if !set => {
                let v = match must.get(int(self, vs[0])?).copied() {
                    Some(x) => some(self, x),
                    None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                };
                Some(Self::one(v, Ty::Path("Option".into(), vec![et.clone()]), s.clone()))
            }
            ("first", 0) | ("last", 0) => {
                let v = match if name == "first" { must.first() } else { must.last() }.copied() {
                    Some(x) => some(self, x),
                    None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                };
                Some(Self::one(v, Ty::Path("Option".into(), vec![et.clone()]), s.clone()))
            }
            ("insert", 2) if map => {
                let r = find(self, vs[0])?;
                let t = self.a.mk(Val::Tuple(vec![vs[0], vs[1]]));
                let mut l = must.clone();
                let old = match r {
                    Some(i) => {
                        let x = self.a.field(must[i], "1");
                        l[i] = t;
                        some(self, x)
                    }
                    None => {
                        l.push(t);
                        self.a.mk(Val::Ctor { p: "None".into(), f: vec![] })
                    }
                };
                let s = write(self, l, s)?;
                Some(Self::one(old, Ty::Path("Option".into(), vec![rt.arg(1)]), s))
            }
            ("insert", 1) if set => {
                let r = find(self, vs[0])?;
                let v = self.a.lit(if r.is_none() { "true" } else { "false" });
                let mut l = must.clone();
                if r.is_none() {
                    l.push(vs[0]);
                }
                let s = write(self, l, s)?;
                Some(Self::one(v, bt, s))
            }
            ("skip", 1) | ("take", 1) => {
                let n = int(self, vs[0])?;
                let l = if name == "skip" { must.into_iter().skip(n).collect() } else { must.into_iter().take(n).collect() };
                let v = self.a.mk(Val::List { must: l, may: vec![] });
                Some(Self::one(v, o.t.clone(), s.clone()))
            }
            ("rev", 0) => {
                let v = self.a.mk(Val::List { must: must.into_iter().rev().collect(), may: vec![] });
                Some(Self::one(v, o.t.clone(), s.clone()))
            }
            ("dedup", 0) => {
                let mut l: Vec<Vid> = vec![];
                for x in must {
                    if let Some(p) = l.last() {
                        match self.lit_eq(*p, x) {
                            Some(true) => continue,
                            Some(false) => {}
                            None => return None,
                        }
                    }
                    l.push(x);
                }
                let s = write(self, l, s)?;
                Some(Self::one(UNIT, Ty::Tuple(vec![]), s))
            }
            ("try_fold", 2) => {
                if must.len() > 40 || !matches!(self.a.get(vs[1]), Val::Closure(_) | Val::Const(_)) {
                    return None;
                }
                let mut done: Vec<Out> = vec![];
                let mut cur = vec![Out { v: vs[0], t: ts[0].clone(), s: s.clone() }];
                let mut wrap = "Ok".to_string();
                for x in &must {
                    let mut nx = vec![];
                    for c in cur {
                        for b in self.call_closure(vs[1], &[(c.v, c.t.clone()), (*x, et.clone())], c.s.clone(), &Ty::Unknown) {
                            for v in self.a.alts(b.v) {
                                match self.a.get(v).clone() {
                                    Val::Ctor { p, f } if (p == "Ok" || p == "Some") && f.len() == 1 => {
                                        wrap = p;
                                        nx.push(Out { v: f[0].1, t: ts[0].clone(), s: b.s.clone() });
                                    }
                                    Val::Ctor { p, .. } if p == "Err" || p == "None" => done.push(Out { v, t: b.t.clone(), s: b.s.clone() }),
                                    _ => return None,
                                }
                            }
                        }
                    }
                    nx.truncate(self.max_states);
                    cur = nx;
                }
                for c in cur {
                    let v = self.a.mk(Val::Ctor { p: wrap.clone(), f: vec![("0".into(), c.v)] });
                    let t = if wrap == "Ok" { "Result" } else { "Option" };
                    done.push(Out { v, t: Ty::Path(t.into(), vec![c.t]), s: c.s });
                }
                Some(done)
            }
            ("fold", 2) | ("reduce", 1) => {
                let (init, it0, rest, clo) = if name == "fold" { (vs[0], ts[0].clone(), &must[..], vs[1]) } else { (*must.first()?, et.clone(), must.get(1..)?, vs[0]) };
                if must.len() > 40 || !matches!(self.a.get(clo), Val::Closure(_) | Val::Const(_)) {
                    return None;
                }
                let mut cur = vec![Out { v: init, t: it0.clone(), s: s.clone() }];
                for x in rest {
                    let mut nx = vec![];
                    for c in cur {
                        nx.extend(self.call_closure(clo, &[(c.v, c.t.clone()), (*x, et.clone())], c.s.clone(), &it0));
                    }
                    nx.truncate(self.max_states);
                    cur = nx;
                }
                if name == "reduce" {
                    for c in cur.iter_mut() {
                        c.v = some(self, c.v);
                        c.t = Ty::Path("Option".into(), vec![c.t.clone()]);
                    }
                }
                Some(cur)
            }
            ("retain", 1) if must.len() <= 40 && matches!(self.a.get(vs[0]), Val::Closure(_)) => {
                let mut cur: Vec<(Vec<Vid>, State)> = vec![(vec![], s.clone())];
                for x in must {
                    let mut nx = vec![];
                    for (acc, st) in cur {
                        for b in self.call_closure(vs[0], &[(x, et.clone())], st, &bt) {
                            let (y, n) = self.split_cond(b.v, b.s);
                            if let Some(y) = y {
                                let mut a2 = acc.clone();
                                a2.push(x);
                                nx.push((a2, y));
                            }
                            if let Some(n) = n {
                                nx.push((acc.clone(), n));
                            }
                        }
                    }
                    nx.truncate(self.max_states);
                    cur = nx;
                }
                let mut out = vec![];
                for (acc, st) in cur {
                    let s = write(self, acc, &st)?;
                    out.push(Out { v: UNIT, t: Ty::Tuple(vec![]), s });
                }
                Some(out)
            }
            _ => None,
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn method_builtin(&mut self, mc: &syn::ExprMethodCall, name: &str, o: &Out, rt: &Ty, opt: bool, vs: Vec<Vid>, ts: Vec<Ty>, s: State, exp: &Ty, line: usize) -> Vec<Out> {
        let is_clo = |me: &Self, v: Vid| matches!(me.a.get(v), Val::Closure(_)) || matches!(me.a.get(v), Val::Const(_));
        let et = iter_elem_ty(&o.t);
        if self.concrete && !opt {
            if let Some(r) = self.concrete_op(mc, name, o, rt, &et, &vs, &ts, &s) {
                return r;
            }
        }
        // known text
        if self.locks && self.concrete {
            let lit = |it: &Self, v: Vid| known_text(&it.a, v);
            let st = || Ty::Path("String".into(), vec![]);
            let own = lit(self, o.v);
            let arg = vs.first().and_then(|v| lit(self, *v));
            let yes = match (name, &own, &arg) {
                ("is_suffix_of", Some(a), Some(b)) => Some(b.ends_with(a.as_str())),
                ("ends_with", Some(a), Some(b)) => Some(a.ends_with(b.as_str())),
                ("is_prefix_of", Some(a), Some(b)) => Some(b.starts_with(a.as_str())),
                ("starts_with", Some(a), Some(b)) => Some(a.starts_with(b.as_str())),
                ("contains", Some(a), Some(b)) => Some(a.contains(b.as_str())),
                _ => None,
            };
            if let Some(b) = yes {
                let v = self.a.lit(if b { "true" } else { "false" });
                return Self::one(v, Ty::Path("bool".into(), vec![]), s);
            }
            if let ("len", Some(a), 0) = (name, &own, vs.len()) {
                let v = self.a.lit(&a.len().to_string());
                return Self::one(v, Ty::Path("usize".into(), vec![]), s);
            }
            if let ("cmp", Some(a), Some(b)) = (name, &own, &arg) {
                let v = self.a.mk(Val::Ctor { p: format!("Ordering::{:?}", a.cmp(b)), f: vec![] });
                return Self::one(v, Ty::Path("std::cmp::Ordering".into(), vec![]), s);
            }
            if let ("is_eq" | "is_ne" | "is_lt" | "is_gt" | "is_le" | "is_ge", Val::Ctor { p, .. }, 0) = (name, self.a.get(o.v), vs.len()) {
                let o = match p.as_str() {
                    "Ordering::Equal" => Some(0),
                    "Ordering::Less" => Some(-1),
                    "Ordering::Greater" => Some(1),
                    _ => None,
                };
                if let Some(o) = o {
                    let b = match name {
                        "is_eq" => o == 0,
                        "is_ne" => o != 0,
                        "is_lt" => o < 0,
                        "is_gt" => o > 0,
                        "is_le" => o <= 0,
                        _ => o >= 0,
                    };
                    let v = self.a.lit(if b { "true" } else { "false" });
                    return Self::one(v, Ty::Path("bool".into(), vec![]), s);
                }
            }
            let part = match (name, &own, &arg) {
                ("strip_suffix", Some(a), Some(b)) => Some(a.strip_suffix(b.as_str()).map(|x| x.to_string())),
                ("strip_prefix", Some(a), Some(b)) => Some(a.strip_prefix(b.as_str()).map(|x| x.to_string())),
                _ => None,
            };
            if let Some(p) = part {
                let v = match p {
                    Some(p) => {
                        let x = self.a.lit(&format!("{p:?}"));
                        self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] })
                    }
                    None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                };
                return Self::one(v, Ty::Path("Option".into(), vec![st()]), s);
            }
            if let ("split", Some(a), Some(b)) = (name, &own, &arg) {
                let must = a.split(b.as_str()).map(|x| self.a.lit(&format!("{x:?}"))).collect();
                let v = self.a.mk(Val::List { must, may: vec![] });
                return Self::one(v, Ty::Path("Vec".into(), vec![st()]), s);
            }
            if let ("parse", Some(a), 0) = (name, &own, vs.len()) {
                let v = match a.parse::<u64>() {
                    Ok(n) => {
                        let x = self.a.lit(&n.to_string());
                        self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), x)] })
                    }
                    Err(_) => {
                        let x = self.a.mk(Val::Param(format!("unparsable({a:?})")));
                        self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), x)] })
                    }
                };
                return Self::one(v, Ty::Path("Result".into(), vec![Ty::Path("u64".into(), vec![]), Ty::Unknown]), s);
            }
        }
        if self.concrete {
            // the kind of a known column type
            if let (Val::Ctor { p, .. }, true) = (self.a.get(o.v), vs.is_empty()) {
                if let (Some(k), true) = (p.rsplit_once("DataType::").map(|x| x.1), p.contains("DataType::")) {
                    let (int, uint, float) = (matches!(k, "Int8" | "Int16" | "Int32" | "Int64"), matches!(k, "UInt8" | "UInt16" | "UInt32" | "UInt64"), matches!(k, "Float16" | "Float32" | "Float64"));
                    let b = match name {
                        "is_floating" => Some(float),
                        "is_integer" => Some(int || uint),
                        "is_signed_integer" => Some(int),
                        "is_unsigned_integer" => Some(uint),
                        "is_numeric" => Some(int || uint || float || k.starts_with("Decimal")),
                        _ => None,
                    };
                    if let Some(b) = b {
                        let v = self.a.lit(if b { "true" } else { "false" });
                        return Self::one(v, Ty::Path("bool".into(), vec![]), s);
                    }
                }
            }
            // an option of a result as a result of an option
            if name == "transpose" && vs.is_empty() {
                let inner = |a: &Arena, v: Vid| match a.get(v) {
                    Val::Ctor { p, f } => Some((p.clone(), f.first().map(|x| x.1))),
                    _ => None,
                };
                let flip = match inner(&self.a, o.v) {
                    Some((p, None)) if p == "None" => Some(("Ok", vec!["None"], None)),
                    Some((p, Some(x))) if p == "Some" => match inner(&self.a, x) {
                        Some((q, Some(y))) if q == "Ok" => Some(("Ok", vec!["Some"], Some(y))),
                        Some((q, Some(y))) if q == "Err" => Some(("Err", vec![], Some(y))),
                        _ => None,
                    },
                    Some((p, Some(x))) if p == "Ok" => match inner(&self.a, x) {
                        Some((q, Some(y))) if q == "Some" => Some(("Some", vec!["Ok"], Some(y))),
                        Some((q, None)) if q == "None" => Some(("None", vec![], None)),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((out, mid, y)) = flip {
                    let mut v = y;
                    for p in mid.into_iter().chain([out]) {
                        let f = v.map(|x| vec![("0".to_string(), x)]).unwrap_or_default();
                        v = Some(self.a.mk(Val::Ctor { p: p.into(), f }));
                    }
                    let (a, b) = (o.t.arg(0), o.t.arg(0).arg(0));
                    let e = a.arg(1);
                    let t = if matches!(out, "Ok" | "Err") && last_seg(o.t.name()) == "Option" {
                        Ty::Path("Result".into(), vec![Ty::Path("Option".into(), vec![b]), e])
                    } else {
                        Ty::Unknown
                    };
                    return Self::one(v.unwrap(), t, s);
                }
            }
            // an end of a known list
            let made = matches!(strip_group(&mc.receiver), Expr::MethodCall(r) if matches!(r.method.to_string().as_str(), "iter" | "into_iter" | "iter_mut" | "into_keys" | "into_values"));
            if vs.is_empty() && matches!(name, "next" | "first" | "last" | "next_back") && (made || self.place(&mc.receiver).is_none()) {
                if let Val::List { must, may } = self.a.get(o.v).clone() {
                    if may.is_empty() {
                        let x = if matches!(name, "next" | "first") { must.first() } else { must.last() };
                        let v = match x {
                            Some(x) => self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), *x)] }),
                            None => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                        };
                        return Self::one(v, Ty::Path("Option".into(), vec![rt.arg(0)]), s);
                    }
                }
            }
        }
        if self.concrete && vs.len() == 1 && matches!(name, "pow" | "min" | "max" | "saturating_sub") {
            if let (Some(x), Some(y)) = (self.a.int(o.v), self.a.int(vs[0])) {
                let r = match name {
                    "pow" => u32::try_from(y).ok().and_then(|y| x.checked_pow(y)),
                    "min" => Some(x.min(y)),
                    "max" => Some(x.max(y)),
                    _ if y >= 0 && x >= 0 => Some((x - y).max(0)),
                    _ => None,
                };
                if let Some(r) = r {
                    let v = self.a.lit(&r.to_string());
                    return Self::one(v, rt.clone(), s);
                }
            }
        }
        match name {
            "map_err" | "with_context" | "or_else_never" => {
                let er = self.a.fact(Fact::Err(o.v));
                let _ = er;
                let mut s = s;
                let mut v = o.v;
                if vs.len() == 1 && is_clo(self, vs[0]) {
                    let tag = self.tag(o.v);
                    if tag != "Ok" {
                        let pe = if tag == "Err" { self.a.field(o.v, "0") } else { self.a.mk(Val::Payload(o.v, "Err".into(), "0".into())) };
                        let r = self.call_closure(vs[0], &[(pe, rt.arg(1))], s.clone(), &Ty::Unknown);
                        if tag == "Err" {
                            let mut out = vec![];
                            for x in r {
                                let v = self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), x.v)] });
                                out.push(Out { v, t: o.t.clone(), s: x.s });
                            }
                            return out;
                        }
                        for x in r {
                            s = State { may: Rc::new(s.may.union(&x.s.may).copied().collect()), ..s };
                        }
                    }
                }
                if name == "map_err" && self.tag(o.v).is_empty() {
                    v = o.v;
                }
                return Self::one(v, o.t.clone(), s);
            }
            "ok_or" | "ok_or_else" => {
                let tag = self.tag(o.v);
                let t = Ty::Path("Result".into(), vec![rt.arg(0)]);
                match tag.as_str() {
                    "Some" => {
                        let x = self.a.field(o.v, "0");
                        let v = self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), x)] });
                        return Self::one(v, t, s);
                    }
                    "None" => {
                        let e = if is_clo(self, vs[0]) && name == "ok_or_else" { self.call_closure(vs[0], &[], s.clone(), &Ty::Unknown).first().map(|x| x.v).unwrap_or(TOP) } else { vs[0] };
                        let v = self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), e)] });
                        return Self::one(v, t, s);
                    }
                    _ => {}
                }
                // split: Some -> Ok(v), None -> Err(e)
                let mut out = vec![];
                let (ok, er) = self.okerr(o.v, "Option", &s);
                if !s.must.contains(&er) {
                    let mut y = s.clone();
                    y.add(ok);
                    let v = self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), o.v)] });
                    out.push(Out { v, t: t.clone(), s: y });
                }
                if !s.must.contains(&ok) {
                    let mut n = s;
                    n.add(er);
                    let e = if is_clo(self, vs[0]) && name == "ok_or_else" { self.call_closure(vs[0], &[], n.clone(), &Ty::Unknown).first().map(|x| x.v).unwrap_or(TOP) } else { vs[0] };
                    let v = self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), e)] });
                    out.push(Out { v, t, s: n });
                }
                return out;
            }
            "then" | "then_some" if vs.len() == 1 && !opt && (name == "then_some" || is_clo(self, vs[0])) => {
                let (y, n) = self.split_cond(o.v, s);
                let mut outs = vec![];
                if let Some(y) = y {
                    let body = if name == "then" { self.call_closure(vs[0], &[], y, &exp.peel().arg(0)) } else { Self::one(vs[0], ts[0].clone(), y) };
                    for b in body {
                        let v = self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), b.v)] });
                        outs.push(Out { v, t: Ty::Path("Option".into(), vec![b.t]), s: b.s });
                    }
                }
                if let Some(n) = n {
                    let v = self.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
                    outs.push(Out { v, t: Ty::Path("Option".into(), vec![Ty::Unknown]), s: n });
                }
                return self.merge(outs);
            }
            "is_some_and" | "is_ok_and" | "is_none_or" if vs.len() == 1 => {
                let tag = self.tag(o.v);
                let some_v = if matches!(tag.as_str(), "Some" | "Ok") { self.a.field(o.v, "0") } else { o.v };
                let mut outs = vec![];
                let (k, e) = self.okerr(o.v, if name == "is_ok_and" { "Result" } else { "Option" }, &s);
                if !matches!(tag.as_str(), "None" | "Err") && !s.must.contains(&e) {
                    let mut y = s.clone();
                    y.add(k);
                    outs.extend(self.call_closure(vs[0], &[(some_v, rt.arg(0))], y, &Ty::Unknown));
                }
                if !matches!(tag.as_str(), "Some" | "Ok") && !s.must.contains(&k) {
                    let mut n = s;
                    n.add(e);
                    let v = self.a.lit(if name == "is_none_or" { "true" } else { "false" });
                    outs.push(Out { v, t: Ty::Path("bool".into(), vec![]), s: n });
                }
                return self.merge(outs);
            }
            "unwrap_or" | "unwrap_or_else" | "or" | "or_else" | "get_or_insert_with" | "map_or" | "map_or_else" | "is_some_and" | "then_some" | "unwrap_or_default" if opt || matches!(name, "unwrap_or" | "unwrap_or_else" | "or_else" | "map_or" | "map_or_else") => {
                let tag = self.tag(o.v);
                let inner_t = if matches!(rt.name(), "Option" | "Result") { rt.arg(0) } else { Ty::Unknown };
                if name == "map_or" || name == "map_or_else" {
                    let some_v = if matches!(tag.as_str(), "Some" | "Ok") { self.a.field(o.v, "0") } else { o.v };
                    let mut outs = vec![];
                    if !matches!(tag.as_str(), "None" | "Err") {
                        let mut y = s.clone();
                        let (k, _) = self.okerr(o.v, rt.name(), &y);
                        y.add(k);
                        outs.extend(self.call_closure(vs[1], &[(some_v, inner_t.clone())], y, &Ty::Unknown));
                    }
                    if !matches!(tag.as_str(), "Some" | "Ok") {
                        let mut y = s.clone();
                        let (_, k) = self.okerr(o.v, rt.name(), &y);
                        y.add(k);
                        if name == "map_or" {
                            outs.push(Out { v: vs[0], t: ts[0].clone(), s: y });
                        } else {
                            outs.extend(self.call_closure(vs[0], &[], y, &Ty::Unknown));
                        }
                    }
                    return self.merge(outs);
                }
                let keep_wrap = matches!(name, "or" | "or_else");
                let mut outs = vec![];
                if !matches!(tag.as_str(), "None" | "Err") {
                    let mut y = s.clone();
                    let (k, _) = self.okerr(o.v, rt.name(), &y);
                    y.add(k);
                    let v = if keep_wrap { o.v } else if matches!(tag.as_str(), "Some" | "Ok") { self.a.field(o.v, "0") } else { o.v };
                    outs.push(Out { v, t: if keep_wrap { o.t.clone() } else { inner_t.clone() }, s: y });
                }
                if !matches!(tag.as_str(), "Some" | "Ok") && !vs.is_empty() {
                    let mut y = s;
                    let (_, k) = self.okerr(o.v, rt.name(), &y);
                    y.add(k);
                    let empty = self.concrete && matches!(self.a.get(vs[0]), Val::Const(c) if matches!(c.as_str(), "Vec::new" | "Vec::default" | "HashMap::new" | "HashSet::new"));
                    if name == "unwrap_or_else" && empty {
                        let v = self.a.mk(Val::List { must: vec![], may: vec![] });
                        outs.push(Out { v, t: inner_t.clone(), s: y });
                    } else if matches!(name, "unwrap_or_else" | "or_else") {
                        let pe = self.a.mk(Val::Payload(o.v, "Err".into(), "0".into()));
                        outs.extend(self.call_closure(vs[0], &[(pe, rt.arg(1))], y, &Ty::Unknown));
                    } else {
                        outs.push(Out { v: vs[0], t: ts[0].clone(), s: y });
                    }
                }
                return self.merge(outs);
            }
            "map" | "and_then" | "then" | "inspect" | "map_ok" | "filter_map" | "flat_map" | "for_each" | "try_for_each" | "filter" | "find" | "find_map" | "any" | "all" | "position" | "take_while" | "skip_while" | "retain" | "sort_by" | "sort_by_key" | "max_by_key" | "min_by_key" | "min_by" | "max_by" | "group_by" | "partition"
                if vs.len() == 1 =>
            {
                if matches!(name, "map" | "and_then" | "inspect" | "filter") && opt {
                    let tag = self.tag(o.v);
                    if matches!(tag.as_str(), "None" | "Err") {
                        return Self::one(o.v, o.t.clone(), s);
                    }
                    let inner = if matches!(tag.as_str(), "Some" | "Ok") { self.a.field(o.v, "0") } else { o.v };
                    let mut outs = vec![];
                    let (ok, er) = self.okerr(o.v, rt.name(), &s);
                    let some = if rt.name() == "Result" || tag == "Ok" { "Ok" } else { "Some" };
                    if !s.must.contains(&er) {
                        let mut y = s.clone();
                        y.add(ok);
                        let iexp = if name == "map" { exp.peel().arg(0) } else { exp.clone() };
                        let body = self.call_closure(vs[0], &[(inner, rt.arg(0))], y, &iexp);
                        for b in body {
                            match name {
                                "map" => {
                                    let v = self.a.mk(Val::Ctor { p: some.into(), f: vec![("0".into(), b.v)] });
                                    outs.push(Out { v, t: Ty::Path(rt.name().to_string(), vec![b.t, rt.arg(1)]), s: b.s });
                                }
                                "and_then" => {
                                    let t = if b.t.known() { b.t } else { Ty::Path(rt.name().to_string(), vec![Ty::Unknown]) };
                                    outs.push(Out { v: b.v, t, s: b.s })
                                }
                                "filter" => {
                                    let (y, n) = self.split_cond(b.v, b.s);
                                    if let Some(y) = y {
                                        outs.push(Out { v: o.v, t: o.t.clone(), s: y });
                                    }
                                    if let Some(n) = n {
                                        let v = self.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
                                        outs.push(Out { v, t: o.t.clone(), s: n });
                                    }
                                }
                                _ => outs.push(Out { v: o.v, t: o.t.clone(), s: b.s }),
                            }
                        }
                    }
                    if tag.is_empty() && !s.must.contains(&ok) {
                        let mut n = s;
                        n.add(er);
                        let v = if some == "Ok" {
                            let pe = self.a.mk(Val::Payload(o.v, "Err".into(), "0".into()));
                            self.a.mk(Val::Ctor { p: "Err".into(), f: vec![("0".into(), pe)] })
                        } else {
                            self.a.mk(Val::Ctor { p: "None".into(), f: vec![] })
                        };
                        outs.push(Out { v, t: o.t.clone(), s: n });
                    }
                    return self.merge(outs);
                }
                if !is_clo(self, vs[0]) {
                    let val = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v, vs[0]] });
                    return Self::one(val, Ty::Unknown, s);
                }
                if matches!(name, "any" | "all" | "find") && opt == false {
                    let elems: Option<Vec<Vid>> = match self.a.get(o.v).clone() {
                        Val::List { must, may } if may.is_empty() && must.len() <= 40 && self.unroll => Some(must),
                        _ => None,
                    };
                    let lit = elems.is_some();
                    let els = elems.unwrap_or_else(|| vec![self.a.elem(o.v)]);
                    let mut cur = vec![s.clone()];
                    let mut outs = vec![];
                    let stop = name != "all";
                    let tv = self.a.lit("true");
                    let fv = self.a.lit("false");
                    let bt = Ty::Path("bool".into(), vec![]);
                    if !lit {
                        self.loop_depth += 1;
                    }
                    for (ei, el) in els.into_iter().enumerate() {
                        let mut nx = vec![];
                        for st in cur {
                            for b in self.call_closure(vs[0], &[(el, et.clone())], st, &bt) {
                                let (y, n) = self.split_cond(b.v, b.s);
                                let (hit, go) = if stop { (y, n) } else { (n, y) };
                                if let Some(h) = hit {
                                    if name == "find" {
                                        if let (true, true, Expr::MethodCall(r), Some((root, mut st))) = (self.locks, lit && go.is_none(), strip_group(&mc.receiver), self.place(&mc.receiver)) {
                                            if r.method == "iter_mut" {
                                                // the first so many items keep their positions
                                                if let Expr::Index(i) = strip_group(&r.receiver) {
                                                    if matches!(strip_group(&i.index), Expr::Range(g) if g.start.is_none()) {
                                                        st.pop();
                                                    }
                                                }
                                                st.push(Step::Pos(ei));
                                                self.entry_ref = Some((el, root, st));
                                            }
                                        }
                                        let v = self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), el)] });
                                        outs.push(Out { v, t: Ty::Path("Option".into(), vec![et.clone()]), s: h });
                                    } else {
                                        outs.push(Out { v: if stop { tv } else { fv }, t: bt.clone(), s: h });
                                    }
                                }
                                nx.extend(go);
                            }
                        }
                        cur = self.merge_states(nx);
                    }
                    if !lit {
                        self.loop_depth -= 1;
                        if stop {
                            cur.push(s.clone());
                        }
                    }
                    for st in cur {
                        if name == "find" {
                            let v = self.a.mk(Val::Ctor { p: "None".into(), f: vec![] });
                            outs.push(Out { v, t: Ty::Path("Option".into(), vec![et.clone()]), s: st });
                        } else {
                            outs.push(Out { v: if stop { fv } else { tv }, t: bt.clone(), s: st });
                        }
                    }
                    return self.merge(outs);
                }
                // literal lists: map element-wise
                if name == "map" {
                    let until_err = self.until_err.take() == Some(mc.method.span().start());
                    if let Val::List { must, may } = self.a.get(o.v).clone() {
                        if may.is_empty() && must.len() <= 40 && self.unroll {
                            let mut cur: Vec<(Vec<Vid>, Ty, State)> = vec![(vec![], Ty::Unknown, s)];
                            for el in must {
                                let mut nx = vec![];
                                for (acc, t, st) in cur {
                                    // nothing is done after the first failure
                                    if until_err && acc.last().map_or(false, |x| matches!(self.a.get(*x), Val::Ctor { p, .. } if p == "Err")) {
                                        nx.push((acc, t, st));
                                        continue;
                                    }
                                    for b in self.call_closure(vs[0], &[(el, et.clone())], st, &Ty::Unknown) {
                                        let mut a2 = acc.clone();
                                        a2.push(b.v);
                                        nx.push((a2, b.t, b.s));
                                    }
                                }
                                nx.truncate(self.max_states);
                                cur = nx;
                            }
                            let mut out = vec![];
                            for (acc, t, st) in cur {
                                let v = self.a.mk(Val::List { must: acc, may: vec![] });
                                out.push(Out { v, t: Ty::Path("Vec".into(), vec![t]), s: st });
                            }
                            return out;
                        }
                    }
                }
                if name == "flat_map" && self.concrete && !opt {
                    if let Val::List { must, may } = self.a.get(o.v).clone() {
                        if may.is_empty() && must.len() <= 40 && self.unroll {
                            let mut cur: Vec<(Vec<Vid>, Ty, State)> = vec![(vec![], Ty::Unknown, s.clone())];
                            let mut known = true;
                            for el in must {
                                let mut nx = vec![];
                                for (acc, _, st) in cur {
                                    for b in self.call_closure(vs[0], &[(el, et.clone())], st, &Ty::Unknown) {
                                        let mut a2 = acc.clone();
                                        match self.a.get(b.v).clone() {
                                            Val::List { must, may } if may.is_empty() => a2.extend(must),
                                            Val::Ctor { p, .. } if p == "None" || p == "Err" => {}
                                            Val::Ctor { p, f } if p == "Some" || p == "Ok" => a2.push(f[0].1),
                                            _ => known = false,
                                        }
                                        nx.push((a2, b.t, b.s));
                                    }
                                }
                                nx.truncate(self.max_states);
                                cur = nx;
                            }
                            if known {
                                let mut out = vec![];
                                for (acc, t, st) in cur {
                                    let v = self.a.mk(Val::List { must: acc, may: vec![] });
                                    out.push(Out { v, t: Ty::Path("Vec".into(), vec![t.peel().arg(0)]), s: st });
                                }
                                return out;
                            }
                        }
                    }
                }
                if matches!(name, "filter" | "filter_map") && self.eval_consts && (self.precise || self.locks) && !opt {
                    if let Val::List { must, may } = self.a.get(o.v).clone() {
                        if may.is_empty() && must.len() <= 40 && self.unroll {
                            let mut cur: Vec<(Vec<Vid>, Ty, State)> = vec![(vec![], Ty::Unknown, s)];
                            let bt = if name == "filter" { Ty::Path("bool".into(), vec![]) } else { Ty::Unknown };
                            for el in must {
                                let mut nx = vec![];
                                for (acc, at, st) in cur {
                                    for b in self.call_closure(vs[0], &[(el, et.clone())], st, &bt) {
                                        if name == "filter" {
                                            let (y, n) = self.split_cond(b.v, b.s);
                                            if let Some(y) = y {
                                                let mut a2 = acc.clone();
                                                a2.push(el);
                                                nx.push((a2, et.clone(), y));
                                            }
                                            if let Some(n) = n {
                                                nx.push((acc.clone(), at.clone(), n));
                                            }
                                            continue;
                                        }
                                        for x in self.a.alts(b.v) {
                                            match self.a.get(x).clone() {
                                                Val::Ctor { p, .. } if p == "None" || p == "Err" => nx.push((acc.clone(), at.clone(), b.s.clone())),
                                                Val::Ctor { p, f } if p == "Some" || p == "Ok" => {
                                                    let mut a2 = acc.clone();
                                                    a2.push(f[0].1);
                                                    nx.push((a2, b.t.peel().arg(0), b.s.clone()));
                                                }
                                                _ => {
                                                    nx.push((acc.clone(), at.clone(), b.s.clone()));
                                                    let mut a2 = acc.clone();
                                                    a2.push(x);
                                                    nx.push((a2, b.t.peel().arg(0), b.s.clone()));
                                                }
                                            }
                                        }
                                    }
                                }
                                nx.truncate(self.max_states);
                                cur = nx;
                            }
                            let mut out = vec![];
                            for (acc, t, st) in cur {
                                let v = self.a.mk(Val::List { must: acc, may: vec![] });
                                out.push(Out { v, t: Ty::Path("Vec".into(), vec![t]), s: st });
                            }
                            return out;
                        }
                    }
                }
                // item by item over a known list
                if self.concrete && (matches!(name, "try_for_each" | "for_each" | "any" | "all" | "find") || name == "position" && self.locks) {
                    if let Val::List { must, may } = self.a.get(o.v).clone() {
                        if may.is_empty() && must.len() <= 20 {
                            let mut cur = vec![s.clone()];
                            let mut out: Vec<Out> = vec![];
                            for (ei, e) in must.into_iter().enumerate() {
                                let at = self.a.lit(&ei.to_string());
                                let mut nx = vec![];
                                for st in cur {
                                    for b in self.call_closure(vs[0], &[(e, et.clone())], st, &Ty::Unknown) {
                                        for x in self.a.alts(b.v) {
                                            let (stop, go) = match (name, self.a.get(x)) {
                                                ("position", Val::Lit(l)) if l == "false" => (None, true),
                                                ("position", v) => {
                                                    let sure = matches!(v, Val::Lit(_));
                                                    (Some(self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), at)] })), !sure)
                                                }
                                                ("for_each", _) => (None, true),
                                                ("try_for_each", Val::Ctor { p, .. }) if p == "Ok" || p == "Some" => (None, true),
                                                ("try_for_each", Val::Ctor { p, .. }) if p == "Err" || p == "None" => (Some(x), false),
                                                ("try_for_each", _) => (Some(x), true),
                                                ("any", Val::Lit(l)) if l == "false" => (None, true),
                                                ("any", Val::Lit(l)) if l == "true" => (Some(x), false),
                                                ("all", Val::Lit(l)) if l == "true" => (None, true),
                                                ("all", Val::Lit(l)) if l == "false" => (Some(x), false),
                                                ("find", Val::Lit(l)) if l == "false" => (None, true),
                                                ("find", Val::Lit(l)) if l == "true" => (Some(self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), e)] })), false),
                                                ("find", _) => (Some(self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), e)] })), true),
                                                ("any", _) => (Some(self.a.lit("true")), true),
                                                (_, _) => (Some(self.a.lit("false")), true),
                                            };

                                            if let Some(v) = stop {
                                                let t = match name {
                                                    "any" | "all" => Ty::Path("bool".into(), vec![]),
                                                    "find" => Ty::Path("Option".into(), vec![et.clone()]),
                                                    "position" => Ty::Path("Option".into(), vec![Ty::Path("usize".into(), vec![])]),
                                                    _ => b.t.clone(),
                                                };
                                                out.push(Out { v, t, s: b.s.clone() });
                                            }
                                            if go {
                                                nx.push(b.s.clone());
                                            }
                                        }
                                    }
                                }
                                nx.truncate(self.max_states);
                                cur = nx;
                            }
                            let (v, t) = match name {
                                "for_each" => (UNIT, Ty::Tuple(vec![])),
                                "try_for_each" => (self.a.mk(Val::Ctor { p: "Ok".into(), f: vec![("0".into(), UNIT)] }), Ty::Path("Result".into(), vec![Ty::Tuple(vec![])])),
                                "any" => (self.a.lit("false"), Ty::Path("bool".into(), vec![])),
                                "all" => (self.a.lit("true"), Ty::Path("bool".into(), vec![])),
                                _ => (self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }), Ty::Path("Option".into(), vec![et.clone()])),
                            };
                            out.extend(cur.into_iter().map(|s| Out { v, t: t.clone(), s }));
                            return out;
                        }
                    }
                }
                let el = self.a.elem(o.v);
                self.loop_depth += 1;
                let bexp = if name == "map" { exp.peel().arg(0) } else { Ty::Unknown };
                let body = self.call_closure(vs[0], &[(el, et.clone())], s.clone(), &bexp);
                self.loop_depth -= 1;
                let mut bv = vec![];
                let mut bt = Ty::Unknown;
                let mut acc = s.clone();
                for b in body {
                    bv.push(b.v);
                    bt = Self::join_ty(bt, &b.t);
                    acc = self.join_state(&acc, &b.s);
                }
                let j = if bv.is_empty() { TOP } else { self.a.join_all(bv) };
                let (v, t) = match name {
                    "map" | "map_ok" => (self.a.mk(Val::Coll { src: o.v, body: j }), Ty::Path("Vec".into(), vec![bt])),
                    "flat_map" | "filter_map" | "find_map" => {
                        let mut inner = vec![];
                        for x in self.a.alts(j) {
                            match self.a.get(x).clone() {
                                Val::Ctor { p, f } if p == "Some" || p == "Ok" => inner.push(f[0].1),
                                Val::Ctor { p, .. } if p == "None" || p == "Err" => {}
                                _ => inner.push(if name == "flat_map" { self.a.elem(x) } else { x }),
                            }
                        }
                        let b = if inner.is_empty() { TOP } else { self.a.join_all(inner) };
                        let it = bt.peel().arg(0);
                        if name == "find_map" {
                            (b, Ty::Path("Option".into(), vec![it]))
                        } else {
                            (self.a.mk(Val::Coll { src: o.v, body: b }), Ty::Path("Vec".into(), vec![it]))
                        }
                    }
                    "filter" | "take_while" | "skip_while" | "retain" | "sort_by" | "sort_by_key" | "partition" => {
                        let ev = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v, j] });
                        self.event(format!(".{name}"), vec![o.v, j], ev, None, rt.clone(), &mut acc, line);
                        if name == "retain" {
                            if let Some((k, steps)) = self.place(&mc.receiver) {
                                let base = acc.env.get(&k).copied().unwrap_or(TOP);
                                let nv = self.a.mk(Val::Mut("retain".into(), o.v, vec![j]));
                                let x = self.upd_steps(base, &steps, nv);
                                acc.set(k, x);
                                self.follow(k, &mut acc);
                            }
                        }
                        (o.v, o.t.clone())
                    }
                    "find" | "max_by_key" | "min_by_key" | "min_by" | "max_by" => {
                        let ev = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v, j] });
                        self.event(format!(".{name}"), vec![o.v, j], ev, None, rt.clone(), &mut acc, line);
                        (el, Ty::Path("Option".into(), vec![et.clone()]))
                    }
                    "any" | "all" | "position" => {
                        let v = self.a.mk(Val::Call { f: format!(".{name}"), args: vec![o.v, j] });
                        (v, Ty::Unknown)
                    }
                    "then" => {
                        let v = self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), j)] });
                        (v, Ty::Path("Option".into(), vec![bt]))
                    }
                    "try_for_each" | "and_then" => (j, bt),
                    _ => (UNIT, Ty::Tuple(vec![])),
                };
                return Self::one(v, t, acc);
            }
            "fold" | "try_fold" if vs.len() == 2 => {
                let el = self.a.elem(o.v);
                self.loop_depth += 1;
                let mut acc_v = vs[0];
                let mut st = s.clone();
                for _ in 0..2 {
                    let r = self.call_closure(vs[1], &[(acc_v, ts[0].clone()), (el, et.clone())], st.clone(), &ts[0]);
                    for b in r {
                        acc_v = self.a.join(acc_v, b.v);
                        st = self.join_state(&st, &b.s);
                    }
                }
                self.loop_depth -= 1;
                return Self::one(acc_v, ts[0].clone(), st);
            }
            "enumerate" if vs.is_empty() => {
                let el = self.a.elem(o.v);
                let ix = self.a.mk(Val::Call { f: "index".into(), args: vec![o.v] });
                if let Val::List { must, may } = self.a.get(o.v).clone() {
                    if may.is_empty() && must.len() <= 40 && self.unroll {
                        let mut l = vec![];
                        for (i, x) in must.iter().enumerate() {
                            let n = self.a.lit(&i.to_string());
                            l.push(self.a.mk(Val::Tuple(vec![n, *x])));
                        }
                        let v = self.a.mk(Val::List { must: l, may: vec![] });
                        return Self::one(v, Ty::Path("Vec".into(), vec![Ty::Tuple(vec![Ty::Unknown, et])]), s);
                    }
                }
                let b = self.a.mk(Val::Tuple(vec![ix, el]));
                let v = self.a.mk(Val::Coll { src: o.v, body: b });
                return Self::one(v, Ty::Path("Vec".into(), vec![Ty::Tuple(vec![Ty::Path("usize".into(), vec![]), et])]), s);
            }
            "flatten" if vs.is_empty() && self.unroll && self.flat(o.v).is_some() => {
                let must = self.flat(o.v).unwrap();
                let v = self.a.mk(Val::List { must, may: vec![] });
                let t = Ty::Path("Vec".into(), vec![if et.known() { et.arg(0) } else { Ty::Unknown }]);
                return Self::one(v, t, s);
            }
            "flatten" if vs.is_empty() && self.concrete && matches!(self.a.get(o.v), Val::List { must, may } if may.is_empty() && must.iter().all(|x| matches!(self.a.get(*x), Val::List { may, .. } if may.is_empty()))) => {
                let Val::List { must, .. } = self.a.get(o.v).clone() else { unreachable!() };
                let mut l = vec![];
                for x in must {
                    if let Val::List { must, .. } = self.a.get(x) {
                        l.extend(must.iter().copied());
                    }
                }
                let v = self.a.mk(Val::List { must: l, may: vec![] });
                let t = Ty::Path("Vec".into(), vec![if et.known() { et.arg(0) } else { Ty::Unknown }]);
                return Self::one(v, t, s);
            }
            "zip" if vs.len() == 1 => {
                if let (Val::List { must, may }, Val::List { must: m2, may: y2 }) = (self.a.get(o.v).clone(), self.a.get(vs[0]).clone()) {
                    if may.is_empty() && y2.is_empty() && self.unroll && must.len() <= 40 {
                        let l: Vec<Vid> = must.iter().zip(&m2).map(|(x, y)| self.a.mk(Val::Tuple(vec![*x, *y]))).collect();
                        let v = self.a.mk(Val::List { must: l, may: vec![] });
                        let bt = iter_elem_ty(&ts[0]);
                        return Self::one(v, Ty::Path("Vec".into(), vec![Ty::Tuple(vec![et, bt])]), s);
                    }
                }
                let a = self.a.elem(o.v);
                let b = self.a.elem(vs[0]);
                let tp = self.a.mk(Val::Tuple(vec![a, b]));
                let bt = iter_elem_ty(&ts[0]);
                let v = self.a.mk(Val::Coll { src: o.v, body: tp });
                return Self::one(v, Ty::Path("Vec".into(), vec![Ty::Tuple(vec![et, bt])]), s);
            }
            "chain" if vs.len() == 1 => {
                let v = match (self.a.get(o.v).clone(), self.a.get(vs[0]).clone()) {
                    (Val::List { must, may }, Val::List { must: m2, may: y2 }) => {
                        let must = must.into_iter().chain(m2).collect();
                        let may = may.into_iter().chain(y2).collect();
                        self.a.mk(Val::List { must, may })
                    }
                    _ => {
                        let a = self.a.elem(o.v);
                        let b = self.a.elem(vs[0]);
                        let j = self.a.join(a, b);
                        self.a.mk(Val::List { must: vec![], may: vec![j] })
                    }
                };
                return Self::one(v, o.t.clone(), s);
            }
            "concat" if vs.is_empty() => {
                // [vec![..], xs].concat()
                if let Val::List { must, may } = self.a.get(o.v).clone() {
                    // text or bytes put together: order matters
                    if self.eval_consts && may.is_empty() && must.iter().any(|x| !matches!(self.a.get(*x), Val::List { .. } | Val::Coll { .. })) {
                        let v = self.a.mk(Val::Call { f: ".concat".into(), args: vec![o.v] });
                        return Self::one(v, rt.arg(0), s);
                    }
                    let mut m2 = vec![];
                    let mut y2 = vec![];
                    for x in must.iter().chain(may.iter()) {
                        match self.a.get(*x).clone() {
                            Val::List { must, may } => {
                                m2.extend(must);
                                y2.extend(may);
                            }
                            Val::Lit(_) => m2.push(*x),
                            _ => {
                                let e = self.a.elem(*x);
                                y2.push(e);
                            }
                        }
                    }
                    let v = self.a.mk(Val::List { must: m2, may: y2 });
                    return Self::one(v, rt.arg(0), s);
                }
                return Self::one(o.v, o.t.clone(), s);
            }
            "take" if self.locks && vs.len() == 1 && !opt && !matches!(self.a.get(o.v), Val::List { .. } | Val::Coll { .. }) => {
                let v = self.a.mk(Val::Call { f: ".take".into(), args: vec![o.v, vs[0]] });
                return Self::one(v, o.t.clone(), s);
            }
            "skip" | "take" | "step_by" | "split_at" | "trim" | "trim_end" | "trim_start" if name == "skip" || name == "take" && !vs.is_empty() => {
                return Self::one(o.v, o.t.clone(), s);
            }
            "next" | "last" | "first" | "get" | "last_mut" | "first_mut" | "get_mut" | "pop" | "peek" | "next_back" | "nth" | "remove" | "pop_front" | "min" | "max" if !opt && !rt.name().starts_with("Transaction") => {
                let known_coll = matches!(rt.name(), "Vec" | "HashMap" | "BTreeMap" | "VecDeque" | "HashSet" | "BTreeSet" | "BinaryHeap");
                if name == "get" && vs.len() == 1 {
                    if let Some(v) = self.ext_model(".get", &[o.v, vs[0]]) {
                        return Self::one(v, Ty::Path("Option".into(), vec![rt.arg(0)]), s);
                    }
                }
                if known_coll || matches!(self.a.get(o.v), Val::List { .. } | Val::Coll { .. }) {
                    let v = if vs.is_empty() || rt.name() == "Vec" && !matches!(name, "get" | "get_mut") { self.a.elem(o.v) } else { self.a.mk(Val::Index(o.v, vs[0])) };
                    let it = if matches!(rt.name(), "HashMap" | "BTreeMap") { rt.arg(1) } else { rt.arg(0) };
                    let t = if name == "remove" && rt.name() == "Vec" { it } else { Ty::Path("Option".into(), vec![it]) };
                    let mut s = s;
                    // one item of a known list taken out
                    if self.locks && rt.name() == "Vec" && matches!((name, vs.len()), ("remove", 1) | ("pop", 0)) {
                        if let (Val::List { must, may }, Some((k, mut steps))) = (self.a.get(o.v).clone(), self.place(&mc.receiver)) {
                            let at = match vs.first() {
                                Some(i) => self.a.int(*i).and_then(|i| usize::try_from(i).ok()),
                                None => Some(must.len().saturating_sub(1)),
                            };
                            if let (true, Some(i)) = (may.is_empty() && !must.is_empty(), at) {
                                if i < must.len() {
                                    let mut l = must.clone();
                                    let x = l.remove(i);
                                    self.at_pos(&mut steps, &s);
                                    let base = s.env.get(&k).copied().unwrap_or(TOP);
                                    let nv = self.a.mk(Val::List { must: l, may: vec![] });
                                    let nv = self.upd_steps(base, &steps, nv);
                                    s.set(k, nv);
                                    self.follow(k, &mut s);
                                    let v = if name == "pop" { self.a.mk(Val::Ctor { p: "Some".into(), f: vec![("0".into(), x)] }) } else { x };
                                    return Self::one(v, t, s);
                                }
                            }
                        }
                    }
                    if matches!(name, "pop" | "remove" | "pop_front" | "next") {
                        let mut av = vec![o.v];
                        av.extend(&vs);
                        let ev = self.a.mk(Val::Call { f: format!(".{name}"), args: av.clone() });
                        self.event(format!(".{name}"), av, ev, None, rt.clone(), &mut s, line);
                        if name != "next" {
                            if let Some((k, steps)) = self.place(&mc.receiver) {
                                let base = s.env.get(&k).copied().unwrap_or(TOP);
                                let nv = match self.a.get(o.v).clone() {
                                    Val::List { must, mut may } => {
                                        may.extend(must);
                                        self.a.mk(Val::List { must: vec![], may })
                                    }
                                    _ => o.v,
                                };
                                let x = self.upd_steps(base, &steps, nv);
                                s.set(k, x);
                                self.follow(k, &mut s);
                            }
                        }
                    }
                    return Self::one(v, t, s);
                }
            }
            _ => {}
        }
        // mutators on places
        let mut s = s;
        if name == "clone_into" && vs.len() == 1 {
            if let Expr::Reference(r) = strip_group(&mc.args[0]) {
                let t = o.t.clone();
                s = self.assign(&r.expr, o.v, &t, s);
            }
        }
        if MUTATORS.contains(&name) || (name == "clone_from") {
            if let Some((k, mut steps)) = self.place(&mc.receiver) {
                self.at_pos(&mut steps, &s);
                let base = s.env.get(&k).copied().unwrap_or(TOP);
                let pt = if o.t.known() { o.t.clone() } else { rt.clone() };
                let txt = if (name == "push_str" || (name == "push" && self.text_parts(o.v, &pt).is_some())) && vs.len() == 1 { self.concat_text(o.v, &Ty::Path("String".into(), vec![]), vs[0], &ts[0]) } else { None };
                let nv = match (name, vs.len()) {
                    _ if txt.is_some() => txt.unwrap(),
                    // one more byte
                    ("push", 1) if self.byte_text(vs[0]).is_some() && !matches!(self.a.get(o.v), Val::List { .. }) && self.byte_parts(o.v, &pt).is_some() => {
                        let mut must = self.byte_parts(o.v, &pt).unwrap();
                        let x = self.byte_text(vs[0]).unwrap();
                        must.push(self.a.lit(&x));
                        let l = self.a.mk(Val::List { must, may: vec![] });
                        self.a.mk(Val::Call { f: ".concat".into(), args: vec![l] })
                    }
                    ("push", 1) | ("push_back", 1) | ("insert", 1) | ("push_front", 1) => self.a.push(o.v, vs[0]),
                    ("clear", 0) => self.a.mk(Val::List { must: vec![], may: vec![] }),
                    ("take", 0) if self.concrete && matches!(self.a.get(o.v), Val::Ctor { p, .. } if p == "Some" || p == "None") => self.a.mk(Val::Ctor { p: "None".into(), f: vec![] }),
                    ("clone_from", 1) => vs[0],
                    ("extend_from_slice", 1) | ("extend", 1) if self.eval_consts && (self.bytes_like(vs[0], &ts[0]) || self.locks && name == "extend_from_slice" && !matches!(self.a.get(vs[0]), Val::List { .. } | Val::Coll { .. })) && self.byte_parts(o.v, &pt).is_some() => {
                        let mut must = self.byte_parts(o.v, &pt).unwrap();
                        must.push(vs[0]);
                        let l = self.a.mk(Val::List { must, may: vec![] });
                        self.a.mk(Val::Call { f: ".concat".into(), args: vec![l] })
                    }
                    ("extend", 1) | ("append", 1) | ("extend_from_slice", 1) => match (self.a.get(o.v).clone(), self.a.get(vs[0]).clone()) {
                        (Val::List { .. }, Val::Ctor { p, f }) if name == "extend" && p == "Some" && f.len() == 1 => self.a.push(o.v, f[0].1),
                        (Val::List { .. }, Val::Ctor { p, f }) if name == "extend" && p == "None" && f.is_empty() => o.v,
                        (Val::List { must, may }, Val::List { must: m2, may: y2 }) => {
                            let must = must.into_iter().chain(m2).collect();
                            let may = may.into_iter().chain(y2).collect();
                            self.a.mk(Val::List { must, may })
                        }
                        (Val::List { must, mut may }, _) => {
                            let e = self.a.elem(vs[0]);
                            may.push(e);
                            self.a.mk(Val::List { must, may })
                        }
                        _ => self.a.mk(Val::Mut(name.into(), o.v, vs.clone())),
                    },
                    ("sort", _) | ("dedup", _) | ("sort_unstable", _) | ("reverse", _) => o.v,
                    ("get_mut", _) | ("entry", _) => o.v,
                    _ => self.a.mk(Val::Mut(name.into(), o.v, vs.clone())),
                };
                if nv != o.v {
                    let x = self.upd_steps(base, &steps, nv);
                    s.set(k, x);
                    self.follow(k, &mut s);
                    // learn element types
                    if steps.is_empty() && matches!(name, "push" | "insert") && ts.len() == 1 {
                        if let Ty::Path(p, a) = &self.var_ty[k as usize] {
                            if p == "Vec" && (a.is_empty() || !a[0].known()) {
                                self.var_ty[k as usize] = Ty::Path("Vec".into(), vec![ts[0].clone()]);
                            }
                        }
                    }
                    if name == "append" {
                        // the source is drained; irrelevant for provenance
                    }
                }
            }
        }
        // closures passed to unknown methods may run
        for v in &vs {
            if matches!(self.a.get(*v), Val::Closure(_)) {
                let el = self.a.elem(o.v);
                s = self.run_closure_maybe(*v, &[(el, et.clone())], s, true);
            }
        }
        let mut all = vec![o.v];
        all.extend(&vs);
        let val = self.a.mk(Val::Call { f: format!(".{name}"), args: all.clone() });
        self.event(format!(".{name}"), all, val, None, rt.clone(), &mut s, line);
        let t = match name {
            "len" | "count" => Ty::Path("usize".into(), vec![]),
            "or_insert" | "or_default" | "or_insert_with" => rt.arg(1),
            "take" | "replace" if rt.name() == "Option" => rt.clone(),
            "abs" | "min" | "max" | "saturating_sub" | "wrapping_add" | "format" | "skip" | "take" | "entry" => rt.clone(),
            "write" | "read" => rt.arg(0),
            "context" => o.t.clone(),
            _ => exp.clone(),
        };
        if name == "take" && (rt.name() == "Option" || self.concrete && vs.is_empty() && matches!(self.a.get(o.v), Val::Ctor { p, .. } if p == "Some" || p == "None")) {
            return Self::one(o.v, t, s);
        }
        if name == "context" {
            return Self::one(o.v, t, s);
        }
        let val = self.ext_model(&format!(".{name}"), &std::iter::once(o.v).chain(vs.iter().copied()).collect::<Vec<_>>()).unwrap_or(val);
        Self::one(val, t, s)
    }

    fn bytes_like(&self, v: Vid, t: &Ty) -> bool {
        matches!(t.name(), "str" | "String") || t.arg(0).name() == "u8" || matches!(self.a.get(v), Val::Lit(s) if s.starts_with("b\""))
    }
    /// a byte literal as a byte string
    fn byte_text(&self, v: Vid) -> Option<String> {
        let Val::Lit(l) = self.a.get(v) else { return None };
        let n: u8 = l.strip_prefix('b')?.parse().ok()?;
        n.is_ascii().then(|| format!("b{:?}", (n as char).to_string()))
    }
    /// the pieces of a byte string under construction
    fn byte_parts(&self, v: Vid, t: &Ty) -> Option<Vec<Vid>> {
        match self.a.get(v) {
            Val::List { must, may } if may.is_empty() && (must.is_empty() || must.iter().all(|x| matches!(self.a.get(*x), Val::Lit(s) if s.starts_with("b\'")))) => Some(must.clone()),
            Val::Call { f, args } if f == ".concat" && args.len() == 1 => match self.a.get(args[0]) {
                Val::List { must, may } if may.is_empty() => Some(must.clone()),
                _ => None,
            },
            Val::List { .. } => None,
            _ if self.bytes_like(v, t) => Some(vec![v]),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- macros
    fn mac(&mut self, mac: &syn::Macro, s: State, exp: &Ty, span: proc_macro2::Span) -> Vec<Out> {
        let name = last(&mac.path);
        let line = span.start().line;
        let here = format!("{}::{name}", self.frames.last().unwrap().file);
        if let Some(md) = self.m.macros.get(&here).or_else(|| self.m.macros.get(&name)).cloned() {
            if let Some(ts) = crate::macros::expand(&md, mac.tokens.clone()) {
                // expression, else a statement list
                if let Ok(e) = syn::parse2::<Expr>(ts.clone()) {
                    return self.ev(&e, s, exp);
                }
                let p = |i: syn::parse::ParseStream| syn::Block::parse_within(i);
                if let Ok(st) = syn::parse::Parser::parse2(p, ts) {
                    // statements expand into the surrounding scope
                    return self.stmts(&st, s, exp);
                }
            }
            self.unresolved += 1;
            return Self::one(TOP, Ty::Unknown, s);
        }
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" | "bail" => {
                let val = self.a.mk(Val::Call { f: format!("{name}!"), args: vec![] });
                let mut s = s;
                self.event(format!("{name}!"), vec![], val, None, Ty::Unknown, &mut s, line);
                return vec![];
            }
            // metrics: name and label values
            "histogram" | "counter" | "gauge" if syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Label, syn::Token![,]>::parse_terminated, mac.tokens.clone()).is_ok() => {
                let l = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Label, syn::Token![,]>::parse_terminated, mac.tokens.clone()).unwrap();
                let es: Vec<Expr> = l.into_iter().flat_map(|l| l.0.into_iter().chain([l.1])).collect();
                let f: Expr = syn::parse_str(&format!("{name}_metric")).unwrap();
                let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = es.into_iter().collect();
                let c: Expr = syn::parse_quote!(#f(#args));
                return self.ev(&c, s, exp);
            }
            "matches" => {
                let e: Expr = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: mac.clone() });
                let (t, f) = self.cond(&e, s);
                return self.bools(t, f);
            }
            "vec" => {
                let toks = mac.tokens.clone();
                if let Ok(l) = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, toks.clone()) {
                    let es: Vec<&Expr> = l.iter().collect();
                    let et = exp.peel().arg(0);
                    if es.is_empty() {
                        let v = self.a.mk(Val::List { must: vec![], may: vec![] });
                        return Self::one(v, if exp.known() { exp.clone() } else { Ty::Path("Vec".into(), vec![]) }, s);
                    }
                    return self.list(&es, s, &et);
                }
                let rp = |i: syn::parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<syn::Token![;]>()?;
                    let n: Expr = i.parse()?;
                    Ok((e, n))
                };
                if let Ok((e, n)) = syn::parse::Parser::parse2(rp, toks) {
                    return self.ev(&e, s, &exp.peel().arg(0)).into_iter().map(|o| self.repeated(o, &n)).collect();
                }
            }
            _ => {}
        }
        // expression-list macros
        if let Ok(l) = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, mac.tokens.clone()) {
            let mut names: Vec<Option<String>> = vec![];
            for e in l.iter() {
                names.push(match e {
                    Expr::Assign(a) => match &*a.left {
                        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                        _ => None,
                    },
                    _ => None,
                });
            }
            let es: Vec<Expr> = l.into_iter().map(|e| if let Expr::Assign(a) = e { (*a.right).clone() } else { e }).collect();
            let refs: Vec<&Expr> = es.iter().collect();
            let n = refs.len();
            let rs = self.evs(&refs, s, &vec![Ty::Unknown; n]);
            let mut out = vec![];
            for (mut vs, _, s) in rs {
                if name == "format" {
                    let mut lit = String::new();
                    if !vs.is_empty() {
                        if let Val::Lit(x) = self.a.get(vs[0]).clone() {
                            lit = x.trim_matches('"').to_string();
                            vs.remove(0);
                        }
                    }
                    let off = names.len() - vs.len();
                    let mut shaped = String::new();
                    let mut fa: Vec<Vid> = vec![];
                    let mut next = 0;
                    let mut it = lit.chars().peekable();
                    while let Some(c) = it.next() {
                        if c == '}' && it.peek() == Some(&'}') {
                            it.next();
                            shaped.push('}');
                            continue;
                        }
                        if c != '{' {
                            shaped.push(c);
                            continue;
                        }
                        if it.peek() == Some(&'{') {
                            it.next();
                            shaped.push('{');
                            continue;
                        }
                        let mut nm = String::new();
                        for c in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            nm.push(c);
                        }
                        let id = nm.split(':').next().unwrap_or("").trim().to_string();
                        let v = if id.is_empty() {
                            next += 1;
                            vs.get(next - 1).copied().unwrap_or(TOP)
                        } else if let Ok(i) = id.parse::<usize>() {
                            vs.get(i).copied().unwrap_or(TOP)
                        } else if let Some(i) = names.iter().position(|n| n.as_deref() == Some(&id)) {
                            vs.get(i - off).copied().unwrap_or(TOP)
                        } else if let Some(k) = self.lookup(&id) {
                            s.env.get(&k).copied().unwrap_or(TOP)
                        } else {
                            let (m, _, _) = self.ctx();
                            let c = self.m.resolve(&m, &[id]);
                            if self.eval_consts { self.const_val(&c).unwrap_or(TOP) } else { self.a.mk(Val::Const(c)) }
                        };
                        let plain = !nm.contains(":?");
                        match self.a.get(v).clone() {
                            Val::Lit(x) if plain && x.starts_with('"') => shaped.push_str(x.trim_matches('"')),
                            Val::Lit(x) if plain && self.concrete && !nm.contains(':') && x.parse::<i64>().is_ok() => shaped.push_str(&x),
                            Val::Lit(x) if self.locks && nm.contains(":0") && x.parse::<u64>().is_ok() => {
                                let w = nm.split(":0").nth(1).and_then(|w| w.trim().parse().ok()).unwrap_or(0);
                                shaped.push_str(&format!("{:0>w$}", x, w = w));
                            }
                            Val::Fmt(x, xs) if plain => {
                                shaped.push_str(&x);
                                fa.extend(xs);
                            }
                            _ => {
                                shaped.push_str("{}");
                                fa.push(v);
                            }
                        }
                    }
                    let vs = fa;
                    let v = if vs.is_empty() { self.a.lit(&format!("\"{shaped}\"")) } else { self.a.mk(Val::Fmt(shaped, vs)) };
                    out.push(Out { v, t: Ty::Path("String".into(), vec![]), s });
                } else {
                    let val = self.a.mk(Val::Call { f: format!("{name}!"), args: vs.clone() });
                    let mut s = s;
                    self.event(format!("{name}!"), vs.clone(), val, None, Ty::Unknown, &mut s, line);
                    let v = if name == "dbg" && vs.len() == 1 { vs[0] } else { val };
                    out.push(Out { v, t: Ty::Unknown, s });
                }
            }
            return out;
        }
        let val = self.a.mk(Val::Call { f: format!("{name}!"), args: vec![] });
        let mut s = s;
        self.event(format!("{name}!"), vec![], val, None, Ty::Unknown, &mut s, line);
        Self::one(val, Ty::Unknown, s)
    }

    // ---------------------------------------------------------------- queries used by rules
    pub fn param(&mut self, n: &str) -> Vid {
        self.a.mk(Val::Param(n.into()))
    }
    /// value of self or a parameter of the entry function in a final state
    pub fn final_of(&self, s: &State, name: &str) -> Option<Vid> {
        let k = self.entry_keys.iter().rev().find(|x| x.0 == name)?.1;
        s.env.get(&k).copied()
    }
    pub fn has_ok(&self, must: &Set, call: Vid) -> bool {
        self.a.fact_id(&Fact::Ok(call)).map_or(false, |f| must.contains(&f)) || self.a.fact_id(&Fact::Some(call)).map_or(false, |f| must.contains(&f))
    }
    /// success/failure facts of a value at the level of its type; an untyped value is a result unless it
    /// was already looked at as an option
    fn okerr(&mut self, v: Vid, ty: &str, s: &State) -> (u32, u32) {
        let some = self.a.fact(Fact::Some(v));
        let none = self.a.fact(Fact::None(v));
        if ty == "Option" || ty != "Result" && (s.must.contains(&some) || s.must.contains(&none)) {
            return (some, none);
        }
        (self.a.fact(Fact::Ok(v)), self.a.fact(Fact::Err(v)))
    }
    pub fn called(&self, set: &Set, call: Vid) -> bool {
        self.a.fact_id(&Fact::Called(call)).map_or(false, |f| set.contains(&f))
    }
    /// facts of a set
    pub fn facts<'a>(&'a self, set: &'a Set) -> impl Iterator<Item = &'a Fact> + 'a {
        set.iter().map(move |f| &self.a.facts[*f as usize])
    }
    pub fn module_of(&self) -> String {
        self.module()
    }
}

#[derive(Clone, Debug)]
enum Step {
    Field(String),
    Index,
    At(Expr),
    Pos(usize),
}

pub fn pat_name(p: &Pat) -> String {
    match p {
        Pat::Ident(i) => i.ident.to_string(),
        Pat::Type(t) => pat_name(&t.pat),
        Pat::Reference(r) => pat_name(&r.pat),
        Pat::TupleStruct(t) => t.elems.iter().map(pat_name).collect::<Vec<_>>().join("+"),
        Pat::Tuple(t) => t.elems.iter().map(pat_name).collect::<Vec<_>>().join("+"),
        _ => "_".into(),
    }
}

pub fn member(m: &syn::Member) -> String {
    match m {
        syn::Member::Named(i) => i.to_string(),
        syn::Member::Unnamed(i) => i.index.to_string(),
    }
}

pub fn lit_str(l: &syn::Lit) -> String {
    match l {
        syn::Lit::Str(s) => format!("{:?}", s.value()),
        syn::Lit::Int(i) => i.base10_digits().to_string(),
        syn::Lit::Bool(b) => b.value.to_string(),
        syn::Lit::Float(f) => f.base10_digits().to_string(),
        syn::Lit::Char(c) => format!("{:?}", c.value()),
        syn::Lit::ByteStr(b) => format!("b{:?}", String::from_utf8_lossy(&b.value())),
        syn::Lit::Byte(b) => format!("b{}", b.value()),
        _ => "lit".into(),
    }
}

fn iter_elem_ty(t: &Ty) -> Ty {
    let t = t.peel();
    match t.name() {
        "HashMap" | "BTreeMap" => match &t {
            Ty::Path(_, a) if a.len() >= 2 => Ty::Tuple(vec![a[0].clone(), a[1].clone()]),
            _ => Ty::Unknown,
        },
        "Vec" | "VecDeque" | "HashSet" | "BTreeSet" | "Option" | "BinaryHeap" => t.arg(0),
        _ => t.arg(0),
    }
}

fn fill(t: Ty, src: &Ty) -> Ty {
    match t {
        Ty::Path(p, a) if p == "Vec" && (a.is_empty() || !a[0].known()) => Ty::Path(p, vec![src.peel().arg(0)]),
        o => o,
    }
}

/// `value` or `"label" => value` of a metrics macro
struct Label(Option<Expr>, Expr);
impl syn::parse::Parse for Label {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        if i.peek(syn::LitStr) && i.peek2(syn::Token![=>]) {
            let k: syn::ExprLit = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            return Ok(Label(Some(Expr::Lit(k)), i.parse()?));
        }
        Ok(Label(None, i.parse()?))
    }
}

/// the size of a number type in `size_of::<T>()`
fn size_of(e: &Expr) -> Option<usize> {
    let Expr::Call(c) = strip_group(e) else { return None };
    let Expr::Path(p) = strip_group(&c.func) else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "size_of" {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    let syn::GenericArgument::Type(syn::Type::Path(t)) = a.args.first()? else { return None };
    Some(match t.path.segments.last()?.ident.to_string().as_str() {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}

/// text, or bytes of text, known in full
fn known_text(a: &Arena, v: Vid) -> Option<String> {
    match a.get(v) {
        Val::Lit(l) => {
            let l = l.strip_prefix('b').unwrap_or(l);
            (l.len() >= 2 && l.starts_with('"') && !l.contains('\\')).then(|| l[1..l.len() - 1].to_string())
        }
        Val::Fmt(t, x) if t.matches("{}").count() == x.len() => {
            let mut t = t.clone();
            for v in x {
                let n = match a.get(*v) {
                    Val::Lit(l) if !l.starts_with('"') => l.clone(),
                    _ => known_text(a, *v)?,
                };
                t = t.replacen("{}", &n, 1);
            }
            Some(t)
        }
        Val::Call { f, args } if args.len() == 1 => match f.rsplit("::").next().unwrap_or(f).trim_start_matches('.') {
            "concat" => match a.get(args[0]) {
                Val::List { must, may } if may.is_empty() => must
                    .iter()
                    .map(|x| match a.get(*x) {
                        Val::Lit(l) if !l.is_empty() && l.chars().all(|c| c.is_ascii_digit()) => Some(l.clone()),
                        _ => known_text(a, *x),
                    })
                    .collect(),
                _ => None,
            },
            "as_bytes" | "as_slice" | "as_ref" | "to_vec" | "as_str" | "to_string" | "to_owned" | "into_bytes" | "clone" | "into" | "from" => match a.get(args[0]) {
                Val::Lit(l) if l.chars().all(|c| c.is_ascii_digit()) => Some(l.clone()),
                _ => known_text(a, args[0]),
            },
            _ => None,
        },
        _ => None,
    }
}
