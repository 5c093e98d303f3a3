//! Hash-consed value terms (provenance domain) and facts.
use std::collections::HashMap;

pub type Vid = u32;

#[derive(Hash, PartialEq, Eq, Clone, Debug)]
pub enum Val {
    Top,
    Unit,
    Lit(String),
    Param(String),
    Const(String),
    Field(Vid, String),
    Index(Vid, Vid),
    Elem(Vid),
    Call { f: String, args: Vec<Vid> },
    Ctor { p: String, f: Vec<(String, Vid)> },
    Tuple(Vec<Vid>),
    List { must: Vec<Vid>, may: Vec<Vid> },
    /// a collection whose elements are `body` for the elements of `src`
    Coll { src: Vid, body: Vid },
    Closure(u32),
    Bin(String, Vid, Vid),
    Not(Vid),
    Cast(Vid, String),
    Join(Vec<Vid>),
    Payload(Vid, String, String),
    Rec(Vid, Vec<(String, Vid)>),
    Mut(String, Vid, Vec<Vid>),
    Fmt(String, Vec<Vid>),
}

#[derive(Hash, PartialEq, Eq, Clone, Debug)]
pub enum Fact {
    /// the call was executed
    Called(Vid),
    /// the value was observed to be Ok/Some
    Ok(Vid),
    Err(Vid),
    /// the (inner) option was observed to be present / absent
    Some(Vid),
    None(Vid),
    Is(Vid, String),
    NotIs(Vid, String),
    Cond(Vid, bool),
}

pub struct Arena {
    pub vals: Vec<Val>,
    map: HashMap<Val, Vid>,
    depth: Vec<u16>,
    pub facts: Vec<Fact>,
    fmap: HashMap<Fact, u32>,
    /// integer arithmetic on literals is carried out
    pub fold: bool,
    /// type arguments of the workspace function called last
    pub tf: String,
    /// the locks held at the call that is being modelled
    pub held: Vec<String>,
}

pub const TOP: Vid = 0;
pub const UNIT: Vid = 1;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { vals: vec![], map: HashMap::new(), depth: vec![], facts: vec![], fmap: HashMap::new(), fold: false, tf: String::new(), held: vec![] };
        a.mk(Val::Top);
        a.mk(Val::Unit);
        a
    }
    pub fn get(&self, v: Vid) -> &Val {
        &self.vals[v as usize]
    }
    pub fn kids(&self, v: &Val) -> Vec<Vid> {
        match v {
            Val::Top | Val::Unit | Val::Lit(_) | Val::Param(_) | Val::Const(_) | Val::Closure(_) => vec![],
            Val::Field(a, _) | Val::Elem(a) | Val::Not(a) | Val::Cast(a, _) | Val::Payload(a, _, _) => vec![*a],
            Val::Index(a, b) | Val::Bin(_, a, b) => vec![*a, *b],
            Val::Coll { src, body } => vec![*src, *body],
            Val::Call { args, .. } => args.clone(),
            Val::Ctor { f, .. } => f.iter().map(|x| x.1).collect(),
            Val::Tuple(a) | Val::Join(a) | Val::Fmt(_, a) => a.clone(),
            Val::List { must, may } => must.iter().chain(may).copied().collect(),
            Val::Rec(b, f) => std::iter::once(*b).chain(f.iter().map(|x| x.1)).collect(),
            Val::Mut(_, b, a) => std::iter::once(*b).chain(a.iter().copied()).collect(),
        }
    }
    pub fn mk(&mut self, v: Val) -> Vid {
        let v = match v {
            // named fields in a canonical order: struct literals, updates and builders agree
            Val::Ctor { p, mut f } if f.len() > 1 && !f.windows(2).all(|w| w[0].0 <= w[1].0) && f.iter().any(|x| x.0.parse::<usize>().is_err()) => {
                f.sort_by(|a, b| a.0.cmp(&b.0));
                Val::Ctor { p, f }
            }
            Val::Bin(op, x, y) if self.fold => match (self.int_cast(x), self.int_cast(y)) {
                (Some(a), Some(b)) => {
                    let r = match op.as_str() {
                        "+" => a.checked_add(b),
                        "-" => a.checked_sub(b),
                        "*" => a.checked_mul(b),
                        "/" if b != 0 => Some(a / b),
                        "%" if b != 0 => Some(a % b),
                        _ => None,
                    };
                    let c = match op.as_str() {
                        "==" => Some(a == b),
                        "!=" => Some(a != b),
                        "<" => Some(a < b),
                        ">" => Some(a > b),
                        "<=" => Some(a <= b),
                        ">=" => Some(a >= b),
                        _ => None,
                    };
                    match (r, c) {
                        (Some(r), _) => Val::Lit(r.to_string()),
                        (_, Some(c)) => Val::Lit(c.to_string()),
                        _ => Val::Bin(op, x, y),
                    }
                }
                _ => match (self.get(x), self.get(y), op.as_str()) {
                    // variants without payload
                    (Val::Ctor { p, f }, Val::Ctor { p: q, f: g }, "==" | "!=") if f.is_empty() && g.is_empty() => {
                        let l = |s: &str| s.rsplit("::").next().unwrap_or(s).to_string();
                        Val::Lit(((l(p) == l(q)) == (op == "==")).to_string())
                    }
                    _ => Val::Bin(op, x, y),
                },
            },
            v => v,
        };
        if let Some(i) = self.map.get(&v) {
            return *i;
        }
        let d = self.kids(&v).iter().map(|k| self.depth[*k as usize]).max().map_or(0, |x| x + 1);
        if d > 160 {
            return TOP;
        }
        let i = self.vals.len() as Vid;
        self.vals.push(v.clone());
        self.depth.push(d);
        self.map.insert(v, i);
        i
    }
    /// the integer a literal is, also through conversions that keep it
    pub fn int_cast(&self, v: Vid) -> Option<i128> {
        match self.get(v) {
            Val::Cast(x, t) if matches!(t.as_str(), "i64" | "u64" | "usize" | "isize" | "i128" | "u128") => self.int_cast(*x).filter(|n| *n >= 0 && *n <= i64::MAX as i128),
            _ => self.int(v),
        }
    }
    pub fn int(&self, v: Vid) -> Option<i128> {
        match self.get(v) {
            Val::Lit(l) => {
                let l = l.replace('_', "");
                let e = l.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(l.len());
                if e < l.len() && !l[e..].starts_with(['u', 'i']) {
                    return None;
                }
                l[..e].parse().ok()
            }
            _ => None,
        }
    }
    pub fn fact(&mut self, f: Fact) -> u32 {
        if let Some(i) = self.fmap.get(&f) {
            return *i;
        }
        let i = self.facts.len() as u32;
        self.facts.push(f.clone());
        self.fmap.insert(f, i);
        i
    }
    pub fn fact_id(&self, f: &Fact) -> Option<u32> {
        self.fmap.get(f).copied()
    }

    pub fn lit(&mut self, s: &str) -> Vid {
        self.mk(Val::Lit(s.into()))
    }

    pub fn field(&mut self, v: Vid, f: &str) -> Vid {
        match self.get(v).clone() {
            Val::Ctor { f: fs, .. } => {
                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                    return x.1;
                }
                self.mk(Val::Field(v, f.into()))
            }
            Val::Rec(b, fs) => {
                if let Some(x) = fs.iter().find(|x| x.0 == f) {
                    return x.1;
                }
                self.field(b, f)
            }
            Val::Tuple(t) => {
                if let Ok(i) = f.parse::<usize>() {
                    if let Some(x) = t.get(i) {
                        return *x;
                    }
                }
                self.mk(Val::Field(v, f.into()))
            }
            Val::Join(alts) if alts.len() <= 8 => {
                let mut r = vec![];
                for a in alts {
                    let x = self.field(a, f);
                    r.push(x);
                }
                self.join_all(r)
            }
            Val::Top => TOP,
            _ => self.mk(Val::Field(v, f.into())),
        }
    }

    pub fn elem(&mut self, v: Vid) -> Vid {
        match self.get(v).clone() {
            Val::Coll { body, .. } => body,
            Val::List { must, may } => {
                let all: Vec<Vid> = must.into_iter().chain(may).collect();
                if all.is_empty() {
                    return self.mk(Val::Elem(v));
                }
                self.join_all(all)
            }
            Val::Join(alts) if alts.len() <= 8 => {
                let mut r = vec![];
                for a in alts {
                    r.push(self.elem(a));
                }
                self.join_all(r)
            }
            Val::Top => TOP,
            _ => self.mk(Val::Elem(v)),
        }
    }

    pub fn upd(&mut self, base: Vid, f: &str, v: Vid) -> Vid {
        match self.get(base).clone() {
            Val::Ctor { p, f: mut fs } => {
                if let Some(x) = fs.iter_mut().find(|x| x.0 == f) {
                    x.1 = v;
                } else {
                    fs.push((f.into(), v));
                }
                self.mk(Val::Ctor { p, f: fs })
            }
            Val::Tuple(mut t) => {
                if let Ok(i) = f.parse::<usize>() {
                    if i < t.len() {
                        t[i] = v;
                        return self.mk(Val::Tuple(t));
                    }
                }
                self.mk(Val::Rec(base, vec![(f.into(), v)]))
            }
            Val::Rec(b, mut fs) => {
                if let Some(x) = fs.iter_mut().find(|x| x.0 == f) {
                    x.1 = v;
                } else {
                    fs.push((f.into(), v));
                    fs.sort();
                }
                self.mk(Val::Rec(b, fs))
            }
            _ => self.mk(Val::Rec(base, vec![(f.into(), v)])),
        }
    }

    pub fn push(&mut self, base: Vid, v: Vid) -> Vid {
        match self.get(base).clone() {
            Val::List { mut must, may } => {
                if !must.contains(&v) || must.len() < 64 {
                    must.push(v);
                }
                self.mk(Val::List { must, may })
            }
            _ => self.mk(Val::Mut("push".into(), base, vec![v])),
        }
    }

    pub fn join_all(&mut self, vs: Vec<Vid>) -> Vid {
        let mut it = vs.into_iter();
        let mut a = match it.next() {
            Some(a) => a,
            None => return TOP,
        };
        for b in it {
            a = self.join(a, b);
        }
        a
    }

    pub fn join(&mut self, a: Vid, b: Vid) -> Vid {
        if a == b {
            return a;
        }
        if a == TOP || b == TOP {
            return TOP;
        }
        let (va, vb) = (self.get(a).clone(), self.get(b).clone());
        match (&va, &vb) {
            (Val::Ctor { p: p1, f: f1 }, Val::Ctor { p: p2, f: f2 }) if p1 == p2 && f1.len() == f2.len() && !f1.is_empty() && f1.iter().zip(f2).all(|(x, y)| x.0 == y.0) => {
                let mut f = vec![];
                for (x, y) in f1.iter().zip(f2) {
                    f.push((x.0.clone(), self.join(x.1, y.1)));
                }
                return self.mk(Val::Ctor { p: p1.clone(), f });
            }
            (Val::Tuple(t1), Val::Tuple(t2)) if t1.len() == t2.len() => {
                let mut t = vec![];
                for (x, y) in t1.iter().zip(t2) {
                    t.push(self.join(*x, *y));
                }
                return self.mk(Val::Tuple(t));
            }
            // lists of the same length, element by element
            (Val::List { must: m1, may: y1 }, Val::List { must: m2, may: y2 })
                if y1.is_empty() && y2.is_empty() && m1.len() == m2.len() && m1.len() <= 16 && m1.iter().zip(m2).all(|(x, y)| x == y || !m2.contains(x) && !m1.contains(y)) =>
            {
                let mut t = vec![];
                for (x, y) in m1.iter().zip(m2) {
                    t.push(self.join(*x, *y));
                }
                return self.mk(Val::List { must: t, may: vec![] });
            }
            (Val::List { must: m1, may: y1 }, Val::List { must: m2, may: y2 }) => {
                let must: Vec<Vid> = m1.iter().filter(|x| m2.contains(x)).copied().collect();
                let mut may: Vec<Vid> = vec![];
                for x in m1.iter().chain(m2).chain(y1).chain(y2) {
                    if !must.contains(x) && !may.contains(x) {
                        may.push(*x);
                    }
                }
                if may.len() > 64 {
                    may.truncate(64);
                    may.push(TOP);
                }
                return self.mk(Val::List { must, may });
            }
            (Val::Rec(b1, f1), Val::Rec(b2, f2)) if b1 == b2 => {
                let mut names: Vec<String> = f1.iter().chain(f2).map(|x| x.0.clone()).collect();
                names.sort();
                names.dedup();
                let mut f = vec![];
                for n in names {
                    let x = self.field(a, &n);
                    let y = self.field(b, &n);
                    f.push((n, self.join(x, y)));
                }
                return self.mk(Val::Rec(*b1, f));
            }
            (Val::Rec(b1, f1), _) if *b1 == b => {
                let mut f = vec![];
                for (n, x) in f1 {
                    let y = self.field(b, n);
                    f.push((n.clone(), self.join(*x, y)));
                }
                return self.mk(Val::Rec(*b1, f));
            }
            (_, Val::Rec(b2, _)) if *b2 == a => return self.join(b, a),
            _ => {}
        }
        let mut alts: Vec<Vid> = vec![];
        for v in [a, b] {
            match self.get(v) {
                Val::Join(x) => alts.extend(x.iter().copied()),
                _ => alts.push(v),
            }
        }
        alts.sort();
        alts.dedup();
        // merge structurally compatible alternatives
        if alts.len() > 24 {
            return TOP;
        }
        if alts.len() == 1 {
            return alts[0];
        }
        self.mk(Val::Join(alts))
    }

    pub fn alts(&self, v: Vid) -> Vec<Vid> {
        match self.get(v) {
            Val::Join(x) => x.clone(),
            _ => vec![v],
        }
    }

    /// all leaves reachable (bounded)
    pub fn walk(&self, v: Vid, f: &mut dyn FnMut(Vid, &Val) -> bool) {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![v];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let val = self.get(x);
            if f(x, val) {
                st.extend(self.kids(val));
            }
        }
    }
    pub fn contains(&self, v: Vid, needle: Vid) -> bool {
        let mut r = false;
        self.walk(v, &mut |x, _| {
            if x == needle {
                r = true;
            }
            !r
        });
        r
    }

    pub fn show(&self, v: Vid) -> String {
        self.show_d(v, 7)
    }
    pub fn show_d(&self, v: Vid, d: usize) -> String {
        if d == 0 {
            return "…".into();
        }
        let l = |x: &Vec<Vid>| x.iter().map(|y| self.show_d(*y, d - 1)).collect::<Vec<_>>().join(", ");
        match self.get(v) {
            Val::Top => "?".into(),
            Val::Unit => "()".into(),
            Val::Lit(s) => s.clone(),
            Val::Param(s) => s.clone(),
            Val::Const(s) => s.clone(),
            Val::Field(a, f) => format!("{}.{}", self.show_d(*a, d - 1), f),
            Val::Index(a, i) => format!("{}[{}]", self.show_d(*a, d - 1), self.show_d(*i, d - 1)),
            Val::Elem(a) => format!("elem({})", self.show_d(*a, d - 1)),
            Val::Call { f, args } => format!("{}({})", f, l(args)),
            Val::Ctor { p, f } => format!("{}{{{}}}", p, f.iter().map(|(n, x)| format!("{}: {}", n, self.show_d(*x, d - 1))).collect::<Vec<_>>().join(", ")),
            Val::Tuple(a) => format!("({})", l(a)),
            Val::List { must, may } => format!("[{} | {}]", l(must), l(may)),
            Val::Coll { src, body } => format!("map({} => {})", self.show_d(*src, d - 1), self.show_d(*body, d - 1)),
            Val::Closure(c) => format!("closure#{c}"),
            Val::Bin(o, a, b) => format!("({} {} {})", self.show_d(*a, d - 1), o, self.show_d(*b, d - 1)),
            Val::Not(a) => format!("!{}", self.show_d(*a, d - 1)),
            Val::Cast(a, t) => format!("({} as {})", self.show_d(*a, d - 1), t),
            Val::Join(a) => format!("<{}>", a.iter().map(|y| self.show_d(*y, d - 1)).collect::<Vec<_>>().join(" | ")),
            Val::Payload(a, v, f) => format!("{}~{}.{}", self.show_d(*a, d - 1), v, f),
            Val::Rec(b, f) => format!("{}{{..{}}}", self.show_d(*b, d - 1), f.iter().map(|(n, x)| format!("{}: {}", n, self.show_d(*x, d - 1))).collect::<Vec<_>>().join(", ")),
            Val::Mut(m, b, a) => format!("{}'{}({})", self.show_d(*b, d - 1), m, l(a)),
            Val::Fmt(s, a) => format!("fmt({s:?}, {})", l(a)),
        }
    }
}
