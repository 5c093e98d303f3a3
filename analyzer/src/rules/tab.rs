//! Declarative case tables: a function, concrete/symbolic arguments as expressions, the exact results.
use std::collections::BTreeSet;

use syn::Expr;

use crate::interp::*;
use crate::report::*;
use crate::val::*;

/// Builds a term from an expression: `x` symbolic, `a::B` / `a::B(x)` / `a::B { f: x }` constructors,
/// literals, `[a, b]`, `(a, b)`, `x.f`; `x | y` is not available.
pub fn term<'m>(it: &mut Interp<'m>, s: &str) -> Vid {
    term_in(&mut it.a, s)
}
pub fn term_in(a: &mut Arena, s: &str) -> Vid {
    let e: Expr = syn::parse_str(s).unwrap_or_else(|e| panic!("bad term {s}: {e}"));
    tm(a, &e)
}
fn pth(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn tm(a: &mut Arena, e: &Expr) -> Vid {
    match e {
        Expr::Path(p) => {
            let n = pth(&p.path);
            if n == "None" || n.contains("::") {
                a.mk(Val::Ctor { p: n, f: vec![] })
            } else {
                a.mk(Val::Param(n))
            }
        }
        Expr::Lit(l) => {
            let s = lit_str(&l.lit);
            a.lit(&s)
        }
        Expr::Call(c) => {
            let f: Vec<(String, Vid)> = c.args.iter().enumerate().map(|(i, x)| (i.to_string(), tm(a, x))).collect();
            let p = match &*c.func {
                Expr::Path(p) => pth(&p.path),
                _ => panic!(),
            };
            a.mk(Val::Ctor { p, f })
        }
        Expr::Struct(st) => {
            let f: Vec<(String, Vid)> = st.fields.iter().map(|x| (member(&x.member), tm(a, &x.expr))).collect();
            if let Some(b) = &st.rest {
                let mut v = tm(a, b);
                for (n, x) in f {
                    v = a.upd(v, &n, x);
                }
                return v;
            }
            a.mk(Val::Ctor { p: pth(&st.path), f })
        }
        Expr::Array(l) => {
            let must = l.elems.iter().map(|x| tm(a, x)).collect();
            a.mk(Val::List { must, may: vec![] })
        }
        Expr::Tuple(l) => {
            let t = l.elems.iter().map(|x| tm(a, x)).collect();
            a.mk(Val::Tuple(t))
        }
        Expr::Field(f) => {
            let b = tm(a, &f.base);
            a.field(b, &member(&f.member))
        }
        _ => panic!("bad term"),
    }
}

/// a fresh interpreter for case evaluation
pub fn fresh<'m>(ck: &Ck<'m>) -> Interp<'m> {
    let mut it = Interp::new(ck.m);
    it.eval_consts = true;
    it.precise = true;
    it.max_states = 300;
    it
}

/// all results (non-diverging exits, errors included) as text
pub fn eval<'m>(ck: &mut Ck<'m>, it: &mut Interp<'m>, path: &str, self_: Option<&str>, args: &[&str]) -> Option<(BTreeSet<String>, (&'m str, usize))> {
    let f = ck.func(path)?;
    let sv = self_.map(|s| term(it, s));
    let av: Vec<Vid> = args.iter().map(|s| term(it, s)).collect();
    let r = super::eval::results(ck, it, f, sv, Some(av), false);
    Some((r.iter().map(|x| short(&it.a.show_d(*x, 14))).collect(), (&f.file, f.line)))
}
/// drops module paths of constructors
pub fn short(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut q = false;
    while i < b.len() {
        if b[i] == '"' && (i == 0 || b[i - 1] != '\\') {
            q = !q;
        }
        if !q && (b[i].is_alphabetic() || b[i] == '_') {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || (b[i] == ':' && i + 1 < b.len() && (b[i + 1] == ':' || b[i - 1] == ':'))) {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let mut segs: Vec<&str> = w.split("::").collect();
            while segs.len() > 1 && segs[0].chars().next().map_or(false, |c| c.is_lowercase()) {
                segs.remove(0);
            }
            out.push_str(&segs.join("::"));
            if i + 1 < b.len() && b[i] == '{' && b[i + 1] == '}' {
                i += 2;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

/// obligation: the function's result set for these arguments is exactly `want`
pub fn case<'m>(ck: &mut Ck<'m>, kind: &str, path: &str, self_: Option<&str>, args: &[&str], want: &[&str]) {
    let mut it = fresh(ck);
    let Some((got, at)) = eval(ck, &mut it, path, self_, args) else { return };
    let w: BTreeSet<String> = want.iter().map(|s| s.to_string()).collect();
    let name = path.rsplit("::").take(2).collect::<Vec<_>>();
    let name = format!("{}::{}", name[1], name[0]);
    let arg = short(&[self_.iter().map(|s| s.to_string()).collect::<Vec<_>>(), args.iter().map(|s| s.to_string()).collect()].concat().join(", "));
    ck.req(kind, got == w, format!("{name}({arg})"), at, format!("{name}({arg}) must give {w:?}, gives {got:?}"));
}
