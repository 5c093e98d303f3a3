//! A small `macro_rules!` expander, so that code behind local macros is analysed as code.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};

use crate::model::MacroDef;

pub fn parse_rules(ts: TokenStream) -> Vec<(TokenStream, TokenStream)> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let m = match &v[i] {
            TokenTree::Group(g) => g.stream(),
            _ => break,
        };
        // =>
        i += 3;
        if i >= v.len() {
            break;
        }
        if let TokenTree::Group(g) = &v[i] {
            out.push((m, g.stream()));
        }
        i += 1;
        if i < v.len() {
            if let TokenTree::Punct(p) = &v[i] {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
        }
    }
    out
}

enum Node {
    Tok(TokenTree),
    Frag(String, String),
    Rep(Vec<Node>, Option<TokenTree>, char),
    Grp(Delimiter, Vec<Node>),
}

fn is_p(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

fn parse_nodes(ts: TokenStream, matcher: bool) -> Vec<Node> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if is_p(&v[i], '$') && i + 1 < v.len() {
            match &v[i + 1] {
                TokenTree::Ident(id) => {
                    if matcher && i + 3 < v.len() && is_p(&v[i + 2], ':') {
                        out.push(Node::Frag(id.to_string(), v[i + 3].to_string()));
                        i += 4;
                    } else {
                        out.push(Node::Frag(id.to_string(), String::new()));
                        i += 2;
                    }
                    continue;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner = parse_nodes(g.stream(), matcher);
                    i += 2;
                    let mut sep = None;
                    let mut op = '*';
                    if i < v.len() {
                        if is_p(&v[i], '*') || is_p(&v[i], '+') || is_p(&v[i], '?') {
                            if let TokenTree::Punct(p) = &v[i] {
                                op = p.as_char();
                            }
                            i += 1;
                        } else {
                            sep = Some(v[i].clone());
                            i += 1;
                            if i < v.len() {
                                if let TokenTree::Punct(p) = &v[i] {
                                    op = p.as_char();
                                }
                                i += 1;
                            }
                        }
                    }
                    out.push(Node::Rep(inner, sep, op));
                    continue;
                }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(Node::Grp(g.delimiter(), parse_nodes(g.stream(), matcher))),
            t => out.push(Node::Tok(t.clone())),
        }
        i += 1;
    }
    out
}

#[derive(Clone, Debug)]
enum B {
    Leaf(TokenStream),
    Seq(Vec<BTreeMap<String, B>>),
}
type Binds = BTreeMap<String, B>;

fn take<T: syn::parse::Parse + ToTokens>(v: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    let ts: TokenStream = v.iter().cloned().collect();
    let p = |i: ParseStream| -> syn::Result<(T, TokenStream)> {
        let t: T = i.parse()?;
        let rest: TokenStream = i.parse()?;
        Ok((t, rest))
    };
    let (t, rest) = p.parse2(ts).ok()?;
    Some((t.to_token_stream(), rest.into_iter().collect()))
}

fn frag(kind: &str, v: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    if v.is_empty() && kind != "vis" {
        return None;
    }
    match kind {
        "expr" => take::<syn::Expr>(v).map(|(t, r)| (TokenTree::Group(Group::new(Delimiter::None, t)).into(), r)),
        "ty" => take::<syn::Type>(v),
        "ident" => match &v[0] {
            TokenTree::Ident(_) => Some((v[0].clone().into(), v[1..].to_vec())),
            _ => None,
        },
        "path" => take::<syn::Path>(v),
        "literal" => take::<syn::Lit>(v),
        "block" => take::<syn::Block>(v),
        "stmt" => take::<syn::Stmt>(v),
        "pat" => {
            let ts: TokenStream = v.iter().cloned().collect();
            let p = |i: ParseStream| -> syn::Result<(syn::Pat, TokenStream)> {
                let t = syn::Pat::parse_multi(i)?;
                let rest: TokenStream = i.parse()?;
                Ok((t, rest))
            };
            let (t, rest) = p.parse2(ts).ok()?;
            Some((t.to_token_stream(), rest.into_iter().collect()))
        }
        "tt" => Some((v[0].clone().into(), v[1..].to_vec())),
        _ => None,
    }
}

fn mtch(nodes: &[Node], mut v: Vec<TokenTree>) -> Option<(Binds, Vec<TokenTree>)> {
    let mut b = Binds::new();
    for n in nodes {
        match n {
            Node::Tok(t) => {
                if v.is_empty() || v[0].to_string() != t.to_string() {
                    return None;
                }
                v.remove(0);
            }
            Node::Frag(name, kind) => {
                let (t, r) = frag(kind, &v)?;
                b.insert(name.clone(), B::Leaf(t));
                v = r;
            }
            Node::Grp(d, inner) => {
                if v.is_empty() {
                    return None;
                }
                match &v[0] {
                    TokenTree::Group(g) if g.delimiter() == *d => {
                        let (bb, rest) = mtch(inner, g.stream().into_iter().collect())?;
                        if !rest.is_empty() {
                            return None;
                        }
                        b.extend(bb);
                        v.remove(0);
                    }
                    _ => return None,
                }
            }
            Node::Rep(inner, sep, op) => {
                let mut seq = vec![];
                loop {
                    if v.is_empty() {
                        break;
                    }
                    let mut w = v.clone();
                    if !seq.is_empty() {
                        if let Some(s) = sep {
                            if w[0].to_string() != s.to_string() {
                                break;
                            }
                            w.remove(0);
                            if w.is_empty() {
                                break;
                            }
                        }
                    }
                    match mtch(inner, w.clone()) {
                        Some((bb, rest)) if rest.len() < w.len() => {
                            seq.push(bb);
                            v = rest;
                        }
                        _ => break,
                    }
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && seq.is_empty() {
                    return None;
                }
                let mut names = vec![];
                collect(inner, &mut names);
                for nm in names {
                    b.insert(nm, B::Seq(seq.clone()));
                }
            }
        }
    }
    Some((b, v))
}

fn collect(nodes: &[Node], out: &mut Vec<String>) {
    for n in nodes {
        match n {
            Node::Frag(s, _) => out.push(s.clone()),
            Node::Grp(_, i) | Node::Rep(i, _, _) => collect(i, out),
            _ => {}
        }
    }
}

fn trans(nodes: &[Node], b: &Binds, out: &mut TokenStream) {
    for n in nodes {
        match n {
            Node::Tok(t) => out.extend([t.clone()]),
            Node::Frag(s, _) => match b.get(s) {
                Some(B::Leaf(t)) => out.extend(t.clone()),
                _ => {
                    if s == "crate" {
                        out.extend(quote::quote!(crate));
                    }
                }
            },
            Node::Grp(d, i) => {
                let mut o = TokenStream::new();
                trans(i, b, &mut o);
                out.extend([TokenTree::Group(Group::new(*d, o))]);
            }
            Node::Rep(i, sep, _) => {
                let mut names = vec![];
                collect(i, &mut names);
                let seq = names.iter().find_map(|n| match b.get(n) {
                    Some(B::Seq(s)) => Some(s.clone()),
                    _ => None,
                });
                if let Some(seq) = seq {
                    for (k, bb) in seq.iter().enumerate() {
                        if k > 0 {
                            if let Some(s) = sep {
                                out.extend([s.clone()]);
                            }
                        }
                        let mut m = b.clone();
                        m.extend(bb.clone());
                        trans(i, &m, out);
                    }
                }
            }
        }
    }
}

pub fn expand(md: &MacroDef, input: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = input.into_iter().collect();
    for (m, t) in &md.rules {
        let nodes = parse_nodes(m.clone(), true);
        if let Some((b, rest)) = mtch(&nodes, v.clone()) {
            if rest.is_empty() || (rest.len() == 1 && is_p(&rest[0], ',')) {
                let tn = parse_nodes(t.clone(), false);
                let mut out = TokenStream::new();
                trans(&tn, &b, &mut out);
                return Some(out);
            }
        }
    }
    None
}
