//! A small macro-by-example expander for the `macro_rules!` defined in the repository itself.
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
enum M {
    Tok(TokenTree),
    Group(Delimiter, Vec<M>),
    Var(String, String),
    Rep(Vec<M>, Option<TokenTree>, char),
}

#[derive(Clone, Debug)]
enum B {
    One(TokenStream),
    Many(Vec<HashMap<String, B>>),
}

pub struct Rules {
    rules: Vec<(Vec<M>, TokenStream)>,
}

fn parse_matcher(ts: TokenStream) -> Vec<M> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                i += 1;
                match &v[i] {
                    TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                        let inner = parse_matcher(g.stream());
                        i += 1;
                        let (sep, op) = rep_tail(&v, &mut i);
                        out.push(M::Rep(inner, sep, op));
                    }
                    TokenTree::Ident(name) => {
                        let name = name.to_string();
                        // skip ':'
                        i += 2;
                        let frag = v[i].to_string();
                        i += 1;
                        out.push(M::Var(name, frag));
                    }
                    t => {
                        out.push(M::Tok(t.clone()));
                        i += 1;
                    }
                }
            }
            TokenTree::Group(g) => {
                out.push(M::Group(g.delimiter(), parse_matcher(g.stream())));
                i += 1;
            }
            t => {
                out.push(M::Tok(t.clone()));
                i += 1;
            }
        }
    }
    out
}

fn rep_tail(v: &[TokenTree], i: &mut usize) -> (Option<TokenTree>, char) {
    let is_op = |t: &TokenTree| match t {
        TokenTree::Punct(p) => matches!(p.as_char(), '*' | '+' | '?'),
        _ => false,
    };
    let opc = |t: &TokenTree| match t {
        TokenTree::Punct(p) => p.as_char(),
        _ => '*',
    };
    if is_op(&v[*i]) {
        let c = opc(&v[*i]);
        *i += 1;
        (None, c)
    } else {
        let s = v[*i].clone();
        let c = opc(&v[*i + 1]);
        *i += 2;
        (Some(s), c)
    }
}

fn take_frag(frag: &str, toks: &[TokenTree]) -> Option<(TokenStream, usize)> {
    if toks.is_empty() {
        return None;
    }
    match frag {
        "tt" => {
            // multi-character operators count as one token tree for the callers we have
            if let TokenTree::Punct(p) = &toks[0] {
                let mut n = 1;
                let mut ts: TokenStream = std::iter::once(toks[0].clone()).collect();
                let mut cur = p.clone();
                while cur.spacing() == proc_macro2::Spacing::Joint {
                    match toks.get(n) {
                        Some(TokenTree::Punct(q))
                            if ["==", "!=", "<=", ">=", "&&", "||", "->", "=>", "::", "..", "+=", "-="]
                                .contains(&format!("{}{}", cur.as_char(), q.as_char()).as_str()) =>
                        {
                            ts.extend(std::iter::once(TokenTree::Punct(q.clone())));
                            cur = q.clone();
                            n += 1;
                        }
                        _ => break,
                    }
                }
                return Some((ts, n));
            }
            Some((std::iter::once(toks[0].clone()).collect(), 1))
        }
        "ident" => match &toks[0] {
            TokenTree::Ident(_) => Some((std::iter::once(toks[0].clone()).collect(), 1)),
            _ => None,
        },
        "literal" => match &toks[0] {
            TokenTree::Literal(_) => Some((std::iter::once(toks[0].clone()).collect(), 1)),
            _ => None,
        },
        "expr" | "ty" => {
            let all: TokenStream = toks.iter().cloned().collect();
            let total = toks.len();
            let is_ty = frag == "ty";
            let p = move |input: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
                let e = if is_ty {
                    let t: syn::Type = input.parse()?;
                    quote::quote!(#t)
                } else {
                    let e: syn::Expr = input.parse()?;
                    quote::quote!(#e)
                };
                let rest: TokenStream = input.parse()?;
                Ok((e, rest))
            };
            let (e, rest) = p.parse2(all).ok()?;
            let n = total - rest.into_iter().count();
            let g = if is_ty {
                e
            } else {
                std::iter::once(TokenTree::Group(Group::new(Delimiter::Parenthesis, e))).collect()
            };
            Some((g, n))
        }
        _ => None,
    }
}

fn do_match(ms: &[M], toks: &[TokenTree], env: &mut HashMap<String, B>) -> Option<usize> {
    let mut pos = 0;
    for m in ms {
        match m {
            M::Tok(t) => {
                if pos < toks.len() && toks[pos].to_string() == t.to_string() {
                    pos += 1;
                } else {
                    return None;
                }
            }
            M::Group(d, inner) => match toks.get(pos) {
                Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    let n = do_match(inner, &v, env)?;
                    if n != v.len() {
                        return None;
                    }
                    pos += 1;
                }
                _ => return None,
            },
            M::Var(name, frag) => {
                let (ts, n) = take_frag(frag, &toks[pos..])?;
                env.insert(name.clone(), B::One(ts));
                pos += n;
            }
            M::Rep(inner, sep, op) => {
                let mut many = vec![];
                loop {
                    if pos >= toks.len() {
                        break;
                    }
                    let mut p2 = pos;
                    if !many.is_empty() {
                        if let Some(s) = sep {
                            if toks[p2].to_string() == s.to_string() {
                                p2 += 1;
                            } else {
                                break;
                            }
                        }
                    }
                    let mut e2 = HashMap::new();
                    match do_match(inner, &toks[p2..], &mut e2) {
                        Some(n) if n > 0 => {
                            pos = p2 + n;
                            many.push(e2);
                        }
                        _ => break,
                    }
                    if *op == '?' {
                        break;
                    }
                }
                let mut names = vec![];
                collect_names(inner, &mut names);
                for n in names {
                    env.insert(n, B::Many(many.clone()));
                }
            }
        }
    }
    Some(pos)
}

fn collect_names(ms: &[M], out: &mut Vec<String>) {
    for m in ms {
        match m {
            M::Var(n, _) => out.push(n.clone()),
            M::Group(_, i) => collect_names(i, out),
            M::Rep(i, _, _) => collect_names(i, out),
            _ => (),
        }
    }
}

fn vars_in(ts: &TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    out.push(id.to_string());
                    i += 1;
                }
            }
            TokenTree::Group(g) => vars_in(&g.stream(), out),
            _ => (),
        }
        i += 1;
    }
}

fn transcribe(ts: TokenStream, env: &HashMap<String, B>) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    let name = id.to_string();
                    if name == "crate" {
                        out.extend(std::iter::once(TokenTree::Ident(Ident::new("crate", id.span()))));
                    } else {
                        match env.get(&name)? {
                            B::One(t) => out.extend(t.clone()),
                            B::Many(_) => return None,
                        }
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let (sep, _op) = rep_tail(&v, &mut j);
                    let mut names = vec![];
                    vars_in(&g.stream(), &mut names);
                    let many = names.iter().find_map(|n| match env.get(n) {
                        Some(B::Many(m)) => Some(m.clone()),
                        _ => None,
                    })?;
                    for (k, e) in many.iter().enumerate() {
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend(std::iter::once(s.clone()));
                            }
                        }
                        let mut e2 = env.clone();
                        for (n, b) in e {
                            e2.insert(n.clone(), b.clone());
                        }
                        out.extend(transcribe(g.stream(), &e2)?);
                    }
                    i = j;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let inner = transcribe(g.stream(), env)?;
                out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), inner))));
                i += 1;
            }
            t => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    Some(out)
}

impl Rules {
    pub fn parse(ts: TokenStream) -> Rules {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut rules = vec![];
        let mut i = 0;
        while i + 3 < v.len() {
            if let (TokenTree::Group(m), TokenTree::Group(b)) = (&v[i], &v[i + 3]) {
                rules.push((parse_matcher(m.stream()), b.stream()));
            }
            i += 4;
            if i < v.len() {
                if let TokenTree::Punct(p) = &v[i] {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
            }
        }
        Rules { rules }
    }

    pub fn expand(&self, input: TokenStream) -> Option<TokenStream> {
        let toks: Vec<TokenTree> = input.into_iter().collect();
        for (m, b) in &self.rules {
            let mut env = HashMap::new();
            if let Some(n) = do_match(m, &toks, &mut env) {
                if n == toks.len() {
                    return transcribe(b.clone(), &env);
                }
            }
        }
        None
    }
}
