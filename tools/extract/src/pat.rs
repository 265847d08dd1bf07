//! Expression patterns: token patterns with metavariables `__m_x`, matched against whole expressions.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::Value;
use std::collections::BTreeMap;
use syn::Expr;

#[derive(Clone)]
pub struct Rule {
    pub name: String,
    pub kind: std::mem::Discriminant<Expr>,
    pub pat: Vec<TokenTree>,
    pub rep: Vec<TokenTree>,
    pub rep_text: String,
}

pub fn parse_rules(v: &Value) -> Vec<Rule> {
    let mut out = vec![];
    if let Some(a) = v.as_array() {
        for r in a {
            let name = r[0].as_str().unwrap();
            let p = r[1].as_str().unwrap().replace('$', "__m_");
            let q = r[2].as_str().unwrap().replace('$', "__m_");
            let e: Expr = syn::parse_str(&p).unwrap_or_else(|e| panic!("pattern {}: {}", p, e));
            out.push(Rule {
                name: name.to_string(),
                kind: std::mem::discriminant(&e),
                pat: e.to_token_stream().into_iter().collect(),
                rep: q.parse::<TokenStream>().unwrap().into_iter().collect(),
                rep_text: q,
            });
        }
    }
    out
}

type Env = BTreeMap<String, Vec<TokenTree>>;

fn meta(t: &TokenTree) -> Option<String> {
    if let TokenTree::Ident(i) = t {
        let s = i.to_string();
        if s.starts_with("__m_") {
            return Some(s);
        }
    }
    None
}

fn toks(ts: &[TokenTree]) -> String {
    crate::norm(&ts.iter().cloned().collect::<TokenStream>())
}

fn m(p: &[TokenTree], t: &[TokenTree], env: &mut Env) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    if let Some(name) = meta(&p[0]) {
        if let Some(b) = env.get(&name).cloned() {
            if t.len() < b.len() || toks(&t[..b.len()]) != toks(&b) {
                return false;
            }
            return m(&p[1..], &t[b.len()..], env);
        }
        for n in 1..=t.len() {
            let mut e2 = env.clone();
            e2.insert(name.clone(), t[..n].to_vec());
            if m(&p[1..], &t[n..], &mut e2) {
                *env = e2;
                return true;
            }
        }
        return false;
    }
    if t.is_empty() {
        return false;
    }
    let ok = match (&p[0], &t[0]) {
        (TokenTree::Group(a), TokenTree::Group(b)) => {
            a.delimiter() == b.delimiter() && {
                let av: Vec<_> = a.stream().into_iter().collect();
                let bv: Vec<_> = b.stream().into_iter().collect();
                m(&av, &bv, env)
            }
        }
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        (a, b) => a.to_string() == b.to_string(),
    };
    ok && m(&p[1..], &t[1..], env)
}

fn subst(rep: &[TokenTree], env: &Env) -> TokenStream {
    let mut out = TokenStream::new();
    for t in rep {
        if let Some(n) = meta(t) {
            if let Some(b) = env.get(&n) {
                let ts: TokenStream = b.iter().cloned().collect();
                // keep simple expressions bare, wrap the others
                let simple = b.len() == 1
                    || !b.iter().any(|x| matches!(x, TokenTree::Punct(p) if !matches!(p.as_char(), '.' | ':' | '&')));
                if simple {
                    out.extend(ts);
                } else {
                    out.extend(std::iter::once(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts))));
                }
                continue;
            }
        }
        match t {
            TokenTree::Group(g) => {
                let inner: Vec<_> = g.stream().into_iter().collect();
                out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), subst(&inner, env)))));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
    }
    out
}

pub fn apply(rules: &[Rule], e: &Expr) -> Option<(String, Expr)> {
    let k = std::mem::discriminant(e);
    let mut ts: Option<Vec<TokenTree>> = None;
    for r in rules {
        if r.kind != k {
            continue;
        }
        let t = ts.get_or_insert_with(|| e.to_token_stream().into_iter().collect());
        let mut env = Env::new();
        if m(&r.pat, t, &mut env) {
            let out = subst(&r.rep, &env);
            // a metavariable may have taken in tokens that are no expression: then it is no match
            if let Ok(parsed) = syn::parse2::<Expr>(out) {
                return Some((r.name.clone(), parsed));
            }
        }
    }
    None
}
