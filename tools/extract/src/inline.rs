//! Inlines calls of functions of the crate which have no contract (for instance a helper that was
//! extracted from a function under contract), so that the caller is verified with the helper's body.
use crate::{is_test, Found};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

type Files = BTreeMap<String, BTreeMap<String, Found>>;

pub fn inline_unknown(
    block: &mut Block,
    files: &Files,
    known: &BTreeSet<String>,
    file: &str,
    self_ty: Option<&str>,
    log: &mut Vec<String>,
) {
    for _ in 0..4 {
        let mut v = Inl { files, known, file, self_ty, log, n: 0, changed: false };
        v.visit_block_mut(block);
        if !v.changed {
            break;
        }
    }
}

struct Inl<'a> {
    files: &'a Files,
    known: &'a BTreeSet<String>,
    file: &'a str,
    self_ty: Option<&'a str>,
    log: &'a mut Vec<String>,
    n: usize,
    changed: bool,
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn ret_in<T: ToTokens>(f: impl Fn(&mut HasRet), _t: &T) -> bool {
    let mut h = HasRet(false);
    f(&mut h);
    h.0
}
fn stmt_ret(s: &Stmt) -> bool {
    ret_in(|h| h.visit_stmt(s), s)
}
fn expr_ret(s: &Expr) -> bool {
    ret_in(|h| h.visit_expr(s), s)
}

/// Removes `return` from a function body by nesting the remaining statements. None if not possible.
pub fn elim(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_ret(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    if expr_ret(e) {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(out);
            }
            Stmt::Expr(e, semi) => {
                // statement position: the rest follows each branch
                let e2 = push_rest(e, rest, semi.is_some() || !rest.is_empty())?;
                out.push(Stmt::Expr(e2, None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if expr_ret(&init.expr) {
                    return None;
                }
                let (_, els) = init.diverge.as_ref()?;
                let pat = &l.pat;
                let e = &init.expr;
                let r = elim(rest)?;
                let Expr::Block(b) = &**els else { return None };
                let b = elim(&b.block.stmts)?;
                out.push(Stmt::Expr(parse_quote!(if let #pat = #e { #(#r)* } else { #(#b)* }), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

fn cat(a: &[Stmt], rest: &[Stmt], stmt_pos: bool) -> Vec<Stmt> {
    let mut v = a.to_vec();
    if stmt_pos && !rest.is_empty() {
        if let Some(Stmt::Expr(_, s)) = v.last_mut() {
            if s.is_none() {
                *s = Some(Default::default());
            }
        }
    }
    v.extend(rest.iter().cloned());
    v
}

fn push_rest(e: &Expr, rest: &[Stmt], sp: bool) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            if expr_ret(&i.cond) {
                return None;
            }
            let c = &i.cond;
            let a = elim(&cat(&i.then_branch.stmts, rest, sp))?;
            match &i.else_branch {
                None => {
                    let b = elim(rest)?;
                    Some(parse_quote!(if #c { #(#a)* } else { #(#b)* }))
                }
                Some((_, eb)) => {
                    let eb = push_rest(eb, rest, sp)?;
                    let eb: Expr = match eb {
                        Expr::If(_) | Expr::Block(_) => eb,
                        o => parse_quote!({ #o }),
                    };
                    Some(parse_quote!(if #c { #(#a)* } else #eb))
                }
            }
        }
        Expr::Block(b) => {
            let a = elim(&cat(&b.block.stmts, rest, sp))?;
            Some(parse_quote!({ #(#a)* }))
        }
        Expr::Match(m) => {
            if expr_ret(&m.expr) {
                return None;
            }
            let mut m = m.clone();
            for a in &mut m.arms {
                if a.guard.as_ref().map(|(_, g)| expr_ret(g)).unwrap_or(false) {
                    return None;
                }
                let st: Vec<Stmt> = match &*a.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), if sp { Some(Default::default()) } else { None })],
                };
                let r = elim(&cat(&st, rest, sp))?;
                a.body = parse_quote!({ #(#r)* });
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        Expr::Return(r) => {
            let e = r.expr.as_ref()?;
            Some(parse_quote!({ #e }))
        }
        _ => None,
    }
}

struct ReSelf;
impl VisitMut for ReSelf {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") {
            *p = parse_quote!(__self);
        }
        visit_mut::visit_path_mut(self, p);
    }
}

fn no_lifetimes(t: &Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t
}

fn build(sig: &Signature, block: &Block, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
    if sig.asyncness.is_some() {
        return None;
    }
    let body = elim(&block.stmts)?;
    let mut body: Block = parse_quote!({ #(#body)* });
    let mut pre: Vec<Stmt> = vec![];
    let mut it = args.into_iter();
    let generic = !sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_)));
    let mut pats = vec![];
    let mut tys = vec![];
    let mut vals: Vec<Expr> = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let e = recv.clone().or_else(|| it.next())?;
                if e.to_token_stream().to_string() != "self" {
                    let b: Expr = if r.reference.is_some() {
                        if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) }
                    } else {
                        e
                    };
                    pre.push(parse_quote!(let __self = #b;));
                    ReSelf.visit_block_mut(&mut body);
                }
            }
            FnArg::Typed(t) => {
                pats.push((*t.pat).clone());
                let ty = no_lifetimes(&t.ty);
                tys.push(if generic || matches!(ty, Type::ImplTrait(_)) { parse_quote!(_) } else { ty });
                vals.push(it.next()?);
            }
        }
    }
    if it.next().is_some() {
        return None;
    }
    if pats.len() == 1 {
        let (p, t, v) = (&pats[0], &tys[0], &vals[0]);
        pre.push(parse_quote!(let #p: #t = #v;));
    } else if !pats.is_empty() {
        // evaluated in order before any parameter name is bound
        let tmp: Vec<_> = (0..pats.len()).map(|i| format_ident!("__arg{}", i)).collect();
        for i in 0..pats.len() {
            let (n, t, v) = (&tmp[i], &tys[i], &vals[i]);
            pre.push(parse_quote!(let #n: #t = #v;));
        }
        for i in 0..pats.len() {
            let (n, p) = (&tmp[i], &pats[i]);
            pre.push(parse_quote!(let #p = #n;));
        }
    }
    let st = &body.stmts;
    Some(parse_quote!({ #(#pre)* #(#st)* }))
}

impl<'a> Inl<'a> {
    fn lookup_fn(&self, name: &str) -> Option<ItemFn> {
        let get = |m: &BTreeMap<String, Found>| match m.get(name) {
            Some(Found::Fn(f)) if !is_test(&f.attrs) => Some(f.clone()),
            _ => None,
        };
        if let Some(f) = self.files.get(self.file).and_then(get) {
            return Some(f);
        }
        let c: Vec<_> = self.files.values().filter_map(get).collect();
        if c.len() == 1 {
            c.into_iter().next()
        } else {
            None
        }
    }
    fn lookup_method(&self, ty: Option<&str>, name: &str) -> Option<ImplItemFn> {
        let mut c = vec![];
        for m in self.files.values() {
            for f in m.values() {
                if let Found::Method { self_ty, trait_: None, f, .. } = f {
                    if f.sig.ident == name && ty.map(|t| t == self_ty).unwrap_or(true) {
                        c.push(f.clone());
                    }
                }
            }
        }
        if c.len() == 1 {
            c.pop()
        } else {
            None
        }
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.n += 1;
        if self.n > 20000 {
            return;
        }
        let new = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = seg.last().unwrap().clone();
                let prev = if seg.len() > 1 { Some(seg[seg.len() - 2].clone()) } else { None };
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match prev {
                    Some(t) if t == "Self" || t.chars().next().unwrap().is_uppercase() => {
                        let t = if t == "Self" { self.self_ty.unwrap_or("").to_string() } else { t };
                        let full = format!("{}::{}", t, name);
                        if self.known.contains(&full) || name == "new" {
                            return;
                        }
                        let Some(f) = self.lookup_method(Some(&t), &name) else { return };
                        self.log.push(full);
                        build(&f.sig, &f.block, None, args)
                    }
                    _ => {
                        if self.known.contains(&name) {
                            return;
                        }
                        let Some(f) = self.lookup_fn(&name) else { return };
                        self.log.push(name.clone());
                        build(&f.sig, &f.block, None, args)
                    }
                }
            }
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                if self.known.contains(&format!(".{}", name)) {
                    return;
                }
                let is_self = c.receiver.to_token_stream().to_string() == "self";
                let ty = if is_self { self.self_ty } else { None };
                let Some(f) = self.lookup_method(ty, &name) else { return };
                self.log.push(format!(".{}", name));
                build(&f.sig, &f.block, Some((*c.receiver).clone()), c.args.iter().cloned().collect())
            }
            _ => return,
        };
        if let Some(n) = new {
            *e = n;
            self.changed = true;
        }
    }
}
#[allow(unused)]
fn _q() {
    let _ = quote!();
}
