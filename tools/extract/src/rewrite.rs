//! The rewrite rules. Each one replaces a construct by an equivalent call of a wrapper whose contract
//! (the documented behaviour of the standard library) is stated in the prelude.
use crate::pat;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

const MODS: &[&str] = &[
    "crate", "account", "amount", "annotate", "balance", "commodity", "directives", "history", "iterator",
    "journal", "journalreader", "option", "parser", "pool", "post", "reader", "report", "scanner", "utilities",
    "value", "xact", "rust_decimal", "chrono", "petgraph", "stable_graph", "algo", "super",
];

fn last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn dropped_macro(p: &Path) -> bool {
    let f = p.segments.first().unwrap().ident.to_string();
    let l = last(p);
    (f == "log" && p.segments.len() == 2)
        || matches!(l.as_str(), "println" | "print" | "eprintln" | "eprint" | "dbg" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne")
        || (p.segments.len() == 1 && matches!(l.as_str(), "debug" | "info" | "warn" | "error" | "trace"))
}

/// &x in a pattern: the reference is bound and copied afterwards
#[derive(Default)]
struct RefPat(Vec<Stmt>);
impl VisitMut for RefPat {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                let x = &i.ident;
                let y = format_ident!("__ref_{}", x);
                self.0.push(parse_quote!(let #x = *#y;));
                *p = parse_quote!(#y);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}

struct Clean;
impl VisitMut for Clean {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !dropped_macro(&m.mac.path),
            Stmt::Expr(Expr::Macro(m), _) => !dropped_macro(&m.mac.path),
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
        // let (&x, &y) = E;   ->   let (rx, ry) = E; let x = *rx; let y = *ry;
        let mut i = 0;
        while i < b.stmts.len() {
            let mut rp = RefPat::default();
            if let Stmt::Local(l) = &mut b.stmts[i] {
                rp.visit_pat_mut(&mut l.pat);
            }
            let n = rp.0.len();
            b.stmts.splice(i + 1..i + 1, rp.0);
            i += 1 + n;
        }
        // let [x, y] = E;   ->   let a = E; let x = a[0]; let y = a[1];
        let mut i = 0;
        while i < b.stmts.len() {
            let mut new: Vec<Stmt> = vec![];
            if let Stmt::Local(Local { pat: Pat::Slice(t), init: Some(e), .. }) = &b.stmts[i] {
                if e.diverge.is_none() && t.elems.iter().all(|p| matches!(p, Pat::Ident(q) if q.subpat.is_none()) || matches!(p, Pat::Wild(_))) {
                    let a = format_ident!("__a{}", i);
                    let x = &e.expr;
                    new.push(parse_quote!(let #a = #x;));
                    for (k, p) in t.elems.iter().enumerate() {
                        if matches!(p, Pat::Ident(_)) {
                            let k = proc_macro2::Literal::usize_unsuffixed(k);
                            new.push(parse_quote!(let #p = #a[#k];));
                        }
                    }
                }
            }
            if !new.is_empty() {
                b.stmts.splice(i..i + 1, new);
            }
            i += 1;
        }
        // let (x, y);   ->   let x; let y;
        let mut i = 0;
        while i < b.stmts.len() {
            let mut new: Vec<Stmt> = vec![];
            if let Stmt::Local(Local { pat: Pat::Tuple(t), init: None, .. }) = &b.stmts[i] {
                if t.elems.iter().all(|p| matches!(p, Pat::Ident(_))) {
                    new = t.elems.iter().map(|p| -> Stmt { parse_quote!(let #p;) }).collect();
                }
            }
            if !new.is_empty() {
                b.stmts.splice(i..i + 1, new);
            }
            i += 1;
        }
        // let x: T; unsafe { x = E; }   ->   let x: T = E;
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut new: Option<Stmt> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if l.init.is_none() {
                    let name = match &l.pat {
                        Pat::Type(t) => t.pat.to_token_stream().to_string(),
                        p => p.to_token_stream().to_string(),
                    };
                    let name = name.trim_start_matches("mut ").to_string();
                    let asg: Option<&Expr> = match &b.stmts[i + 1] {
                        Stmt::Expr(Expr::Block(eb), _) if eb.block.stmts.len() == 1 => match &eb.block.stmts[0] {
                            Stmt::Expr(e, _) => Some(e),
                            _ => None,
                        },
                        Stmt::Expr(e, _) => Some(e),
                        _ => None,
                    };
                    if let Some(Expr::Assign(a)) = asg {
                        if a.left.to_token_stream().to_string() == name {
                            let mut l2 = l.clone();
                            l2.init = Some(LocalInit { eq_token: Default::default(), expr: a.right.clone(), diverge: None });
                            new = Some(Stmt::Local(l2));
                        }
                    }
                    // let x: T; { let c = ..; x = E; }  ->  let x: T = { let c = ..; E };
                    if new.is_none() {
                        if let Stmt::Expr(Expr::Block(eb), _) = &b.stmts[i + 1] {
                            if let Some(Stmt::Expr(Expr::Assign(a), _)) = eb.block.stmts.last() {
                                if a.left.to_token_stream().to_string() == name {
                                    let pre = &eb.block.stmts[..eb.block.stmts.len() - 1];
                                    let e = &a.right;
                                    let mut l2 = l.clone();
                                    l2.init = Some(LocalInit {
                                        eq_token: Default::default(),
                                        expr: parse_quote!({ #(#pre)* #e }),
                                        diverge: None,
                                    });
                                    new = Some(Stmt::Local(l2));
                                }
                            }
                        }
                    }
                }
            }
            if let Some(n) = new {
                b.stmts[i] = n;
                b.stmts.remove(i + 1);
            }
            i += 1;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if a.guard.is_none() {
            let mut rp = RefPat::default();
            rp.visit_pat_mut(&mut a.pat);
            if !rp.0.is_empty() {
                let (st, b) = (&rp.0, &a.body);
                a.body = Box::new(parse_quote!({ #(#st)* #b }));
            }
        }
    }
    fn visit_expr_if_mut(&mut self, f: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, f);
        if let Expr::Let(l) = &mut *f.cond {
            let mut rp = RefPat::default();
            rp.visit_pat_mut(&mut l.pat);
            f.then_branch.stmts.splice(0..0, rp.0);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            if b.stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &b.stmts[0] {
                    *e = x.clone();
                    return;
                }
            }
            *e = parse_quote!(#b);
        }
    }
}

pub fn clean_block(b: &mut Block) {
    Clean.visit_block_mut(b);
}

pub struct Rw {
    pub rules: Vec<pat::Rule>,
    pub counts: BTreeMap<String, usize>,
    pub loops: Vec<Value>,
    pub lstack: Vec<usize>,
    pub panicky: std::collections::BTreeSet<String>,
    /// fields to add to struct literals: type -> field
    pub extra: BTreeMap<String, String>,
    /// types of which references are pointers into a heap
    pub objects: std::collections::BTreeSet<String>,
    /// fields that the struct is extracted without
    pub drop_fields: BTreeMap<String, Vec<String>>,
    /// arguments to add to calls: `.method` or `function` -> arguments
    pub call_args: BTreeMap<String, Vec<String>>,
}

impl Rw {
    pub fn new(rules: Vec<pat::Rule>) -> Self {
        Rw { rules, counts: BTreeMap::new(), loops: vec![], lstack: vec![], panicky: Default::default(), extra: Default::default(), objects: Default::default(), call_args: Default::default(), drop_fields: Default::default() }
    }
    fn c(&mut self, n: &str) {
        *self.counts.entry(n.to_string()).or_default() += 1;
    }
}

/// spec version of an expression used in the postcondition of a closure
struct ToSpec;
impl VisitMut for ToSpec {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        if let Some(r) = n.strip_prefix("v_") {
            m.method = format_ident!("s_{}", r);
        } else if matches!(n.as_str(), "get_commodity" | "is_zero" | "is_sign_positive" | "is_sign_negative") {
            m.method = format_ident!("s_{}", n);
        }
    }
}

const CHAR_PREDS: &[&str] = &["is_uppercase", "is_lowercase", "is_alphabetic", "is_alphanumeric", "is_numeric", "is_control", "is_ascii", "is_ascii_alphabetic", "is_ascii_uppercase",
    "is_ascii_lowercase", "is_ascii_alphanumeric", "is_ascii_whitespace", "is_ascii_punctuation"];

fn is_pred_method(n: &str) -> bool {
    matches!(n, "v_find_by" | "v_chars_all" | "v_chars_any" | "v_find_mut" | "v_find_ref" | "v_any" | "v_all" | "v_position" | "v_starts_with_by" | "v_contains_by" | "v_split_by" | "v_trim_start_matches_by")
}

fn annotate_closure(c: &mut ExprClosure, param_ty: Option<&str>) -> bool {
    annotate_closure_to(c, param_ty, "bool")
}

fn annotate_closure_to(c: &mut ExprClosure, param_ty: Option<&str>, out: &str) -> bool {
    if c.inputs.len() == 1 {
        if let Some(t) = param_ty {
            if !matches!(&c.inputs[0], Pat::Type(_)) {
                let mut p = c.inputs[0].clone();
                if matches!(p, Pat::Wild(_)) {
                    p = parse_quote!(__u);
                }
                let t: Type = parse_str(t).unwrap();
                let pt: PatType = PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) };
                c.inputs[0] = Pat::Type(pt);
            }
        }
    }
    let body = match &*c.body {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => e.clone(),
            _ => return false,
        },
        Expr::Block(_) => return false,
        e => e.clone(),
    };
    let mut spec = body.clone();
    ToSpec.visit_expr_mut(&mut spec);
    let out: Type = parse_str(out).unwrap();
    c.output = parse_quote!(-> VRet<#out>);
    c.body = Box::new(parse_quote!({ __cens!(#spec); #body }));
    true
}

impl VisitMut for Rw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Ptr(p) = t {
            let e = &p.elem;
            let e2: Type = parse_quote!(VPtr<#e>);
            *t = e2;
            self.c("raw-pointer-type");
            return;
        }
        if let Type::Reference(r) = t {
            if let Type::Path(p) = &*r.elem {
                if self.objects.contains(&last(&p.path)) {
                    let x = &r.elem;
                    *t = parse_quote!(VPtr<#x>);
                    self.c("object-reference");
                    return;
                }
            }
        }
        // a box is its content (its address is kept in the content where it matters)
        if let Type::Path(p) = t {
            let l = p.path.segments.last().unwrap();
            if l.ident == "Box" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    if let (1, Some(GenericArgument::Type(i))) = (a.args.len(), a.args.first()) {
                        if !matches!(i, Type::TraitObject(_)) {
                            let i = i.clone();
                            *t = i;
                            self.c("box-type");
                        }
                    }
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        if n > 1 {
            let mut k = 0;
            while k + 1 < n && MODS.contains(&p.segments[k].ident.to_string().as_str()) {
                k += 1;
            }
            if k > 0 {
                p.segments = p.segments.iter().skip(k).cloned().collect();
                p.leading_colon = None;
                self.c("module-path");
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // statement macros become expression macros
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if !m.mac.path.segments.first().unwrap().ident.to_string().starts_with("__") {
                    let mac = m.mac.clone();
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac });
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // let mut it = x.iter();   (advanced by hand)
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
            if let (true, Expr::MethodCall(m)) = (i.mutability.is_some(), &*init.expr) {
                let x = &m.receiver;
                let new: Option<Expr> = match (m.method.to_string().as_str(), m.args.len()) {
                    ("iter", 0) => Some(parse_quote!(v_iter(&#x))),
                    ("into_iter", 0) => Some(parse_quote!(v_into_iter(#x))),
                    _ => None,
                };
                if let Some(n) = new {
                    init.expr = Box::new(n);
                    self.c("iterator");
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
        // let PAT: VPtr<..> = &x etc. is left to the rules
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // option.as_ref().map(..): not the content of a box
        if let Expr::MethodCall(m) = e {
            if matches!(m.method.to_string().as_str(), "map" | "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "and_then" | "unwrap" | "expect" | "is_some" | "is_none" | "unwrap_or" | "unwrap_or_else" | "cloned" | "copied" | "filter" | "ok_or") {
                if let Expr::MethodCall(i) = &mut *m.receiver {
                    if i.method == "as_ref" && i.args.is_empty() {
                        i.method = format_ident!("v_opt_as_ref");
                        self.c("option-as-ref");
                    }
                }
            }
        }
        // pattern rules that must see the original text first
        if let Some((n, new)) = pat::apply(&self.rules, e) {
            if n.starts_with("pre:") {
                self.c(&n);
                *e = new;
            }
        }
        // x.iter().map(|p| b).collect()   ->   a loop that pushes b
        if let Some((p, it, b)) = map_collect(e) {
            let o = format_ident!("__o{}", self.loops.len());
            *e = parse_quote!({ let mut #o = Vec::new(); for #p in #it { #o.push(#b); } #o });
            self.c("map-collect");
        }
        // x.for_each(|p| b)   ->   for p in x { b; }
        if let Expr::MethodCall(m) = e {
            if let (true, 1, Some(Expr::Closure(c))) = (m.method == "for_each", m.args.len(), m.args.first()) {
                if c.inputs.len() == 1 && !c.body.to_token_stream().to_string().contains("return") {
                    let (p, b, x) = (strip_ty(&c.inputs[0]), &c.body, &m.receiver);
                    *e = parse_quote!(for #p in #x { #b; });
                    self.c("for-each");
                }
            }
        }
        // loops: number before descending
        if let Expr::ForLoop(f) = e {
            let k = self.loops.len();
            self.loops.push(Value::Null);
            let mut f = f.clone();
            // the elements from an index on: the loop starts there
            let mut start = take_start(&mut f.expr);
            if let Some(s) = &mut start {
                self.visit_expr_mut(s);
                self.c("for-loop-from");
            }
            // the index as a variable of its own
            if let (Expr::MethodCall(m), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 {
                    let (mut x, i, p) = (m.receiver.clone(), t.elems[0].clone(), t.elems[1].clone());
                    if take_start(&mut x).is_none() {
                        let n = format_ident!("__n{}", k);
                        f.body.stmts.insert(0, parse_quote!(let #i: usize = #n - 1;));
                        f.expr = x;
                        *f.pat = p;
                        self.c("for-loop-enumerate");
                    }
                }
            }
            self.visit_expr_mut(&mut f.expr);
            self.visit_pat_mut(&mut f.pat);
            self.lstack.push(k);
            self.visit_block_mut(&mut f.body);
            self.lstack.pop();
            self.c("for-loop");
            *e = self.for_loop(k, f, start);
            return;
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                let lbl = &w.label;
                *e = parse_quote!(#lbl loop { match #x { #p => #b, _ => break, } });
                self.c("while-let");
            } else {
                let k = self.loops.len();
                self.loops.push(json!({"kind":"while"}));
                self.lstack.push(k);
                visit_mut::visit_expr_while_mut(self, w);
                self.lstack.pop();
                let m: Stmt = parse_loopinv(k);
                w.body.stmts.insert(0, m);
                loopend(k, &mut w.body);
                around(k, e);
                return;
            }
        }
        if let Expr::Loop(l) = e {
            let k = self.loops.len();
            self.loops.push(json!({"kind":"loop"}));
            self.lstack.push(k);
            visit_mut::visit_expr_loop_mut(self, l);
            self.lstack.pop();
            l.body.stmts.insert(0, parse_loopinv(k));
            loopend(k, &mut l.body);
            if breaks(&l.body) {
                around(k, e);
            }
            return;
        }
        if let (Expr::Continue(c), Some(k)) = (&*e, self.lstack.last()) {
            if c.label.is_none() {
                let k = proc_macro2::Literal::usize_unsuffixed(*k);
                *e = parse_quote!({ __loopcont!(#k); continue });
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        for _ in 0..6 {
            if let Some((n, new)) = pat::apply(&self.rules, e) {
                if n.starts_with("pre:") {
                    break;
                }
                self.c(&n);
                *e = new;
            } else {
                break;
            }
        }
        self.builtin(e);
    }
}

/// places for ghost code before and after a loop
fn around(k: usize, e: &mut Expr) {
    let kl = proc_macro2::Literal::usize_unsuffixed(k);
    let x = e.clone();
    *e = parse_quote!({ __looppre!(#kl); #x __looppost!(#kl); });
}
/// the loop is left by `break` without a value
fn breaks(b: &Block) -> bool {
    struct B(bool);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            if b.expr.is_none() && b.label.is_none() {
                self.0 = true;
            }
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = B(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// `&x[a..]`, `&mut x[a..]`, `x[a..].iter()`, `x.iter().skip(a)`, and the same with `iter_mut`: leaves `&x`, `x.iter()` and gives `a`
fn take_start(e: &mut Expr) -> Option<Expr> {
    fn from(x: &mut Expr) -> Option<Expr> {
        let Expr::Index(i) = x else { return None };
        let Expr::Range(r) = &*i.index else { return None };
        if r.end.is_some() {
            return None;
        }
        let s = (**r.start.as_ref()?).clone();
        let b = (*i.expr).clone();
        *x = b;
        Some(s)
    }
    match e {
        Expr::Reference(r) => from(&mut r.expr),
        Expr::MethodCall(m) if (m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() => from(&mut m.receiver),
        Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 && matches!(&*m.receiver, Expr::MethodCall(i) if (i.method == "iter" || i.method == "iter_mut") && i.args.is_empty()) => {
            let s = m.args[0].clone();
            let b = (*m.receiver).clone();
            *e = b;
            Some(s)
        }
        _ => None,
    }
}

fn lit_strs(p: &Pat) -> Vec<LitStr> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => vec![s.clone()],
        Pat::Or(o) => {
            let v: Vec<Vec<LitStr>> = o.cases.iter().map(lit_strs).collect();
            if v.iter().any(|x| x.is_empty()) {
                return vec![];
            }
            v.concat()
        }
        Pat::Paren(p) => lit_strs(&p.pat),
        _ => vec![],
    }
}

/// match s { "a" | "b" => x, _ => y }   ->   if v_str_eq(s, "a") || v_str_eq(s, "b") { x } else { y }
fn str_match(m: &ExprMatch) -> Option<Expr> {
    let n = m.arms.len();
    let mut acc: Option<Expr> = None;
    for (k, a) in m.arms.iter().enumerate().rev() {
        if a.guard.is_some() {
            return None;
        }
        let b = &a.body;
        if k + 1 == n {
            acc = match &a.pat {
                Pat::Wild(_) => Some(parse_quote!({ #b })),
                Pat::Ident(i) if i.subpat.is_none() => Some(parse_quote!({ let #i = __m; #b })),
                _ => return None,
            };
            continue;
        }
        let ls = lit_strs(&a.pat);
        if ls.is_empty() {
            return None;
        }
        let c: Vec<Expr> = ls.iter().map(|l| if l.value().is_empty() { parse_quote!(__m.is_empty()) } else { parse_quote!(v_str_eq(__m, #l)) }).collect();
        let (f, r) = c.split_first().unwrap();
        let o = acc.unwrap();
        acc = Some(parse_quote!(if #f #(|| #r)* { #b } else #o));
    }
    let (s, acc) = (&m.expr, acc?);
    Some(parse_quote!({ let __m = #s.v_s(); #acc }))
}

fn len_of(e: Option<&Expr>) -> Option<Expr> {
    match e {
        Some(Expr::MethodCall(m)) if (m.method == "len" || m.method == "v_len") && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    }
}

fn map_collect(e: &Expr) -> Option<(Pat, Expr, Expr)> {
    let Expr::MethodCall(c) = e else { return None };
    if c.method != "collect" {
        return None;
    }
    let Expr::MethodCall(m) = &*c.receiver else { return None };
    let (Expr::MethodCall(i), Some(Expr::Closure(k))) = (&*m.receiver, m.args.first()) else { return None };
    if m.method != "map" || !(i.method == "iter" || i.method == "into_iter") || !i.args.is_empty() || k.inputs.len() != 1 {
        return None;
    }
    Some((strip_ty(&k.inputs[0]), (*m.receiver).clone(), (*k.body).clone()))
}

/// format!("a{}b{c}", x)  ->  parts: text or expression
fn format_parts(m: &Macro) -> Option<Vec<std::result::Result<String, Expr>>> {
    let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = a.first() else { return None };
    let l = l.value();
    let mut args = a.iter().skip(1);
    let mut out = vec![];
    let mut text = String::new();
    let mut it = l.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                text.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                text.push('}');
            }
            '{' => {
                let mut h = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => h.push(c),
                    }
                }
                if !text.is_empty() {
                    out.push(Ok(std::mem::take(&mut text)));
                }
                if h.is_empty() {
                    out.push(Err(args.next()?.clone()));
                } else {
                    out.push(Err(Expr::Path(ExprPath { attrs: vec![], qself: None, path: parse_str::<Ident>(&h).ok()?.into() })));
                }
            }
            c => text.push(c),
        }
    }
    if !text.is_empty() {
        out.push(Ok(text));
    }
    if args.next().is_some() {
        return None;
    }
    Some(out)
}

fn parse_loopinv(k: usize) -> Stmt {
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(__loopinv!(#k);)
}

fn loopend(k: usize, b: &mut Block) {
    if let Some(Stmt::Expr(_, sm)) = b.stmts.last_mut() {
        if sm.is_none() {
            *sm = Some(Default::default());
        }
    }
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    b.stmts.push(parse_quote!(__loopend!(#k);));
}

impl Rw {
    fn for_loop(&mut self, k: usize, f: ExprForLoop, start: Option<Expr>) -> Expr {
        let start: Expr = start.unwrap_or_else(|| parse_quote!(0));
        let n = format_ident!("__n{}", k);
        let v = format_ident!("__v{}", k);
        let kl = proc_macro2::Literal::usize_unsuffixed(k);
        let pat = &f.pat;
        let mut bstm = f.body.stmts.clone();
        if let Some(Stmt::Expr(_, sm)) = bstm.last_mut() {
            if sm.is_none() {
                *sm = Some(Default::default());
            }
        }
        let body = &bstm;
        let lbl = &f.label;
        let strx = match &*f.expr {
            Expr::MethodCall(m) if m.method == "char_indices" || m.method == "chars" => crate::norm(&m.receiver.to_token_stream()),
            _ => String::new(),
        };
        let indices = matches!(&*f.expr, Expr::MethodCall(m) if m.method == "char_indices");
        let (kind, over, pre, item): (&str, Expr, Option<Stmt>, Expr) = match &*f.expr {
            Expr::Reference(r) if r.mutability.is_some() => {
                let x = &r.expr;
                ("refmut", (**x).clone(), None, parse_quote!(&mut #x[#n]))
            }
            Expr::Reference(r) => {
                let x = &r.expr;
                ("ref", (**x).clone(), None, parse_quote!(&#x[#n]))
            }
            Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => {
                let x = &m.receiver;
                ("refmut", (**x).clone(), None, parse_quote!(&mut #x[#n]))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let x = &m.receiver;
                ("ref", (**x).clone(), None, parse_quote!(&#x[#n]))
            }
            // the indices of a vector
            Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) && g.start.as_ref().is_some_and(|s| s.to_token_stream().to_string() == "0") && len_of(g.end.as_deref()).is_some() => {
                let x = len_of(g.end.as_deref()).unwrap();
                ("ref", x, None, parse_quote!(#n))
            }
            Expr::MethodCall(m) if m.method == "char_indices" && m.args.is_empty() => {
                let x = &m.receiver;
                ("chars", parse_quote!(#v), Some(parse_quote!(let #v = v_char_indices(#x.v_s());)), parse_quote!(#v[#n]))
            }
            Expr::MethodCall(m) if m.method == "chars" && m.args.is_empty() => {
                let x = &m.receiver;
                ("chars", parse_quote!(#v), Some(parse_quote!(let #v = v_chars(#x.v_s());)), parse_quote!(#v[#n]))
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                let x = &m.receiver;
                ("val", parse_quote!(#v), Some(parse_quote!(let #v = #x;)), parse_quote!(vmove(&#v, #n)))
            }
            x => ("val", parse_quote!(#v), Some(parse_quote!(let #v = #x;)), parse_quote!(vmove(&#v, #n))),
        };
        let kind = if kind == "chars" && indices { "charidx" } else { kind };
        self.loops[k] = json!({"kind": kind, "over": crate::norm(&over.to_token_stream()), "pat": crate::norm(&pat.to_token_stream()),
            "iter": crate::norm(&f.expr.to_token_stream()), "str": strx});
        // a copied entry of the list of characters
        let pre = pre.into_iter();
        parse_quote!({
            let mut #n: usize = #start;
            #(#pre)*
            __looppre!(#kl);
            #lbl while #n < #over.len() {
                __loopinv!(#kl);
                let #pat = #item;
                #n = #n + 1;
                #(#body)*
                __loopend!(#kl);
            }
            __looppost!(#kl);
        })
    }

    fn builtin(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(m) => {
                let n = last(&m.mac.path);
                match n.as_str() {
                    "panic" | "todo" | "unimplemented" | "unreachable" => {
                        self.c("panic-site");
                        *e = parse_quote!(vabort(Ghost(__pc)));
                    }
                    "addr_of" | "addr_of_mut" => {
                        // addr_of!(*x): the address of what x refers to
                        if let Ok(Expr::Unary(u)) = m.mac.parse_body::<Expr>() {
                            if matches!(u.op, UnOp::Deref(_)) {
                                let mut x = (*u.expr).clone();
                                self.visit_expr_mut(&mut x);
                                self.c("addr-of");
                                *e = x;
                            }
                        }
                    }
                    "assert" => {
                        if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut c = a[0].clone();
                            self.visit_expr_mut(&mut c);
                            self.c("panic-site");
                            *e = parse_quote!(if !(#c) { vabort(Ghost(__pc)); });
                        }
                    }
                    "assert_eq" | "assert_ne" => {
                        if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut x = a[0].clone();
                            let mut y = a[1].clone();
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            self.c("panic-site");
                            *e = if n == "assert_eq" {
                                parse_quote!(if !(#x == #y) { vabort(Ghost(__pc)); })
                            } else {
                                parse_quote!(if #x == #y { vabort(Ghost(__pc)); })
                            };
                        }
                    }
                    "format" => {
                        if let Some(ps) = format_parts(&m.mac) {
                            let mut acc: Expr = parse_quote!(v_empty_string());
                            for p in ps {
                                let a: Expr = match p {
                                    Ok(t) => parse_quote!(#t),
                                    Err(mut x) => {
                                        self.visit_expr_mut(&mut x);
                                        parse_quote!(#x.v_s())
                                    }
                                };
                                acc = parse_quote!(v_cat(#acc, #a));
                            }
                            self.c("format");
                            *e = acc;
                        }
                    }
                    "vec" if m.mac.tokens.is_empty() => {
                        *e = parse_quote!(Vec::new());
                    }
                    "matches" => {
                        struct MM(Expr, Pat, Option<Expr>);
                        impl parse::Parse for MM {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let a = i.parse()?;
                                let _: Token![,] = i.parse()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    let _: Token![if] = i.parse()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _: Option<Token![,]> = i.parse()?;
                                Ok(MM(a, p, g))
                            }
                        }
                        if let Ok(MM(mut a, p, g)) = m.mac.parse_body::<MM>() {
                            self.visit_expr_mut(&mut a);
                            let g = g.map(|mut g| {
                                self.visit_expr_mut(&mut g);
                                quote!(if #g)
                            });
                            *e = parse_quote!(match #a { #p #g => true, _ => false });
                        }
                    }
                    _ => {}
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let b = &ix.expr;
                        let new: Expr = match (&r.start, &r.end) {
                            (None, Some(t)) => parse_quote!(v_slice_to(#b.v_s(), #t)),
                            (Some(f), None) => parse_quote!(v_slice_from(#b.v_s(), #f)),
                            (Some(f), Some(t)) => parse_quote!(v_slice(#b.v_s(), #f, #t)),
                            (None, None) => parse_quote!(v_slice_from(#b.v_s(), 0)),
                        };
                        self.c("str-slice");
                        *e = new;
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Call(m) = &*r.expr {
                    let n = m.func.to_token_stream().to_string();
                    if n.starts_with("v_slice") || n.starts_with("v_trim") {
                        *e = (*r.expr).clone();
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(a) = self.call_args.get(&format!(".{}", m.method)).cloned() {
                    for x in a {
                        m.args.push(parse_str(&x).unwrap());
                    }
                    self.c("heap-argument");
                }
                if self.panicky.contains(&format!(".{}", m.method)) {
                    m.args.push(parse_quote!(Ghost(__pc)));
                    self.c("panic-condition-of-callee");
                }
                self.method(m.clone(), e)
            }
            Expr::Call(c) => {
                if c.func.to_token_stream().to_string() == "astar" && c.args.len() == 5 {
                    let mut ok = true;
                    for (i, (t, o)) in [("NodeIndex", "bool"), ("VEdgeRef", "i32"), ("NodeIndex", "i32")].iter().enumerate() {
                        match &mut c.args[i + 2] {
                            Expr::Closure(k) => ok &= annotate_closure_to(k, Some(t), o),
                            _ => ok = false,
                        }
                    }
                    if ok {
                        let a = &c.args;
                        *e = parse_quote!(v_astar(#a));
                        self.c("astar");
                    }
                    return;
                }
                if let Expr::Path(p) = &*c.func {
                    if let Some(a) = self.call_args.get(&last(&p.path)).cloned() {
                        for x in a {
                            c.args.push(parse_str(&x).unwrap());
                        }
                        self.c("heap-argument");
                    }
                    let n = p.path.segments.len();
                    let l = p.path.segments[n - 1].ident.to_string();
                    let q = if n > 1 { format!("{}::{}", p.path.segments[n - 2].ident, l) } else { l.clone() };
                    let upper = n > 1 && p.path.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase();
                    if self.panicky.contains(&q) || (!upper && self.panicky.contains(&l)) {
                        c.args.push(parse_quote!(Ghost(__pc)));
                        self.c("panic-condition-of-callee");
                    }
                }
            }
            Expr::Struct(s) => {
                if let Some(d) = self.drop_fields.get(&last(&s.path)).cloned() {
                    let old = std::mem::take(&mut s.fields);
                    s.fields = old.into_iter().filter(|f| !d.contains(&f.member.to_token_stream().to_string())).collect();
                    self.c("dropped-field");
                }
                if let Some(f) = self.extra.get(&last(&s.path)).cloned() {
                    let (n, v) = f.split_once(':').unwrap();
                    let (n, v): (Ident, Expr) = (parse_str(n.trim()).unwrap(), parse_str(v).unwrap());
                    s.fields.push(parse_quote!(#n: #v));
                    self.c("ghost-field");
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| !lit_strs(&a.pat).is_empty()) => {
                if let Some(n) = str_match(m) {
                    *e = n;
                    self.c("str-match");
                }
            }
            // a pointer as a pointer
            Expr::Cast(c) => {
                if let (Expr::Path(p), Type::Path(t)) = (&*c.expr, &*c.ty) {
                    if last(&t.path) == "VPtr" && last(&p.path).ends_with("ptr") {
                        let x = (*c.expr).clone();
                        *e = x;
                        self.c("pointer-cast");
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && empty_lit(&b.right) => {
                let (l, ne) = (&b.left, matches!(b.op, BinOp::Ne(_)));
                *e = if ne { parse_quote!(!#l.v_s().is_empty()) } else { parse_quote!(#l.v_s().is_empty()) };
                self.c("str-empty");
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str_lit(&b.right) || is_str_lit(&b.left)) => {
                let (l, r) = if is_str_lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let l = if let Expr::Unary(u) = &**l { if matches!(u.op, UnOp::Deref(_)) { &u.expr } else { l } } else { l };
                *e = if matches!(b.op, BinOp::Ne(_)) { parse_quote!(!v_str_eq(#l.v_s(), #r)) } else { parse_quote!(v_str_eq(#l.v_s(), #r)) };
                self.c("str-eq");
            }
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::BitOr(_) | BinOp::BitOrAssign(_) => "v_bor",
                    BinOp::BitAnd(_) | BinOp::BitAndAssign(_) => "v_band",
                    BinOp::BitXor(_) | BinOp::BitXorAssign(_) => "v_bxor",
                    _ => return,
                };
                if truth(&b.left) || truth(&b.right) {
                    let (l, r, f) = (&b.left, &b.right, format_ident!("{}", f));
                    *e = match b.op {
                        BinOp::BitOr(_) | BinOp::BitAnd(_) | BinOp::BitXor(_) => parse_quote!(#f(#l, #r)),
                        _ => parse_quote!(#l = #f(#l, #r)),
                    };
                    self.c("bool-operator");
                }
            }
            // (a, b) = (c, d)
            Expr::Assign(a) => {
                if let (Expr::Tuple(l), Expr::Tuple(r)) = (&*a.left, &*a.right) {
                    if l.elems.len() == r.elems.len() {
                        let t: Vec<Ident> = (0..l.elems.len()).map(|i| format_ident!("__t{}", i)).collect();
                        let (le, re) = (l.elems.iter(), r.elems.iter());
                        *e = parse_quote!({ #(let #t = #re;)* #(#le = #t;)* });
                        self.c("tuple-assignment");
                    }
                }
            }
            Expr::Unsafe(_) => {}
            _ => {}
        }
    }

    /// is_ascii is also a method of str
    fn char_like(&self, r: &Expr) -> bool {
        matches!(r, Expr::Path(p) if p.path.get_ident().map_or(false, |i| i.to_string().len() == 1 || i == "ch" || i == "chr"))
    }

    fn method(&mut self, m: ExprMethodCall, e: &mut Expr) {
        let n = m.method.to_string();
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let set = |me: &mut Rw, e: &mut Expr, rule: &str, new: Expr| {
            me.c(rule);
            *e = new;
        };
        match (n.as_str(), a.len()) {
            ("unwrap", 0) | ("expect", 1) => set(self, e, "unwrap", parse_quote!(#r.v_unwrap(Ghost(__pc)))),
            ("trim", 0) | ("trim_start", 0) | ("trim_end", 0) => {
                let i = format_ident!("v_{}", n);
                set(self, e, "str-trim", parse_quote!(#i(#r.v_s())))
            }
            ("split_at", 1) => {
                let x = a[0];
                set(self, e, "str-split-at", parse_quote!(v_split_at(#r.v_s(), #x)))
            }
            ("len", 0) if matches!(&**r, Expr::Path(p) if p.path.get_ident().map_or(false, |i| i != "self" && !i.to_string().starts_with("__"))) => set(self, e, "len", parse_quote!(#r.v_len())),
            ("to_lowercase", 0) | ("to_uppercase", 0) | ("to_ascii_lowercase", 0) | ("to_ascii_uppercase", 0) => {
                let i = format_ident!("v_{}", n);
                set(self, e, "str-case", parse_quote!(#i(#r.v_s())))
            }
            ("eq_ignore_ascii_case", 1) => {
                let x = a[0];
                set(self, e, "str-case", parse_quote!(v_eq_ignore_ascii_case(#r.v_s(), #x.v_s())))
            }
            ("position", 1) if matches!(&**r, Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) => {
                if let (Expr::MethodCall(i), Expr::Closure(c)) = (&**r, a[0]) {
                    let (x, mut c) = (&i.receiver, c.clone());
                    annotate_closure(&mut c, None);
                    set(self, e, "iter-position", parse_quote!(v_vec_position(&#x, #c)))
                }
            }
            ("count", 0) if matches!(&**r, Expr::MethodCall(i) if i.method == "filter" && matches!(&*i.receiver, Expr::MethodCall(j) if j.method == "iter")) => {
                if let Expr::MethodCall(i) = &**r {
                    if let (Expr::MethodCall(j), Expr::Closure(c)) = (&*i.receiver, &i.args[0]) {
                        let (x, mut c) = (&j.receiver, c.clone());
                        annotate_closure(&mut c, None);
                        set(self, e, "iter-count", parse_quote!(v_vec_count(&#x, #c)))
                    }
                }
            }
            // x.chars().all(f), x.chars().any(f)
            ("all", 1) | ("any", 1) if matches!(&**r, Expr::MethodCall(i) if i.method == "chars" && i.args.is_empty()) => {
                if let Expr::MethodCall(i) = &**r {
                    let x = &i.receiver;
                    let mut arg = (*a[0]).clone();
                    if let Expr::Path(p) = &arg {
                        if p.path.segments.len() == 2 && p.path.segments[0].ident == "char" {
                            let meth = match last(&p.path).as_str() {
                                "is_whitespace" => "v_is_ws".to_string(),
                                o if CHAR_PREDS.contains(&o) => format!("v_{o}"),
                                _ => return,
                            };
                            let meth = format_ident!("{}", meth);
                            arg = parse_quote!(|c: char| c.#meth());
                        }
                    }
                    if let Expr::Closure(c) = &arg {
                        let ws = matches!((&c.inputs[0], &*c.body), (_, Expr::MethodCall(m)) if m.method == "v_is_ws" && c.inputs.len() == 1 && {
                            let p = strip_ty(&c.inputs[0]);
                            crate::norm(&p.to_token_stream()) == crate::norm(&m.receiver.to_token_stream())
                        });
                        if ws && n == "all" {
                            return set(self, e, "chars-all", parse_quote!(v_all_ws(#x.v_s())));
                        }
                        let mut c = c.clone();
                        if annotate_closure(&mut c, Some("char")) {
                            let f = format_ident!("v_chars_{}", n);
                            set(self, e, "chars-all", parse_quote!(#f(#x.v_s(), #c)))
                        }
                    }
                }
            }
            // x.chars().count() and the like
            ("count", 0) | ("last", 0) | ("position", 1) if matches!(&**r, Expr::MethodCall(i) if i.args.len() <= 1 && matches!(i.method.to_string().as_str(), "chars" | "char_indices" | "split" | "matches" | "lines" | "split_whitespace" | "filter")) => {
                if let Expr::MethodCall(i) = &**r {
                    let x = &i.receiver;
                    let im = i.method.to_string();
                    match (n.as_str(), im.as_str(), i.args.len()) {
                        ("count", "chars" | "char_indices", 0) => set(self, e, "str-count", parse_quote!(v_chars_count(#x.v_s()))),
                        ("count", "lines" | "split_whitespace", 0) => {
                            let f = format_ident!("v_{}_count", im);
                            set(self, e, "str-count", parse_quote!(#f(#x.v_s())))
                        }
                        ("count", "split" | "matches", 1) => {
                            let p = &i.args[0];
                            let f = match p {
                                Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => format_ident!("v_{}_count_s", im),
                                Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => format_ident!("v_{}_count_c", im),
                                _ => return,
                            };
                            set(self, e, "str-count", parse_quote!(#f(#x.v_s(), #p)))
                        }
                        ("last", "chars", 0) => set(self, e, "str-last", parse_quote!(v_chars_last(#x.v_s()))),
                        ("position", "chars", 0) => {
                            if let Expr::Closure(c) = a[0] {
                                let mut c = c.clone();
                                if annotate_closure(&mut c, Some("char")) {
                                    set(self, e, "str-position", parse_quote!(v_chars_position(#x.v_s(), #c)))
                                }
                            }
                        }
                        ("count", "filter", 1) => {
                            if let (Expr::MethodCall(j), Expr::Closure(c)) = (&*i.receiver, &i.args[0]) {
                                if j.method == "chars" && c.inputs.len() == 1 {
                                    // the closure gets a reference
                                    let mut c = c.clone();
                                    let x = &j.receiver;
                                    match &c.inputs[0] {
                                        Pat::Reference(p) => {
                                            let p = (*p.pat).clone();
                                            c.inputs[0] = p;
                                        }
                                        Pat::Ident(p) => {
                                            let (p, b) = (p.ident.clone(), c.body.clone());
                                            struct D(Ident);
                                            impl VisitMut for D {
                                                fn visit_expr_mut(&mut self, e: &mut Expr) {
                                                    visit_mut::visit_expr_mut(self, e);
                                                    if let Expr::Unary(u) = e {
                                                        if let (UnOp::Deref(_), Expr::Path(q)) = (&u.op, &*u.expr) {
                                                            if q.path.is_ident(&self.0) {
                                                                *e = (*u.expr).clone();
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                            let mut b = b;
                                            D(p).visit_expr_mut(&mut b);
                                            c.body = b;
                                        }
                                        _ => return,
                                    }
                                    if annotate_closure(&mut c, Some("char")) {
                                        set(self, e, "str-count", parse_quote!(v_chars_count_by(#x.v_s(), #c)))
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            (c, 0) if CHAR_PREDS.contains(&c) && !(c == "is_ascii" && !self.char_like(r)) => {
                let i = format_ident!("v_{}", c);
                set(self, e, "char-class", parse_quote!(#r.#i()))
            }
            ("is_whitespace", 0) => set(self, e, "char-class", parse_quote!(#r.v_is_ws())),
            ("is_ascii_digit", 0) => set(self, e, "char-class", parse_quote!(#r.v_is_digit10())),
            ("is_digit", 1) if a[0].to_token_stream().to_string() == "10" => {
                set(self, e, "char-class", parse_quote!(#r.v_is_digit10()))
            }
            ("is_digit", 1) => {
                let n = a[0];
                set(self, e, "char-class", parse_quote!(#r.v_is_digit_n(#n)))
            }
            ("find", 1) | ("starts_with", 1) | ("contains", 1) | ("trim_start_matches", 1) | ("split_once", 1) | ("strip_prefix", 1) | ("rfind", 1) | ("ends_with", 1) | ("trim_end_matches", 1) | ("trim_matches", 1) | ("strip_suffix", 1) | ("rsplit_once", 1) => {
                // the pool's find
                let rt = r.to_token_stream().to_string();
                if rt == "self" || rt.ends_with("pool") {
                    return;
                }
                // iterator receivers
                if let Expr::MethodCall(inner) = &**r {
                    let im = inner.method.to_string();
                    if n == "find" && (im == "iter_mut" || im == "iter") {
                        if let Expr::Closure(c) = a[0] {
                            let mut c = c.clone();
                            annotate_closure(&mut c, None);
                            let base = &inner.receiver;
                            let new: Expr = if im == "iter_mut" {
                                parse_quote!(v_find_mut(&mut #base, #c))
                            } else {
                                parse_quote!(v_find_ref(&#base, #c))
                            };
                            return set(self, e, "iter-find", new);
                        }
                        return;
                    }
                    if matches!(im.as_str(), "map" | "filter" | "chars" | "char_indices" | "values" | "keys") {
                        return;
                    }
                }
                let mut arg = (*a[0]).clone();
                // a list of characters
                if let Expr::Reference(x) = &arg {
                    match &*x.expr {
                        Expr::Array(_) => arg = (*x.expr).clone(),
                        Expr::Index(ix) if matches!(&*ix.expr, Expr::Array(_)) => arg = (*ix.expr).clone(),
                        Expr::Call(c) if c.func.to_token_stream().to_string() == "v_slice_from" => {
                            if let Some(Expr::MethodCall(m)) = c.args.first() {
                                if m.method == "v_s" && matches!(&*m.receiver, Expr::Array(_)) {
                                    arg = (*m.receiver).clone();
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if let Expr::Call(c) = &arg.clone() {
                    if c.func.to_token_stream().to_string() == "v_slice_from" {
                        if let Some(Expr::MethodCall(m)) = c.args.first() {
                            if m.method == "v_s" && matches!(&*m.receiver, Expr::Array(_)) {
                                arg = (*m.receiver).clone();
                            }
                        }
                    }
                }
                if let Expr::Array(ar) = &arg {
                    let mut alts: Option<Expr> = None;
                    for x in &ar.elems {
                        alts = Some(match alts {
                            None => parse_quote!(c == #x),
                            Some(o) => parse_quote!(#o || c == #x),
                        });
                    }
                    arg = parse_quote!(|c: char| #alts);
                }
                if let Expr::Path(p) = &arg {
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "char" {
                        let meth = match last(&p.path).as_str() {
                            "is_whitespace" => "v_is_ws".to_string(),
                            "is_ascii_digit" => "v_is_digit10".to_string(),
                            o if CHAR_PREDS.contains(&o) => format!("v_{o}"),
                            _ => return,
                        };
                        let meth = format_ident!("{}", meth);
                        arg = parse_quote!(|c: char| c.#meth());
                    }
                }
                if let Expr::Closure(c) = &arg {
                    let mut c = c.clone();
                    if !annotate_closure(&mut c, Some("char")) {
                        return;
                    }
                    let i = format_ident!("v_{}_by", n);
                    return set(self, e, "str-pattern", parse_quote!(#i(#r.v_s(), #c)));
                }
                let suffix = match &arg {
                    Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => "s",
                    Expr::Lit(_) => "c",
                    _ if n == "contains" => return set(self, e, "str-pattern", parse_quote!(#r.v_has(#arg))),
                    _ if matches!(n.as_str(), "find" | "rfind" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "split_once") => "x",
                    _ => "c",
                };
                let i = format_ident!("v_{}_{}", n, suffix);
                set(self, e, "str-pattern", parse_quote!(#i(#r.v_s(), #arg)))
            }
            ("then", 1) => {
                if let Expr::Closure(c) = a[0] {
                    if c.inputs.is_empty() {
                        let b = &c.body;
                        set(self, e, "bool-then", parse_quote!(if #r { Some(#b) } else { None }))
                    }
                }
            }
            ("then_some", 1) => {
                let b = a[0];
                set(self, e, "bool-then", parse_quote!({ let __x = #b; if #r { Some(__x) } else { None } }))
            }
            ("retain", 1) => {
                if let Expr::Closure(c) = a[0] {
                    let mut c = c.clone();
                    annotate_closure(&mut c, None);
                    set(self, e, "vec-retain", parse_quote!(v_retain(&mut #r, #c)))
                }
            }
            ("reverse", 0) => set(self, e, "vec-reverse", parse_quote!(v_reverse(&mut #r))),
            ("dedup", 0) => set(self, e, "vec-dedup", parse_quote!(v_dedup(&mut #r))),
            ("or_insert", 1) | ("or_insert_with", 1) => {
                if let Expr::MethodCall(i) = &**r {
                    if i.method == "entry" && i.args.len() == 1 {
                        let (x, k) = (&i.receiver, &i.args[0]);
                        let v: Expr = match a[0] {
                            Expr::Closure(c) if n == "or_insert_with" && c.inputs.is_empty() => (*c.body).clone(),
                            v if n == "or_insert" => v.clone(),
                            v => parse_quote!(#v()),
                        };
                        set(self, e, "map-entry", parse_quote!(#x.v_or_insert(#k, #v)))
                    }
                }
            }
            ("and_then", 1) => {
                if let Expr::Closure(c) = a[0] {
                    if c.inputs.len() == 1 {
                        let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                        set(self, e, "option-combinator", parse_quote!(match #r { Some(#p) => #b, None => None }))
                    }
                }
            }
            ("map", 1) => {
                if let Expr::MethodCall(inner) = &**r {
                    if matches!(inner.method.to_string().as_str(), "iter" | "values" | "keys" | "into_iter" | "chars" | "char_indices" | "split" | "filter" | "map" | "flat_map" | "iter_mut" | "split_whitespace") {
                        return;
                    }
                }
                if let Expr::Closure(c) = a[0] {
                    if c.inputs.len() == 1 {
                        let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                        set(self, e, "option-combinator", parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
                    }
                } else if let Expr::Path(f) = a[0] {
                    set(self, e, "option-combinator", parse_quote!(match #r { Some(__x) => Some(#f(__x)), None => None }))
                }
            }
            ("or", 1) => {
                let x = a[0];
                set(self, e, "option-combinator", parse_quote!(match #r { Some(__x) => Some(__x), None => #x }))
            }
            ("or_else", 1) => {
                if let Expr::Closure(c) = a[0] {
                    if c.inputs.is_empty() {
                        let b = &c.body;
                        set(self, e, "option-combinator", parse_quote!(match #r { Some(__x) => Some(__x), None => #b }))
                    }
                }
            }
            ("unwrap_or_else", 1) => {
                if let Expr::Closure(c) = a[0] {
                    if c.inputs.is_empty() {
                        let b = &c.body;
                        set(self, e, "option-combinator", parse_quote!(match #r { Some(__x) => __x, None => #b }))
                    }
                }
            }
            ("map_or", 2) => {
                if let Expr::Closure(c) = a[1] {
                    let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                    let d = a[0];
                    set(self, e, "option-combinator", parse_quote!(match #r { Some(#p) => #b, None => #d }))
                }
            }
            ("is_some_and", 1) => {
                if let Expr::Closure(c) = a[0] {
                    let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                    set(self, e, "option-combinator", parse_quote!(match #r { Some(#p) => #b, None => false }))
                }
            }
            ("is_none_or", 1) => {
                if let Expr::Closure(c) = a[0] {
                    let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                    set(self, e, "option-combinator", parse_quote!(match #r { Some(#p) => #b, None => true }))
                }
            }
            _ => {
                let _ = is_pred_method;
            }
        }
    }
}

fn is_str_lit(x: &Expr) -> bool {
    matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
fn empty_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) if l.value().is_empty())
}

/// certainly a truth value
fn truth(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => truth(&p.expr),
        Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => true,
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && truth(&u.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n.starts_with("is_") || n.starts_with("v_is_") || n.starts_with("v_has") || n.starts_with("contains")
        }
        Expr::Call(c) => {
            let n = c.func.to_token_stream().to_string();
            ["v_contains", "v_starts_with", "v_ends_with", "v_str_eq", "v_bor", "v_band", "v_bxor", "v_eq_ignore"].iter().any(|p| n.starts_with(p))
        }
        Expr::Macro(m) => m.mac.path.is_ident("matches"),
        _ => false,
    }
}

fn strip_ty(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}
