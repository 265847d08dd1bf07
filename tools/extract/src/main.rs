//! Mechanical extraction of functions and types of /repo/src for the deductive verifier.
//!
//! Reads a JSON request on stdin (which items, which rewrite rules), parses the sources with syn,
//! rewrites the selected items to the dialect accepted by Verus and prints them, with markers at the
//! places where contracts, loop invariants and ghost code are to be put. Nothing is dropped silently:
//! each applied rule is counted and reported.
mod inline;
mod pat;
mod rewrite;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn norm(t: &TokenStream) -> String {
    t.to_string().split_whitespace().collect::<Vec<_>>().join(" ")
}

fn nospace(t: TokenStream) -> String {
    t.to_string().replace(' ', "")
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = nospace(a.meta.to_token_stream());
        s.contains("cfg(test)") || s == "test" || s.contains("ledger_verif")
    })
}

#[derive(Clone)]
pub enum Found {
    Fn(ItemFn),
    Method { header: TokenStream, self_ty: String, trait_: Option<String>, others: Vec<ImplItem>, f: ImplItemFn },
    Struct(ItemStruct),
    Const(ItemConst),
    Enum(ItemEnum),
    AssocConst { header: TokenStream, c: ImplItemConst },
}

/// key -> item, for one file
pub fn index(items: &[Item], out: &mut BTreeMap<String, Found>) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                out.insert(f.sig.ident.to_string(), Found::Fn(f.clone()));
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                out.insert(format!("struct {}", s.ident), Found::Struct(s.clone()));
            }
            Item::Enum(s) if !is_test(&s.attrs) => {
                out.insert(format!("enum {}", s.ident), Found::Enum(s.clone()));
            }
            Item::Const(s) if !is_test(&s.attrs) => {
                out.insert(format!("const {}", s.ident), Found::Const(s.clone()));
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    index(its, out);
                }
            }
            Item::Impl(im) if !is_test(&im.attrs) => {
                // elided lifetimes and generics in the header are kept
                let (gi, _, wh) = im.generics.split_for_impl();
                let ty = &im.self_ty;
                let ty_name = match &**ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => nospace(t.to_token_stream()),
                };
                let (header, prefix, tr) = match &im.trait_ {
                    Some((_, p, _)) => (
                        quote!(impl #gi #p for #ty #wh),
                        format!("{} for {}", nospace(p.to_token_stream()), ty_name),
                        Some(nospace(p.to_token_stream())),
                    ),
                    None => (quote!(impl #gi #ty #wh), ty_name.clone(), None),
                };
                let others: Vec<ImplItem> = im
                    .items
                    .iter()
                    .filter(|i| matches!(i, ImplItem::Type(_)))
                    .cloned()
                    .collect();
                for i in &im.items {
                    match i {
                        ImplItem::Fn(f) if !is_test(&f.attrs) => {
                            out.insert(
                                format!("{}::{}", prefix, f.sig.ident),
                                Found::Method {
                                    header: header.clone(),
                                    self_ty: ty_name.clone(),
                                    trait_: tr.clone(),
                                    others: others.clone(),
                                    f: f.clone(),
                                },
                            );
                        }
                        ImplItem::Const(c) => {
                            out.insert(
                                format!("{}::const {}", prefix, c.ident),
                                Found::AssocConst { header: header.clone(), c: c.clone() },
                            );
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.insert(format!(".{}", c.method));
        visit::visit_expr_method_call(self, c);
    }
}

struct Lets(BTreeMap<String, String>);
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a Local) {
        let mut p = &l.pat;
        let mut ty = None;
        if let Pat::Type(t) = p {
            ty = Some(norm(&t.ty.to_token_stream()));
            p = &t.pat;
        }
        if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
            self.0.entry(norm(&init.expr.to_token_stream())).or_insert(i.ident.to_string());
            if let Some(t) = ty {
                self.0.entry(format!("ty {}", t)).or_insert(i.ident.to_string());
            }
        }
        if let (Pat::Ident(i), Some(init), None) = (p, &l.init, ty_of(l)) {
            // without a written type
            self.0.entry(format!("untyped {}", norm(&init.expr.to_token_stream()))).or_insert(i.ident.to_string());
        }
        visit::visit_local(self, l);
    }
    // the k-th argument of a call
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(f) = &*c.func {
            let f = f.path.segments.last().unwrap().ident.to_string();
            for (k, a) in c.args.iter().enumerate() {
                let mut a = a;
                while let Expr::Reference(r) = a {
                    a = &r.expr;
                }
                if let Expr::Path(p) = a {
                    if let Some(i) = p.path.get_ident() {
                        self.0.entry(format!("arg {} {}", f, k + 1)).or_insert(i.to_string());
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}
fn ty_of(l: &Local) -> Option<&Type> {
    match &l.pat {
        Pat::Type(t) => Some(&t.ty),
        _ => None,
    }
}

struct Pubify;
impl VisitMut for Pubify {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let req: Value = serde_json::from_str(&s).expect("request");
    let src = req["src"].as_str().unwrap();
    let mut files: BTreeMap<String, BTreeMap<String, Found>> = BTreeMap::new();
    let mut file_err = Map::new();
    for e in std::fs::read_dir(src).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            if name == "verif.rs" {
                continue;
            }
            let text = std::fs::read_to_string(&p).unwrap();
            match syn::parse_file(&text) {
                Ok(f) => {
                    let mut m = BTreeMap::new();
                    index(&f.items, &mut m);
                    files.insert(name, m);
                }
                Err(e) => {
                    file_err.insert(name, json!(e.to_string()));
                }
            }
        }
    }
    let known: BTreeSet<String> = req["known"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let global_rules = pat::parse_rules(&req["rules"]);
    let mut out = vec![];
    for item in req["items"].as_array().unwrap() {
        out.push(one(item, &files, &known, &global_rules));
    }
    let idx: BTreeMap<String, Vec<String>> =
        files.iter().map(|(k, v)| (k.clone(), v.keys().cloned().collect())).collect();
    println!("{}", json!({"items": out, "index": idx, "file_errors": file_err}));
}

fn one(
    item: &Value,
    files: &BTreeMap<String, BTreeMap<String, Found>>,
    known: &BTreeSet<String>,
    global: &[pat::Rule],
) -> Value {
    let id = item["id"].as_str().unwrap();
    let file = item["file"].as_str().unwrap();
    let sel = item["sel"].as_str().unwrap();
    // look in the named file first, then anywhere (an item may have been moved)
    let found = files.get(file).and_then(|m| m.get(sel)).or_else(|| {
        let mut c = files.values().filter_map(|m| m.get(sel));
        match (c.next(), c.next()) {
            (Some(x), None) => Some(x),
            _ => None,
        }
    });
    let Some(found) = found.cloned() else {
        return json!({"id": id, "found": false});
    };
    let assume = item["mode"] == "assume";
    // `%k` in a rule is the k-th parameter
    let mut rule_text = item["rules"].clone();
    let sig = match &found {
        Found::Fn(f) => Some(f.sig.clone()),
        Found::Method { f, .. } => Some(f.sig.clone()),
        _ => None,
    };
    if let (Some(sig), Some(a)) = (sig, rule_text.as_array_mut()) {
        let names: Vec<String> = sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { Some(norm(&t.pat.to_token_stream())) } else { None }).collect();
        for r in a.iter_mut() {
            for k in 1..3 {
                let mut t = r[k].as_str().unwrap().to_string();
                for (i, n) in names.iter().enumerate() {
                    t = t.replace(&format!("%{}", i + 1), n);
                }
                r[k] = json!(t);
            }
        }
    }
    let mut rules = pat::parse_rules(&rule_text);
    rules.extend(global.iter().cloned());
    match found {
        Found::Struct(mut s) => {
            let derives = nospace(s.attrs.iter().map(|a| a.to_token_stream()).collect());
            let copy = derives.contains("Copy") && derives.contains("Clone");
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            s.vis = parse_quote!(pub);
            let mut rw = rewrite::Rw::new(rules);
            rw.visit_item_struct_mut(&mut s);
            let attr = if copy { quote!(#[derive(Clone, Copy)]) } else { quote!() };
            let eqd = derives.contains("PartialEq");
            json!({"id": id, "found": true, "kind": "struct", "text": quote!(#attr #s).to_string(), "rules": rw.counts, "derive_eq": eqd, "derives": derives,
                "fields": s.fields.iter().map(|f| norm(&f.to_token_stream())).collect::<Vec<_>>() })
        }
        Found::Enum(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            json!({"id": id, "found": true, "kind": "enum", "text": s.to_token_stream().to_string(), "rules": {}})
        }
        Found::Const(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let mut rw = rewrite::Rw::new(rules);
            rw.visit_item_const_mut(&mut s);
            json!({"id": id, "found": true, "kind": "const", "text": s.to_token_stream().to_string(), "rules": rw.counts})
        }
        Found::AssocConst { header, mut c } => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            let mut rw = rewrite::Rw::new(rules);
            rw.visit_impl_item_const_mut(&mut c);
            json!({"id": id, "found": true, "kind": "const", "text": quote!(#header { #c }).to_string(), "rules": rw.counts})
        }
        Found::Fn(mut f) => {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
            let r = body(&mut f.sig, &mut f.block, item, files, known, rules, assume, file, None);
            finish(id, "fn", quote!(), vec![], f.to_token_stream(), &f.sig, r)
        }
        Found::Method { header, trait_, others, mut f, self_ty } => {
            f.attrs.clear();
            f.vis = if trait_.is_some() { Visibility::Inherited } else { parse_quote!(pub) };
            let r = body(&mut f.sig, &mut f.block, item, files, known, rules, assume, file, Some(&self_ty));
            let kind = if trait_.is_some() { "traitimpl" } else { "method" };
            let mut header_ts = header;
            // pointer types in headers do not occur; types are rewritten by name only
            if let Ok(mut im) = parse2::<ItemImpl>(quote!(#header_ts {})) {
                let mut rw = rewrite::Rw::new(vec![]);
                rw.visit_item_impl_mut(&mut im);
                let (gi, _, wh) = im.generics.split_for_impl();
                let ty = &im.self_ty;
                header_ts = match &im.trait_ {
                    Some((_, p, _)) => quote!(impl #gi #p for #ty #wh),
                    None => quote!(impl #gi #ty #wh),
                };
            }
            if let Some(h) = item["opts"]["impl_for"].as_str() {
                header_ts = h.parse().unwrap();
            }
            let others: Vec<TokenStream> = others.iter().map(|o| o.to_token_stream()).collect();
            finish(id, kind, header_ts, others, f.to_token_stream(), &f.sig, r)
        }
    }
}

struct BodyInfo {
    params: Vec<String>,
    has_self: bool,
    lets: BTreeMap<String, String>,
    nloops: usize,
    loops: Vec<Value>,
    counts: BTreeMap<String, usize>,
    calls: BTreeSet<String>,
    inlined: Vec<String>,
    orig: String,
}

#[allow(clippy::too_many_arguments)]
fn body(
    sig: &mut Signature,
    block: &mut Block,
    item: &Value,
    files: &BTreeMap<String, BTreeMap<String, Found>>,
    known: &BTreeSet<String>,
    rules: Vec<pat::Rule>,
    assume: bool,
    file: &str,
    self_ty: Option<&str>,
) -> BodyInfo {
    let orig = norm(&quote!(#sig #block));
    let mut rw = rewrite::Rw::new(rules);
    if let Some(a) = item["panicky"].as_array() {
        rw.panicky = a.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    }
    if let Some(o) = item["opts"]["struct_extra"].as_object() {
        for (k, v) in o {
            rw.extra.insert(k.clone(), v.as_str().unwrap().to_string());
            if self_ty == Some(k.as_str()) {
                rw.extra.insert("Self".into(), v.as_str().unwrap().to_string());
            }
        }
    }
    if let Some(o) = item["opts"]["objects"].as_array() {
        rw.objects = o.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    }
    if let Some(o) = item["opts"]["drop_fields"].as_object() {
        for (k, v) in o {
            let l: Vec<String> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            if self_ty == Some(k.as_str()) {
                rw.drop_fields.insert("Self".into(), l.clone());
            }
            rw.drop_fields.insert(k.clone(), l);
        }
    }
    if let Some(o) = item["opts"]["call_args"].as_object() {
        for (k, v) in o {
            rw.call_args.insert(k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect());
        }
    }
    let mut inlined = vec![];
    // parameters
    let mut params = vec![];
    let mut has_self = false;
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(_) => has_self = true,
            FnArg::Typed(t) => {
                if let Pat::Ident(p) = &*t.pat {
                    params.push(p.ident.to_string());
                } else {
                    let n = quote::format_ident!("__p{}", i);
                    let pat = t.pat.clone();
                    t.pat = parse_quote!(#n);
                    block.stmts.insert(0, parse_quote!(let #pat = #n;));
                    params.push(n.to_string());
                }
            }
        }
    }
    if let Some(k) = item["opts"]["ptr_params"].as_object() {
        // raw pointer parameters which stand for an exclusive (or shared) reference
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let n = norm(&t.pat.to_token_stream());
                let idx = params.iter().position(|p| *p == n).map(|i| format!("{}", i + 1)).unwrap_or_default();
                if let Some(v) = k.get(&idx) {
                    if matches!(&*t.ty, Type::Ptr(_)) {
                        t.ty = Box::new(parse_str(v.as_str().unwrap()).unwrap());
                        *rw.counts.entry("ptr-param".into()).or_default() += 1;
                    }
                }
            }
        }
    }
    if let Some(k) = item["opts"]["param_types"].as_object() {
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let n = norm(&t.pat.to_token_stream());
                let idx = params.iter().position(|p| *p == n).map(|i| format!("{}", i + 1)).unwrap_or_default();
                if let Some(v) = k.get(&idx) {
                    t.ty = Box::new(parse_str(v.as_str().unwrap()).unwrap());
                    *rw.counts.entry("param-type".into()).or_default() += 1;
                }
            }
        }
    }
    if let Some(r) = item["opts"]["recv"].as_str() {
        // the object behind the pointer instead of a reference to it
        if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) {
            sig.inputs[0] = parse_str::<FnArg>(r).unwrap();
            *rw.counts.entry("receiver".into()).or_default() += 1;
        }
    }
    if let Some(l) = item["opts"]["params"].as_array() {
        for x in l {
            sig.inputs.push(parse_str::<FnArg>(x.as_str().unwrap()).unwrap());
        }
    }
    if let Some(r) = item["opts"]["ret"].as_str() {
        let ty: Type = parse_str(r).unwrap();
        sig.output = parse_quote!(-> #ty);
    }
    if item["opts"]["no_generics"] == true {
        // the type parameters stand for one concrete type, which `param_types` names
        sig.generics = Default::default();
        *rw.counts.entry("one-type".into()).or_default() += 1;
    }
    if item["opts"]["ret_ptr"] == true && !assume {
        // a reference becomes the pointer which is returned
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            let e = if let Expr::Return(r) = &e { (**r.expr.as_ref().unwrap()).clone() } else { e };
            block.stmts.push(Stmt::Expr(parse_quote!((#e).v_to_ptr()), None));
            *rw.counts.entry("returned-pointer".into()).or_default() += 1;
        }
    }
    if item["opts"]["self_mut"] == true {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            *r = parse_quote!(&mut self);
            *rw.counts.entry("self-mut".into()).or_default() += 1;
        }
    }
    if assume {
        *block = parse_quote!({ unimplemented!() });
        rw.visit_signature_mut(sig);
    } else {
        inline::inline_unknown(block, files, known, file, self_ty, &mut inlined);
        rewrite::clean_block(block);
        rw.visit_signature_mut(sig);
        rw.visit_block_mut(block);
    }
    let mut lets = Lets(BTreeMap::new());
    lets.visit_block(block);
    // the parts of the tuple at the end
    if let Some(Stmt::Expr(Expr::Tuple(t), _)) = block.stmts.last() {
        for (k, e) in t.elems.iter().enumerate() {
            if let Expr::Path(p) = e {
                if let Some(i) = p.path.get_ident() {
                    lets.0.insert(format!("tail {}", k + 1), i.to_string());
                }
            }
        }
    }
    if let Some(Stmt::Expr(Expr::Path(p), _)) = block.stmts.last() {
        if let Some(i) = p.path.get_ident() {
            lets.0.insert("tail".to_string(), i.to_string());
        }
    }
    let mut calls = Calls(BTreeSet::new());
    calls.visit_block(block);
    if item["has_pc"] == true {
        sig.inputs.push(parse_quote!(Ghost(__cpc): Ghost<bool>));
    }
    block.stmts.insert(0, parse_quote!(__contract!();));
    if item["opts"]["end"].is_string() && !assume {
        // a place for ghost code at the end of the body
        if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last().cloned() {
            if let Some(e) = r.expr {
                block.stmts.pop();
                block.stmts.push(Stmt::Expr(*e, None));
            }
        }
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if matches!(sig.output, ReturnType::Type(..)) => {
                if !matches!(e, Expr::Return(_)) {
                    block.stmts.pop();
                    block.stmts.push(parse_quote!(let __r = #e;));
                    block.stmts.push(parse_quote!(__fnend!();));
                    block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
                }
            }
            Some(Stmt::Expr(_, sm)) => {
                if let Some(Stmt::Expr(_, s)) = block.stmts.last_mut() {
                    if s.is_none() {
                        *s = Some(Default::default());
                    }
                }
                let _ = sm;
                block.stmts.push(parse_quote!(__fnend!();));
            }
            _ => block.stmts.push(parse_quote!(__fnend!();)),
        }
    }
    if let ReturnType::Type(_, t) = &sig.output {
        let t = t.clone();
        sig.output = parse_quote!(-> VRet<#t>);
    }
    BodyInfo {
        params,
        has_self,
        lets: lets.0,
        nloops: rw.loops.len(),
        loops: rw.loops,
        counts: rw.counts,
        calls: calls.0,
        inlined,
        orig,
    }
}

fn finish(
    id: &str,
    kind: &str,
    header: TokenStream,
    others: Vec<TokenStream>,
    f: TokenStream,
    sig: &Signature,
    b: BodyInfo,
) -> Value {
    json!({"id": id, "found": true, "kind": kind, "header": header.to_string(),
        "others": others.iter().map(|o| o.to_string()).collect::<Vec<_>>(),
        "text": f.to_string(), "name": sig.ident.to_string(), "params": b.params, "has_self": b.has_self,
        "lets": b.lets, "nloops": b.nloops, "loops": b.loops, "rules": b.counts, "calls": b.calls, "inlined": b.inlined, "orig": b.orig})
}
