//! Specialisation of functions taking a closure: where a function `G` with a
//! generic `FO: Fn..` parameter has exactly one call site in its module and
//! the argument there is a closure, `G` is emitted with the captured
//! parameters of the caller in place of `FO`, and each call of it replaced by
//! the closure's body.  Anything that does not fit is left untouched (and
//! later reported as unsupported).
use crate::SrcFn;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

fn is_fn_bound(b: &TypeParamBound) -> bool {
    matches!(b, TypeParamBound::Trait(t) if matches!(t.path.segments.last().unwrap().ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce"))
}

/// generic parameters of `sig` bounded by a closure trait
fn fn_generics(sig: &Signature) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(is_fn_bound) { s.insert(t.ident.to_string()); }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounds.iter().any(is_fn_bound) { s.insert(crate::squash(&t.bounded_ty.to_token_stream())); }
            }
        }
    }
    s
}

struct Calls<'n>(&'n str, Vec<ExprCall>);
impl<'a, 'n> Visit<'a> for Calls<'n> {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident == self.0 { self.1.push(c.clone()); }
        }
        visit::visit_expr_call(self, c);
    }
}

struct Locals<'n>(&'n str, Vec<ExprClosure>);
impl<'a, 'n> Visit<'a> for Locals<'n> {
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if p.ident == self.0 {
                if let Expr::Closure(c) = &*i.expr { self.1.push(c.clone()); }
            }
        }
        visit::visit_local(self, l);
    }
}

struct Names { bound: BTreeSet<String>, used: BTreeSet<String>, bad: bool }
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.bound.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.segments.len() == 1 { self.used.insert(p.path.segments[0].ident.to_string()); }
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.bad = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.bad = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.bad = true; }
    fn visit_macro(&mut self, _: &'a Macro) { self.bad = true; }
}

struct Ren<'n>(&'n BTreeMap<String, String>);
impl<'n> VisitMut for Ren<'n> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 {
            let s = p.path.segments[0].ident.to_string();
            if let Some(x) = self.0.get(&s) { p.path.segments[0].ident = Ident::new(x, p.path.segments[0].ident.span()); }
        }
    }
}

struct ReplaceCall<'n> { name: &'n str, clo: &'n ExprClosure }
impl<'n> VisitMut for ReplaceCall<'n> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.name) && c.args.len() == self.clo.inputs.len() {
                    let mut stmts: Vec<Stmt> = vec![];
                    for (i, a) in c.args.iter().enumerate() {
                        let id = Ident::new(&format!("clo_a{}", i), proc_macro2::Span::call_site());
                        stmts.push(parse_quote!(let #id = #a;));
                    }
                    for (i, p) in self.clo.inputs.iter().enumerate() {
                        let id = Ident::new(&format!("clo_a{}", i), proc_macro2::Span::call_site());
                        stmts.push(parse_quote!(let #p = #id;));
                    }
                    match &*self.clo.body {
                        Expr::Block(b) => stmts.extend(b.block.stmts.iter().cloned()),
                        x => stmts.push(Stmt::Expr(x.clone(), None)),
                    }
                    let b = Block { brace_token: Default::default(), stmts };
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                }
            }
        }
    }
}

struct FixCaller<'n> { callee: &'n str, pos: usize, local: Option<String>, caps: Vec<String> }
impl<'n> VisitMut for FixCaller<'n> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if let Some(n) = &self.local {
            b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == n) && matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Closure(_)))));
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident == self.callee {
                let mut v: Vec<Expr> = c.args.iter().cloned().collect();
                let ins: Vec<Expr> = self.caps.iter().map(|x| { let i = Ident::new(x, proc_macro2::Span::call_site()); parse_quote!(#i) }).collect();
                v.splice(self.pos..self.pos + 1, ins);
                c.args = v.into_iter().collect();
            }
        }
    }
}

pub fn specialise(fns: &mut Vec<SrcFn>) {
    for gi in 0..fns.len() {
        if !fns[gi].self_ty.is_empty() || fns[gi].block.is_none() { continue; }
        let gens = fn_generics(&fns[gi].sig);
        if gens.len() != 1 { continue; }
        let gname = gens.iter().next().unwrap().clone();
        // position and name of the closure parameter
        let mut found = None;
        for (i, a) in fns[gi].sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = a {
                if crate::squash(&t.ty.to_token_stream()) == gname {
                    if let Pat::Ident(p) = &*t.pat { found = Some((i, p.ident.to_string())); }
                }
            }
        }
        let (pos, pname) = match found { Some(x) => x, None => continue };
        let callee = fns[gi].sig.ident.to_string();
        let mut sites: Vec<(usize, ExprCall)> = vec![];
        for (fi, f) in fns.iter().enumerate() {
            if let Some(b) = &f.block {
                let mut c = Calls(&callee, vec![]);
                c.visit_block(b);
                for x in c.1 { sites.push((fi, x)); }
            }
        }
        if sites.len() != 1 || sites[0].0 == gi { continue; }
        let (fi, call) = sites.remove(0);
        let (clo, local) = match call.args.iter().nth(pos) {
            Some(Expr::Closure(c)) => (c.clone(), None),
            Some(Expr::Path(p)) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                let mut l = Locals(&n, vec![]);
                l.visit_block(fns[fi].block.as_ref().unwrap());
                if l.1.len() != 1 { continue; }
                (l.1.remove(0), Some(n))
            }
            _ => continue,
        };
        // captured names: parameters of the caller
        let mut nm = Names { bound: BTreeSet::new(), used: BTreeSet::new(), bad: false };
        for p in &clo.inputs { nm.visit_pat(p); }
        nm.visit_expr(&clo.body);
        if nm.bad { continue; }
        let mut caps: Vec<(String, Type)> = vec![];
        for a in &fns[fi].sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &*t.pat {
                    let n = p.ident.to_string();
                    if nm.used.contains(&n) && !nm.bound.contains(&n) { caps.push((n, (*t.ty).clone())); }
                }
            }
        }
        let known: BTreeSet<&String> = caps.iter().map(|x| &x.0).collect();
        if nm.used.iter().any(|u| !known.contains(u) && !nm.bound.contains(u) && !u.chars().next().unwrap().is_uppercase()) { continue; }
        let map: BTreeMap<String, String> = caps.iter().map(|(n, _)| (n.clone(), format!("cap_{}", n))).collect();
        let mut c2 = clo.clone();
        Ren(&map).visit_expr_mut(&mut c2.body);
        // rewrite the callee
        {
            let g = &mut fns[gi];
            let mut inp: Vec<FnArg> = g.sig.inputs.iter().cloned().collect();
            let ins: Vec<FnArg> = caps.iter().map(|(n, t)| { let i = Ident::new(&map[n], proc_macro2::Span::call_site()); parse_quote!(#i: #t) }).collect();
            inp.splice(pos..pos + 1, ins);
            g.sig.inputs = inp.into_iter().collect();
            let keep: Vec<GenericParam> = g.sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == gname)).cloned().collect();
            g.sig.generics.params = keep.into_iter().collect();
            if let Some(w) = &mut g.sig.generics.where_clause {
                let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if crate::squash(&t.bounded_ty.to_token_stream()) == gname)).cloned().collect();
                w.predicates = keep.into_iter().collect();
            }
            let sg = g.sig.generics.clone();
            g.generics = vec![sg];
            ReplaceCall { name: &pname, clo: &c2 }.visit_block_mut(g.block.as_mut().unwrap());
        }
        let names: Vec<String> = caps.iter().map(|x| x.0.clone()).collect();
        FixCaller { callee: &callee, pos, local, caps: names }.visit_block_mut(fns[fi].block.as_mut().unwrap());
    }
}
