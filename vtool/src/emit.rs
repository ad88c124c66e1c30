//! Printer: Rust (syn AST) -> Verus text.  Only the subset of Rust used by the
//! functions under contract is supported; anything else is reported as an
//! error for that function (never silently dropped).
use crate::spec::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

#[derive(Default)]
pub struct Global {
    /// "Ty::name" or "name" -> set of mem modes
    pub mem_path: HashMap<String, BTreeSet<String>>,
    /// bare method name -> set of mem modes
    pub mem_method: HashMap<String, BTreeSet<String>>,
    pub alias: HashMap<String, String>,
    pub maps: Vec<(String, String)>,
    /// names (bare) of functions with a contract
    pub known: BTreeSet<String>,
    /// key -> canonical binding names
    pub names: BTreeMap<String, Vec<String>>,
    /// key -> kinds of its loops on the tree the contracts were written for
    pub kinds: BTreeMap<String, String>,
    /// key -> number of its `return`s there
    pub nrets: BTreeMap<String, usize>,
    /// (struct, field) -> type name
    pub fields: HashMap<(String, String), String>,
    /// (type, function) -> name of the returned type
    pub rets: HashMap<(String, String), String>,
    /// helper functions present in the sources without a contract: (module, key) -> fn
    pub helpers: HashMap<String, Helper>,
}

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}

pub struct Em<'a> {
    pub g: &'a Global,
    pub m: &'a ModSpec,
    pub f: &'a FnSpec,
    pub self_ty: String,
    pub free: bool,
    pub tsub: HashMap<String, String>,
    pub loop_k: usize,
    pub ret_k: usize,
    pub calls: Vec<(String, usize)>,
    pub counts: HashMap<String, usize>,
    pub placed: BTreeSet<usize>,
    pub unsafe_depth: usize,
    pub errors: Vec<String>,
    pub ret_is_option: bool,
    pub ren: HashMap<String, String>,
    pub callees: BTreeSet<String>,
    pub dyn_generics: Vec<String>,
    pub used_loops: BTreeSet<usize>,
    pub inline_depth: usize,
    pub inlined: BTreeSet<String>,
    pub top_exit: String,
    /// the exit hint, when the function has more `return`s than the one the contract was written for
    pub ret_exit: String,
    /// names declared by the body or by hints, and those in scope at the current point
    pub declared: BTreeSet<String>,
    pub in_scope: BTreeSet<String>,
    /// local variable -> type name, where it is evident
    pub vars: HashMap<String, String>,
}

/// identifiers in a piece of text
pub fn idents(t: &str) -> BTreeSet<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|x| x.starts_with(|c: char| c.is_alphabetic() || c == '_')).map(|x| x.to_string()).collect()
}

/// names a hint declares
pub fn ghosts(t: &str) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for p in t.split("let ghost ").skip(1) { r.extend(idents(p.split('=').next().unwrap())); }
    r
}

pub fn squash(t: &TokenStream) -> String {
    t.to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn last_seg_ty(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => last_seg_ty(&r.elem),
        _ => squash(&t.to_token_stream()),
    }
}

impl<'a> Em<'a> {
    pub fn err(&mut self, s: impl Into<String>) -> String {
        self.errors.push(s.into());
        "/*ERR*/".into()
    }

    fn unsupported(&mut self, what: &str, t: TokenStream) -> String {
        let line = t.span().start().line;
        self.err(format!("unsupported {} at source line {}: {}", what, line, t))
    }

    // ---------- types ----------
    pub fn path_str(&mut self, p: &Path, expr: bool) -> String {
        let mut segs: Vec<String> = vec![];
        for s in &p.segments {
            segs.push(s.ident.to_string());
        }
        let full = segs.join("::");
        for (a, b) in &self.g.maps {
            if let Some(pre) = a.strip_suffix("::") {
                if segs.len() > 1 && segs[0..segs.len() - 1].join("::") == pre {
                    return format!("{}{}", b, segs[segs.len() - 1]);
                }
            } else if &full == a {
                return b.clone();
            }
        }
        if self.free && segs.len() == 2 && segs[0] == "Self" {
            return segs[1].clone();
        }
        let n = p.segments.len();
        let mut out = String::new();
        if p.leading_colon.is_some() {
            out.push_str("::");
        }
        for (i, s) in p.segments.iter().enumerate() {
            if i > 0 {
                out.push_str("::");
            }
            let mut id = s.ident.to_string();
            if let Some(t) = self.tsub.get(&id) {
                if i == 0 {
                    id = t.clone();
                }
            }
            if self.free && id == "Self" && n == 1 {
                id = self.self_ty.clone();
            }
            out.push_str(&id);
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let drop = ["TritsT", "TritSliceT", "TritSliceMutT", "TritSlice", "TritSliceMut"].contains(&id.as_str());
                if !drop {
                    let mut args = vec![];
                    for x in &a.args {
                        match x {
                            GenericArgument::Type(t) => {
                                let t = self.ty(t);
                                args.push(t)
                            }
                            GenericArgument::Lifetime(_) => {}
                            GenericArgument::Const(e) => {
                                let e = self.expr(e);
                                args.push(e)
                            }
                            _ => {
                                let t = x.to_token_stream();
                                args.push(self.unsupported("generic argument", t));
                            }
                        }
                    }
                    if !args.is_empty() {
                        if expr {
                            out.push_str("::");
                        }
                        out.push_str(&format!("<{}>", args.join(", ")));
                    }
                }
            }
        }
        out
    }

    pub fn ty(&mut self, t: &Type) -> String {
        match t {
            Type::Path(p) if p.qself.is_none() => self.path_str(&p.path, false),
            Type::Reference(r) => {
                let inner = match &*r.elem {
                    Type::TraitObject(to) => {
                        let tr = squash(&to.bounds.to_token_stream());
                        let tr = self.g.maps.iter().find(|(a, _)| a.starts_with("dyn:") && tr.starts_with(&a[4..])).map(|(_, b)| b.clone()).unwrap_or(tr);
                        let n = format!("Dyn{}", self.dyn_generics.len());
                        self.dyn_generics.push(format!("{}: {}", n, tr));
                        n
                    }
                    e => self.ty(e),
                };
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, inner)
            }
            Type::Ptr(_) => "Ptr".into(),
            Type::Slice(s) => format!("[{}]", self.ty(&s.elem)),
            Type::Array(a) => {
                let e = self.ty(&a.elem);
                let n = self.expr(&a.len);
                format!("[{}; {}]", e, n)
            }
            Type::Tuple(t) => {
                let v: Vec<_> = t.elems.iter().map(|e| self.ty(e)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::ImplTrait(it) => {
                let s = squash(&it.bounds.to_token_stream());
                if let Some(r) = self.impl_map(&s, &it.bounds) {
                    if let Some(tr) = r.strip_prefix("gen:") {
                        let n = format!("Dyn{}", self.dyn_generics.len());
                        self.dyn_generics.push(format!("{}: {}", n, tr));
                        return n;
                    }
                    return r;
                }
                self.unsupported("impl type", t.to_token_stream())
            }
            Type::Never(_) => "!".into(),
            _ => self.unsupported("type", t.to_token_stream()),
        }
    }

    /// The mapped form of a closure bound; `$T` stands for the second component of `-> Option<(A, T)>`.
    pub fn impl_map(&mut self, s: &str, bounds: &Punctuated<TypeParamBound, Token![+]>) -> Option<String> {
        let mut n = String::new();
        let mut skip = false;
        for (i, c) in s.char_indices() {
            if s[i..].starts_with("<'") { skip = true; }
            if !skip { n.push(c); } else if c == '>' { skip = false; }
        }
        let s = n.strip_prefix("for").unwrap_or(&n).to_string();
        let (_, b) = self.g.maps.iter().find(|(a, _)| a.starts_with("impl:") && s.starts_with(&a[5..]))?.clone();
        let mut t = String::new();
        if b.contains("$T") {
            for x in bounds {
                if let TypeParamBound::Trait(tb) = x {
                    if let Some(PathSegment { arguments: PathArguments::Parenthesized(pa), .. }) = tb.path.segments.last() {
                        if let ReturnType::Type(_, rt) = &pa.output {
                            if let Type::Path(rp) = &**rt {
                                if let Some(PathSegment { arguments: PathArguments::AngleBracketed(ab), .. }) = rp.path.segments.last() {
                                    if let Some(GenericArgument::Type(Type::Tuple(tt))) = ab.args.first() {
                                        if tt.elems.len() == 2 { t = self.ty(&tt.elems[1]); }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if t.is_empty() { return None; }
        }
        Some(b.replace("$T", &t).replace("$", &s))
    }

    // ---------- patterns ----------
    pub fn ren_id(&self, s: &str) -> String {
        self.ren.get(s).cloned().unwrap_or_else(|| s.to_string())
    }

    fn pat(&mut self, p: &Pat) -> String {
        match p {
            Pat::Ident(i) => {
                let n = self.ren_id(&i.ident.to_string());
                let mut s = String::new();
                if i.by_ref.is_some() { s.push_str("ref "); }
                if i.mutability.is_some() { s.push_str("mut "); }
                s.push_str(&n);
                if let Some((_, sub)) = &i.subpat {
                    s.push_str(&format!(" @ {}", self.pat(sub)));
                }
                s
            }
            Pat::Wild(_) => "_".into(),
            Pat::Tuple(t) => {
                let v: Vec<_> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("({})", v.join(", "))
            }
            Pat::TupleStruct(t) => {
                let p = self.path_str(&t.path, true);
                let v: Vec<_> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("{}({})", p, v.join(", "))
            }
            Pat::Path(p) => self.path_str(&p.path, true),
            Pat::Lit(l) => l.lit.to_token_stream().to_string(),
            Pat::Type(t) => {
                let p = self.pat(&t.pat);
                let ty = self.ty(&t.ty);
                format!("{}: {}", p, ty)
            }
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)),
            Pat::Or(o) => {
                let v: Vec<_> = o.cases.iter().map(|e| self.pat(e)).collect();
                v.join(" | ")
            }
            Pat::Paren(p) => format!("({})", self.pat(&p.pat)),
            _ => self.unsupported("pattern", p.to_token_stream()),
        }
    }

    // ---------- calls ----------
    fn note_call(&mut self, name: &str) -> usize {
        let c = self.counts.entry(name.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        self.calls.push((name.to_string(), k));
        self.callees.insert(name.to_string());
        k
    }

    fn opt_list(&self, o: &str) -> Vec<String> {
        self.f.opts.get(o).map(|s| s.split(',').map(String::from).collect()).unwrap_or_default()
    }

    fn mode(&mut self, name: &str, set: Option<BTreeSet<String>>) -> String {
        if self.opt_list("nomem").iter().any(|x| x == name) {
            return "none".into();
        }
        for x in self.opt_list("memcall") {
            if x == name { return "rw".into(); }
        }
        match set {
            None => "none".into(),
            Some(s) => {
                let uses: BTreeSet<bool> = s.iter().map(|x| x != "none").collect();
                if uses.len() > 1 {
                    self.err(format!("ambiguous callee `{}` (with and without heap access)", name));
                }
                s.iter().next().unwrap().clone()
            }
        }
    }

    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> Vec<String> {
        a.iter().map(|e| self.expr(e)).collect()
    }

    pub fn key_of_path(&self, segs: &[String]) -> String {
        let n = segs.len();
        if n >= 2 {
            let mut t = segs[n - 2].clone();
            if t == "Self" { t = self.self_ty.clone(); }
            if let Some(x) = self.g.alias.get(&t) { t = x.clone(); }
            if t.chars().next().unwrap().is_uppercase() && (!self.free || self.g.mem_path.contains_key(&format!("{}::{}", t, segs[n - 1]))) {
                return format!("{}::{}", t, segs[n - 1]);
            }
        }
        segs[n - 1].clone()
    }

    fn call(&mut self, c: &ExprCall) -> String {
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            if segs.len() == 1 && last.chars().next().unwrap().is_uppercase() {
                // tuple struct / enum constructor
                let f = self.path_str(&p.path, true);
                let a = self.args(&c.args);
                return format!("{}({})", f, a.join(", "));
            }
            let key = self.key_of_path(&segs);
            // local closure-like parameter mapped to a trait method?
            if segs.len() == 1 {
                if let Some(m) = self.f.opts.get(&format!("callas:{}", last)) {
                    let m = m.clone();
                    let mut a = self.args(&c.args);
                    a.push("mem".into());
                    self.note_call(&last);
                    let id = self.ren_id(&last);
                    return format!("{}.{}({})", id, m, a.join(", "));
                }
            }
            if !self.g.known.contains(&last) {
                if let Some(h) = self.find_helper(&segs) {
                    return self.inline(&last, h, None, &c.args);
                }
            }
            let f = self.path_str(&p.path, true);
            let key = if f.starts_with("crate::") {
                let v: Vec<&str> = f.split("::").collect();
                let (a, b) = (v[v.len() - 2], v[v.len() - 1]);
                let full = f[7..].to_string();
                if self.g.mem_path.contains_key(&full) { full }
                else if a.chars().next().unwrap().is_uppercase() { format!("{}::{}", a, b) } else { b.to_string() }
            } else { key };
            let set = self.g.mem_path.get(&key).cloned();
            let mode = self.mode(&last, set);
            let mut a = self.args(&c.args);
            if mode != "none" { a.push("mem".into()); }
            self.note_call(&last);
            format!("{}({})", f, a.join(", "))
        } else {
            self.unsupported("call", c.to_token_stream())
        }
    }

    fn find_helper(&self, segs: &[String]) -> Option<Helper> {
        let last = segs.last().unwrap();
        if segs.len() == 1 {
            return self.g.helpers.get(&format!("{}|{}", self.m.module, last)).cloned();
        }
        let mut t = segs[segs.len() - 2].clone();
        if t == "Self" { t = self.self_ty.clone(); }
        self.g.helpers.get(&format!("{}|{}::{}", self.m.module, t, last)).cloned()
    }

    /// Inline a helper function that has no contract of its own.
    fn inline(&mut self, name: &str, h: Helper, recv: Option<&Expr>, args: &Punctuated<Expr, Token![,]>) -> String {
        if self.inline_depth > 3 {
            return self.err(format!("helper `{}` nested too deeply", name));
        }
        struct HasRet(bool);
        impl<'b> syn::visit::Visit<'b> for HasRet {
            fn visit_expr_return(&mut self, _: &'b ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'b ExprTry) { self.0 = true; }
            fn visit_expr_closure(&mut self, _: &'b ExprClosure) { self.0 = true; }
        }
        let mut hr = HasRet(false);
        syn::visit::Visit::visit_block(&mut hr, &h.block);
        if hr.0 {
            return self.err(format!("helper `{}` without contract returns early", name));
        }
        let mut pre = String::new();
        let mut all: Vec<String> = vec![];
        let mut params: Vec<(String, bool, String, bool)> = vec![];
        for i in &h.sig.inputs {
            match i {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => {
                    if let Pat::Ident(pi) = &*t.pat {
                        let tys = self.ty(&t.ty);
                        let is_ref_mut = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                        params.push((pi.ident.to_string(), pi.mutability.is_some(), tys, is_ref_mut));
                    } else {
                        return self.err(format!("helper `{}` parameter pattern", name));
                    }
                }
            }
        }
        for a in args { let s = self.expr(a); all.push(s); }
        if params.len() != all.len() {
            return self.err(format!("helper `{}` arity", name));
        }
        self.inline_depth += 1;
        self.inlined.insert(name.to_string());
        let saved = std::mem::take(&mut self.ren);
        let id = self.inlined.len() * 10 + self.inline_depth;
        for ((n, mt, ty, refmut), a) in params.iter().zip(all.iter()) {
            if *refmut {
                // reborrow place: substitute textually
                let place = if let Some(x) = a.strip_prefix("&mut ") { format!("({})", x.trim()) } else { a.clone() };
                let simple = a.strip_prefix("&mut ").is_some();
                if simple {
                    self.ren.insert(n.clone(), place);
                } else {
                    self.ren.insert(n.clone(), a.clone());
                }
            } else {
                let fresh = format!("inl{}_{}", id, n);
                pre.push_str(&format!("let {}{}: {} = {};\n", if *mt { "mut " } else { "" }, fresh, ty, a));
                self.ren.insert(n.clone(), fresh);
            }
        }
        if let Some(r) = recv {
            let ok = matches!(r, Expr::Path(p) if p.path.is_ident("self"));
            if !ok {
                self.ren = saved;
                self.inline_depth -= 1;
                return self.err(format!("helper method `{}` on a receiver other than self", name));
            }
        }
        let body = self.block_inner(&h.block);
        self.ren = saved;
        self.inline_depth -= 1;
        format!("{{\n{}{}}}", pre, body)
    }

    pub fn canon_ty(&self, t: &str) -> String {
        let t = if t == "Self" { self.self_ty.split('<').next().unwrap().to_string() } else { t.to_string() };
        self.g.alias.get(&t).cloned().unwrap_or(t)
    }

    /// Name of the type of an expression where it is evident from declarations.
    pub fn type_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if n == "self" && !self.free { return Some(self.canon_ty("Self")); }
                self.vars.get(&n).cloned()
            }
            Expr::Field(f) => {
                let b = self.type_of(&f.base)?;
                let m = match &f.member { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() };
                self.g.fields.get(&(b, m)).map(|t| self.canon_ty(t))
            }
            Expr::MethodCall(c) => {
                let b = self.type_of(&c.receiver)?;
                let m = c.method.to_string();
                if m == "clone" { return Some(b); }
                self.g.rets.get(&(b, m)).map(|t| self.canon_ty(t))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n >= 2 {
                        let t = self.canon_ty(&p.path.segments[n - 2].ident.to_string());
                        return self.g.rets.get(&(t, p.path.segments[n - 1].ident.to_string())).map(|t| self.canon_ty(t));
                    }
                }
                None
            }
            Expr::Struct(s) => Some(self.canon_ty(&s.path.segments.last().unwrap().ident.to_string())),
            Expr::Reference(r) => self.type_of(&r.expr),
            Expr::Paren(r) => self.type_of(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.type_of(&u.expr),
            _ => None,
        }
    }

    fn method(&mut self, c: &ExprMethodCall) -> String {
        let name = c.method.to_string();
        if !self.g.known.contains(&name) {
            if let Expr::Path(p) = &*c.receiver {
                if p.path.is_ident("self") {
                    let k = format!("{}|{}::{}", self.m.module, self.self_ty, name);
                    if let Some(h) = self.g.helpers.get(&k).cloned() {
                        return self.inline(&name, h, Some(&c.receiver), &c.args);
                    }
                }
            }
        }
        let look = self.f.opts.get(&format!("meth:{}", name)).filter(|y| self.g.mem_method.contains_key(*y)).unwrap_or(&name).clone();
        let mut set = self.g.mem_method.get(&look).cloned();
        if let Some(t) = self.type_of(&c.receiver) {
            if let Some(x) = self.g.mem_path.get(&format!("{}::{}", t, look)) { set = Some(x.clone()); }
        }
        let mut mode = self.mode(&name, set);
        let r = self.atom(&c.receiver);
        for x in self.opt_list("nomemrecv") {
            if let Some((rr, nn)) = x.split_once('.') {
                if rr == r.replace("self.", "") && nn == name { mode = "none".into(); }
            }
        }
        let mut a = self.args(&c.args);
        let rk = format!("recvmap:{}.{}", squash(&c.receiver.to_token_stream()), name);
        if let Some(f) = self.f.opts.get(&rk) {
            let f = f.clone();
            self.note_call(&name);
            let mut b = vec![r];
            b.extend(a);
            return format!("{}({})", f, b.join(", "));
        }
        if mode != "none" { a.push("mem".into()); }
        self.note_call(&name);
        let mut nm = name.clone();
        for (x, y) in &self.g.maps {
            if x == &format!(".{}", name) { nm = y.clone(); }
        }
        if let Some(y) = self.f.opts.get(&format!("meth:{}", name)) { nm = y.clone(); }
        let tf = match &c.turbofish {
            Some(t) => {
                let v: Vec<String> = t.args.iter().map(|x| if let GenericArgument::Type(t) = x { self.ty(t) } else { String::new() }).collect();
                format!("::<{}>", v.join(", "))
            }
            None => String::new(),
        };
        format!("{}.{}{}({})", r, nm, tf, a.join(", "))
    }

    fn atom(&mut self, e: &Expr) -> String {
        let s = self.expr(e);
        match e {
            Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_)
            | Expr::Paren(_) | Expr::Tuple(_) | Expr::Array(_) => s,
            _ => format!("({})", s),
        }
    }

    fn cmp_kind(&self, l: &str, r: &str) -> Option<String> {
        let mut lists: Vec<(String, Vec<String>)> = self.m.cmp.clone();
        for (k, v) in &self.f.opts {
            if let Some(kind) = k.strip_prefix("cmp:") {
                lists.insert(0, (kind.to_string(), v.split(',').map(String::from).collect()));
            }
        }
        for (k, subs) in lists {
            for s in subs {
                let hit = |t: &str| -> bool {
                    if let Some(x) = s.strip_prefix("=") { t.trim_matches(|c| c == '(' || c == ')' || c == '*') == x }
                    else if let Some(x) = s.strip_prefix("$") { t.ends_with(x) }
                    else { t.contains(&s) }
                };
                if hit(l) || hit(r) { return Some(k); }
            }
        }
        None
    }

    fn binary(&mut self, b: &ExprBinary) -> String {
        use BinOp::*;
        let l = self.atom(&b.left);
        let r = self.atom(&b.right);
        let op = b.op.to_token_stream().to_string();
        if matches!(b.op, Eq(_) | Ne(_) | Le(_) | Lt(_) | Ge(_) | Gt(_)) {
            if let Some(k) = self.cmp_kind(&l, &r) {
                match (k.as_str(), &b.op) {
                    ("ptr", Eq(_)) => return format!("{}.ptr_eq({})", l, r),
                    ("ptr", Ne(_)) => return format!("!{}.ptr_eq({})", l, r),
                    ("ptr", Le(_)) => return format!("{}.ptr_le({})", l, r),
                    ("ptr", Lt(_)) => return format!("!{}.ptr_le({})", r, l),
                    ("ptr", Ge(_)) => return format!("{}.ptr_le({})", r, l),
                    ("ptr", Gt(_)) => return format!("!{}.ptr_le({})", l, r),
                    ("trits", Eq(_)) => { self.note_call("partial_eq"); return format!("{}.partial_eq(&{}, mem)", l, r) }
                    ("trits", Ne(_)) => { self.note_call("partial_eq"); return format!("!{}.partial_eq(&{}, mem)", l, r) }
                    ("none", _) => {}
                    _ => return self.unsupported("comparison", b.to_token_stream()),
                }
            }
        }
        format!("{} {} {}", l, op, r)
    }

    /// A failing assertion: forbidden, or (opt `mayfail=COND`, only assertions also present in release
    /// builds) allowed only when COND holds.
    fn rust_fail(&self, name: &str) -> String {
        match self.f.opts.get("mayfail") {
            Some(c) if !name.starts_with("debug_") => format!("proof {{ assert({}); }} crate::mem::rust_abort();", c),
            _ => "crate::mem::rust_panic();".into(),
        }
    }

    fn mac(&mut self, m: &Macro) -> String {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        match name.as_str() {
            "assert" | "debug_assert" => match p.parse2(m.tokens.clone()) {
                Ok(a) if !a.is_empty() => {
                    let c = self.expr(&a[0]);
                    format!("if !({}) {{ {} }}", c, self.rust_fail(&name))
                }
                _ => self.unsupported("macro", m.to_token_stream()),
            },
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => match p.parse2(m.tokens.clone()) {
                Ok(a) if a.len() >= 2 => {
                    let ne = name.ends_with("ne");
                    let e = ExprBinary {
                        attrs: vec![],
                        left: Box::new(a[0].clone()),
                        op: if ne { BinOp::Ne(Default::default()) } else { BinOp::Eq(Default::default()) },
                        right: Box::new(a[1].clone()),
                    };
                    let c = self.binary(&e);
                    format!("if !({}) {{ {} }}", c, self.rust_fail(&name))
                }
                _ => self.unsupported("macro", m.to_token_stream()),
            },
            "panic" | "unreachable" | "unimplemented" | "todo" => "crate::mem::rust_panic()".into(),
            "vec" => {
                if let Ok(a) = p.parse2(m.tokens.clone()) {
                    let v = self.args(&a);
                    return format!("vec![{}]", v.join(", "));
                }
                let rp = |i: syn::parse::ParseStream| -> Result<(Expr, Expr)> {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                };
                match rp.parse2(m.tokens.clone()) {
                    Ok((a, b)) => {
                        let a = self.expr(&a);
                        let b = self.expr(&b);
                        match self.f.opts.get("vec") {
                            Some(f) => format!("{}({}, {}, mem)", f, a, b),
                            None => format!("vstd::std_specs::vec::vec_from_elem({}, {})", a, b),
                        }
                    }
                    _ => self.unsupported("macro", m.to_token_stream()),
                }
            }
            // write!(f, "{}", x): the Display impl of x
            "write" => match p.parse2(m.tokens.clone()) {
                Ok(a) if a.len() == 3 && squash(&a[1].to_token_stream()) == "\"{}\"" => {
                    let f = self.expr(&a[0]);
                    let x = self.expr(&a[2]);
                    self.note_call("fmt_display");
                    format!("({}).fmt_display({}, mem)", x, f)
                }
                _ => self.unsupported("macro", m.to_token_stream()),
            },
            "println" | "print" | "eprintln" | "eprint" => "()".into(),
            _ => self.unsupported("macro", m.to_token_stream()),
        }
    }

    pub fn expr(&mut self, e: &Expr) -> String {
        match e {
            Expr::Lit(l) => l.lit.to_token_stream().to_string(),
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
                    let id = p.path.segments[0].ident.to_string();
                    if let Some(r) = self.ren.get(&id) { return r.clone(); }
                    // a function used as a value
                    if let Some(r) = self.f.opts.get(&format!("val:{}", id)) { return r.clone(); }
                }
                self.path_str(&p.path, true)
            }
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Binary(b) => match b.op {
                BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
                | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) => {
                    let op = b.op.to_token_stream().to_string();
                    let op = op.trim_end_matches('=').trim();
                    let l = self.expr(&b.left);
                    let r = self.atom(&b.right);
                    format!("{} = {} {} {}", l, l, op, r)
                }
                _ => self.binary(b),
            },
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    let x = self.atom(&u.expr);
                    if self.unsafe_depth > 0 { format!("{}.read(mem)", x) } else { format!("*{}", x) }
                }
                UnOp::Not(_) => format!("!{}", self.atom(&u.expr)),
                UnOp::Neg(_) => {
                    if let Expr::Lit(l) = &*u.expr { format!("-{}", l.lit.to_token_stream()) } else { format!("-{}", self.atom(&u.expr)) }
                }
                _ => self.unsupported("unary", e.to_token_stream()),
            },
            Expr::Assign(a) => {
                if self.unsafe_depth > 0 {
                    if let Expr::Unary(u) = &*a.left {
                        if let UnOp::Deref(_) = u.op {
                            let p = self.atom(&u.expr);
                            let v = self.expr(&a.right);
                            return format!("{}.write({}, mem)", p, v);
                        }
                    }
                }
                let l = self.expr(&a.left);
                let r = self.expr(&a.right);
                format!("{} = {}", l, r)
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(c) => self.method(c),
            Expr::Field(f) => {
                let b = self.atom(&f.base);
                format!("{}.{}", b, f.member.to_token_stream())
            }
            Expr::Index(i) => {
                let b = self.atom(&i.expr);
                let x = self.expr(&i.index);
                format!("{}[{}]", b, x)
            }
            Expr::Range(r) => {
                let a = r.start.as_ref().map(|x| self.atom(x)).unwrap_or_default();
                let b = r.end.as_ref().map(|x| self.atom(x)).unwrap_or_default();
                let d = if matches!(r.limits, RangeLimits::Closed(_)) { "..=" } else { ".." };
                format!("{}{}{}", a, d, b)
            }
            Expr::Cast(c) => {
                let x = self.atom(&c.expr);
                let t = self.ty(&c.ty);
                format!("(#[verifier::truncate] ({} as {}))", x, t)
            }
            Expr::Tuple(t) => {
                let v: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Expr::Array(t) => {
                let v: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect();
                format!("[{}]", v.join(", "))
            }
            Expr::Repeat(r) => {
                let a = self.expr(&r.expr);
                let b = self.expr(&r.len);
                format!("[{}; {}]", a, b)
            }
            Expr::Struct(s) => {
                let p = self.path_str(&s.path, true);
                let mut v = vec![];
                for f in &s.fields {
                    let n = f.member.to_token_stream().to_string();
                    if n == "phantom" { continue; }
                    let x = self.expr(&f.expr);
                    v.push(format!("{}: {}", n, x));
                }
                if let Some(r) = &s.rest {
                    let x = self.expr(r);
                    v.push(format!("..{}", x));
                }
                format!("{} {{ {} }}", p, v.join(", "))
            }
            Expr::Reference(r) => {
                let x = self.atom(&r.expr);
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, x)
            }
            Expr::If(i) => {
                let c = self.expr(&i.cond);
                let c = if let Expr::Struct(_) = &*i.cond { format!("({})", c) } else { c };
                let t = self.block(&i.then_branch);
                let e = match &i.else_branch {
                    Some((_, e)) => format!(" else {}", match &**e {
                        Expr::Block(_) | Expr::If(_) => self.expr(e),
                        o => format!("{{ {} }}", self.expr(o)),
                    }),
                    None => String::new(),
                };
                format!("if {} {}{}", c, t, e)
            }
            Expr::Let(l) => {
                let p = self.pat(&l.pat);
                let x = self.expr(&l.expr);
                format!("let {} = {}", p, x)
            }
            Expr::Match(m) => {
                let x = self.expr(&m.expr);
                let mut s = format!("match {} {{\n", x);
                for a in &m.arms {
                    let p = self.pat(&a.pat);
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)), None => String::new() };
                    // an arm that is an expression is a block of one: hints at calls in it stay in the arm
                    let b = match &*a.body {
                        Expr::Block(b) => self.block(&b.block),
                        e => { let one = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] }; self.block_inner(&one) }
                    };
                    s.push_str(&format!("{}{} => {{ {} }}\n", p, g, b));
                }
                s.push('}');
                s
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::Unsafe(u) => {
                self.unsafe_depth += 1;
                let s = self.block(&u.block);
                self.unsafe_depth -= 1;
                s
            }
            Expr::Return(r) => {
                let k = self.ret_k;
                self.ret_k += 1;
                let h = self.take_hint(&format!("return {}", k));
                let v = match &r.expr { Some(x) => self.expr(x), None => String::new() };
                if h.is_empty() && !self.ret_exit.is_empty() && !v.is_empty()
                    && idents(&self.ret_exit).iter().all(|x| !self.declared.contains(x) || self.in_scope.contains(x)) {
                    format!("{{ let tail__ = {}; {} return tail__ }}", v, self.ret_exit)
                } else if h.is_empty() {
                    format!("return {}", v)
                } else {
                    format!("{{ let ret__ = {}; {} return ret__ }}", if v.is_empty() { "()".into() } else { v }, h)
                }
            }
            Expr::Break(b) => match &b.expr {
                None => "break".into(),
                Some(x) => format!("break {}", self.expr(x)),
            },
            Expr::Continue(_) => "continue".into(),
            Expr::Try(t) => {
                let k = self.note_call("?");
                let _ = k;
                let x = self.expr(&t.expr);
                if self.ret_is_option {
                    format!("(match {} {{ Some(v__) => v__, None => return None }})", x)
                } else {
                    format!("(match {} {{ Ok(v__) => v__, Err(e__) => return Err(e__) }})", x)
                }
            }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::While(w) => {
                let k = self.loop_k;
                self.loop_k += 1;
                let pre = self.take_hint(&format!("loop {} pre", k));
                let c = self.expr(&w.cond);
                let cl = self.loop_clauses(k);
                let st = self.take_hint(&format!("loop {} start", k));
                let body = self.block_inner(&w.body);
                let en = self.take_hint(&format!("loop {} end", k));
                let post = self.take_hint(&format!("loop {} post", k));
                format!("{{\n{}while {}\n{}{{\n{}{}{}}}\n{}}}", pre, c, cl, st, body, en, post)
            }
            Expr::Loop(w) => {
                let k = self.loop_k;
                self.loop_k += 1;
                let pre = self.take_hint(&format!("loop {} pre", k));
                let cl = self.loop_clauses(k);
                let st = self.take_hint(&format!("loop {} start", k));
                let body = self.block_inner(&w.body);
                let en = self.take_hint(&format!("loop {} end", k));
                let post = self.take_hint(&format!("loop {} post", k));
                format!("{{\n{}loop\n{}{{\n{}{}{}}}\n{}}}", pre, cl, st, body, en, post)
            }
            Expr::ForLoop(f) => self.for_loop(f),
            // a stray `;`
            Expr::Verbatim(t) if t.is_empty() => "()".to_string(),
            _ => self.unsupported("expression", e.to_token_stream()),
        }
    }

    fn loop_clauses(&mut self, k: usize) -> String {
        if self.inline_depth > 0 {
            self.err("loop inside a helper without contract");
        }
        match self.f.loops.get(&k) {
            Some(s) => { self.used_loops.insert(k); s.clone() }
            None => { self.err(format!("loop {} has no invariant", k)); String::new() }
        }
    }

    pub fn take_hint(&mut self, at: &str) -> String {
        let mut s = String::new();
        for (i, (w, t)) in self.f.hints.iter().enumerate() {
            if w == at && !self.placed.contains(&i) {
                self.placed.insert(i);
                s.push_str(t);
                if at != "exit" { self.in_scope.extend(ghosts(t)); }
            }
        }
        s
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> String {
        let k = self.loop_k;
        self.loop_k += 1;
        // peel .rev() / .step_by(n) / .iter() / .chars()
        let mut rev = false;
        let mut step: Option<String> = None;
        let mut e: &Expr = &f.expr;
        let mut iter = false;
        let mut chars = false;
        loop {
            match e {
                Expr::Paren(p) => e = &p.expr,
                Expr::MethodCall(c) if c.method == "rev" && c.args.is_empty() => { rev = true; e = &c.receiver; }
                Expr::MethodCall(c) if c.method == "step_by" => { step = Some(self.expr(&c.args[0])); e = &c.receiver; }
                Expr::MethodCall(c) if (c.method == "iter" || c.method == "iter_mut") && c.args.is_empty() => { iter = true; e = &c.receiver; }
                Expr::MethodCall(c) if c.method == "chars" => { chars = true; e = &c.receiver; }
                _ => break,
            }
        }
        let it = format!("it{}", k);
        let end = format!("end{}", k);
        let pat = self.pat(&f.pat);
        let pre = self.take_hint(&format!("loop {} pre", k));
        let cl;
        let head;
        let bind;
        let inc;
        let cond;
        match e {
            Expr::Range(r) if !iter && !chars => {
                let a = r.start.as_ref().map(|x| self.atom(x)).unwrap_or("0".into());
                let b = match &r.end { Some(x) => self.atom(x), None => return self.unsupported("open range loop", f.expr.to_token_stream()) };
                let closed = matches!(r.limits, RangeLimits::Closed(_));
                if rev {
                    if closed || step.is_some() { return self.unsupported("range loop", f.expr.to_token_stream()); }
                    head = format!("let {}: usize = {};\nlet mut {}: usize = {};\n", end, a, it, b);
                    cond = format!("{} > {}", it, end);
                    bind = format!("{} = {} - 1;\nlet {} = {};\n", it, it, pat, it);
                    inc = String::new();
                } else {
                    let b = if closed { format!("{} + 1", b) } else { b };
                    head = format!("let mut {}: usize = {};\nlet {}: usize = {};\n", it, a, end, b);
                    cond = format!("{} < {}", it, end);
                    bind = format!("let {} = {};\n{} = {} + {};\n", pat, it, it, it, step.unwrap_or("1".into()));
                    inc = String::new();
                }
            }
            _ => {
                if rev || step.is_some() { return self.unsupported("loop iterator", f.expr.to_token_stream()); }
                let formut = self.opt_list("formut").iter().any(|x| x == &k.to_string());
                let x = self.expr(e);
                let sq = format!("seq{}", k);
                if self.opt_list("foriter").iter().any(|x| x == &k.to_string()) {
                    // `for p in it` over a mutable reference to an iterator
                    let cl = self.loop_clauses(k);
                    let st0 = self.take_hint(&format!("loop {} top", k));
                    let st = self.take_hint(&format!("loop {} start", k));
                    let body = self.block_inner(&f.body);
                    let en = self.take_hint(&format!("loop {} end", k));
                    let post = self.take_hint(&format!("loop {} post", k));
                    return format!("{{\n{}loop\n{}{{\n{}let {} = match {}.next_item() {{ Some(v__) => v__, None => break }};\n{}{}{}}}\n{}}}", pre, cl, st0, pat, x, st, body, en, post);
                }
                if chars {
                    head = format!("let {} = crate::mem::str_chars({});\nlet mut {}: usize = 0;\nlet {}: usize = {}.len();\n", sq, x, it, end, sq);
                    bind = format!("let {} = {}[{}];\n{} = {} + 1;\n", pat, sq, it, it, it);
                } else if formut {
                    head = format!("let mut {}: usize = 0;\nlet {}: usize = {}.len();\n", it, end, x);
                    bind = format!("let {} = &mut {}[{}];\n{} = {} + 1;\n", pat, x, it, it, it);
                } else {
                    let amp = if iter { "&" } else { "" };
                    head = format!("let {} = {}{};\nlet mut {}: usize = 0;\nlet {}: usize = {}.len();\n", sq, amp, x, it, end, sq);
                    bind = format!("let {} = &{}[{}];\n{} = {} + 1;\n", pat, sq, it, it, it);
                }
                cond = format!("{} < {}", it, end);
                inc = String::new();
            }
        }
        cl = self.loop_clauses(k);
        let st0 = self.take_hint(&format!("loop {} top", k));
        let st = self.take_hint(&format!("loop {} start", k));
        let body = self.block_inner(&f.body);
        let en = self.take_hint(&format!("loop {} end", k));
        let post = self.take_hint(&format!("loop {} post", k));
        format!("{{\n{}{}while {}\n{}{{\n{}{}{}{}{}{}}}\n{}}}", head, pre, cond, cl, st0, bind, st, body, inc, en, post)
    }

    // ---------- statements ----------
    pub fn block(&mut self, b: &Block) -> String {
        format!("{{\n{}}}", self.block_inner(b))
    }

    fn hints_for(&mut self, start: usize) -> (String, String) {
        let mut before = String::new();
        let mut after = String::new();
        let calls: Vec<_> = self.calls[start..].to_vec();
        for (i, (w, t)) in self.f.hints.iter().enumerate() {
            if self.placed.contains(&i) { continue; }
            for (n, k) in &calls {
                if w == &format!("before {} {}", n, k) { before.push_str(t); self.placed.insert(i); break; }
                if w == &format!("after {} {}", n, k) { after.push_str(t); self.placed.insert(i); break; }
            }
        }
        (before, after)
    }

    pub fn block_inner(&mut self, b: &Block) -> String {
        let mut s = String::new();
        let n = b.stmts.len();
        let exit = std::mem::take(&mut self.top_exit);
        let mut exit_done = exit.is_empty();
        let scope = self.in_scope.clone();
        for (i, st) in b.stmts.iter().enumerate() {
            let start = self.calls.len();
            match st {
                Stmt::Local(l) => {
                    let (pi, anno) = match &l.pat {
                        Pat::Ident(p) => (Some(p.ident.to_string()), None),
                        Pat::Type(t) => (if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None }, Some(self.canon_ty(&last_seg_ty(&t.ty)))),
                        _ => (None, None),
                    };
                    let vty = anno.or_else(|| l.init.as_ref().and_then(|i| self.type_of(&i.expr)));
                    let init = match &l.init {
                        Some(i) => {
                            if i.diverge.is_some() { let x = self.unsupported("let-else", l.to_token_stream()); s.push_str(&x); }
                            // opt `closure:NAME=UNIT`: a closure that does nothing and returns `()`, as a unit struct
                            let unit = match (&*i.expr, &pi) {
                                (Expr::Closure(c), Some(n)) if matches!(&*c.body, Expr::Tuple(t) if t.elems.is_empty()) => self.f.opts.get(&format!("closure:{}", n)).cloned(),
                                _ => None,
                            };
                            Some(match unit { Some(u) => u, None => self.expr(&i.expr) })
                        }
                        None => None,
                    };
                    if let Some(n) = pi {
                        match vty { Some(t) => { self.vars.insert(n, t); } None => { self.vars.remove(&n); } }
                    }
                    let mut p = self.pat(&l.pat);
                    if let Some(t) = self.f.opts.get(&format!("lety:{}", p.replace("mut ", ""))) { p = format!("{}: {}", p, t.replace("_", " ")); }
                    let (bf, af) = self.hints_for(start);
                    s.push_str(&bf);
                    match init {
                        Some(x) => s.push_str(&format!("let {} = {};\n", p, x)),
                        None => s.push_str(&format!("let {};\n", p)),
                    }
                    s.push_str(&af);
                    self.in_scope.extend(idents(&p));
                    let mut pn = p.split(':').next().unwrap().replace("mut ", "");
                    pn.retain(|c| !c.is_whitespace());
                    let key = format!("let {}", pn);
                    let c = self.counts.entry(key.clone()).or_insert(0);
                    *c += 1;
                    let w = format!("{} {}", key, *c - 1);
                    let h = self.take_hint(&w);
                    s.push_str(&h);
                }
                Stmt::Expr(e, semi) => {
                    let x = self.expr(e);
                    let (bf, af) = self.hints_for(start);
                    s.push_str(&bf);
                    let tail = i + 1 == n && semi.is_none();
                    if tail {
                        exit_done = true;
                        let af = format!("{}{}", af, exit);
                        if af.is_empty() {
                            s.push_str(&format!("{}\n", x));
                        } else {
                            s.push_str(&format!("let tail__ = {};\n{}tail__\n", x, af));
                        }
                    } else {
                        let blocky = matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_)) && semi.is_none();
                        s.push_str(&format!("{}{}\n", x, if blocky { "" } else { ";" }));
                        s.push_str(&af);
                    }
                }
                Stmt::Macro(m) => {
                    let x = self.mac(&m.mac);
                    let (bf, af) = self.hints_for(start);
                    s.push_str(&bf);
                    let tail = i + 1 == n && m.semi_token.is_none() && x != "()";
                    s.push_str(&format!("{}{}\n", x, if tail || x.starts_with("if ") { "" } else { ";" }));
                    s.push_str(&af);
                }
                Stmt::Item(Item::Const(c)) => {
                    let t = self.ty(&c.ty);
                    let e = self.expr(&c.expr);
                    s.push_str(&format!("let {}: {} = {};\n", c.ident, t, e));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(i) => {
                    let x = self.unsupported("nested item", i.to_token_stream());
                    s.push_str(&x);
                }
            }
        }
        if !exit_done {
            s.push_str(&exit);
        }
        self.in_scope = scope;
        s
    }
}
