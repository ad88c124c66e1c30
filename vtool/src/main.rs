//! vtool: mechanical extraction of the functions under contract.
//!
//!   vtool --src /repo/src --specs /verif/specs --out out.rs --map map.json
//!         --modules a,b [--assume mod|key,...] [--dump-names]
mod closure;
mod emit;
mod norm;
mod spec;
use emit::*;
use quote::ToTokens;
use spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::*;

/// emit `assert(false)` in place of every body: each must fail, or the precondition is contradictory
static CANARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct SrcFn {
    key: String,
    sig: Signature,
    block: Option<Block>,
    self_ty: String,
    generics: Vec<Generics>,
    trait_name: Option<String>,
    impl_idx: usize,
}

fn attrs_cfg_off(a: &[Attribute]) -> bool {
    a.iter().any(|x| {
        if x.path().is_ident("cfg") {
            let s = squash(&x.to_token_stream());
            return s.contains("cfg(test)") || s.contains("verif_hooks");
        }
        false
    })
}

fn trait_last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

/// The impls that `derive` stands for, written out: Clone (field by field) and, when an impl of Clone has no
/// `clone_from`, its default. Fields of primitive types and of types that derive Copy are copied.
fn derived(file: &mut File, copies: &HashSet<String>) {
    fn has(attrs: &[Attribute], what: &str) -> bool {
        attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == what))
    }
    fn plain(t: &Type, copies: &HashSet<String>) -> bool {
        match t {
            Type::Path(p) => p.path.get_ident().map_or(false, |i| ["usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "bool", "char"].contains(&i.to_string().as_str()))
                || copies.contains(&p.path.segments.last().unwrap().ident.to_string()),
            Type::Array(a) => plain(&a.elem, copies),
            Type::Reference(r) => r.mutability.is_none(),
            _ => false,
        }
    }
    let mut add: Vec<Item> = vec![];
    for it in &file.items {
        if let Item::Struct(st) = it {
            if !has(&st.attrs, "Clone") || has(&st.attrs, "Copy") && st.generics.params.is_empty() { continue; }
            let (ig, tg, wc) = st.generics.split_for_impl();
            let n = &st.ident;
            let mut fs: Vec<proc_macro2::TokenStream> = vec![];
            for (i, f) in st.fields.iter().enumerate() {
                let m = match &f.ident { Some(x) => Member::Named(x.clone()), None => Member::Unnamed(i.into()) };
                let t = f.ty.to_token_stream().to_string();
                if t.contains("PhantomData") { fs.push(quote::quote!(#m: std::marker::PhantomData)); }
                else if plain(&f.ty, copies) { fs.push(quote::quote!(#m: self.#m)); }
                else { fs.push(quote::quote!(#m: self.#m.clone())); }
            }
            add.push(syn::parse_quote!(impl #ig Clone for #n #tg #wc { fn clone(&self) -> Self { Self { #(#fs),* } } }));
        }
    }
    file.items.extend(add);
    for it in file.items.iter_mut() {
        if let Item::Impl(im) = it {
            if im.trait_.as_ref().map_or(false, |t| trait_last(&t.1) == "Clone") && !im.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == "clone_from")) {
                im.items.push(syn::parse_quote!(fn clone_from(&mut self, source: &Self) { *self = source.clone(); }));
            }
        }
    }
}

fn collect(file: &File) -> (Vec<SrcFn>, Vec<Item>) {
    let mut v = vec![];
    let mut items = vec![];
    let mut idx = 0;
    for it in &file.items {
        match it {
            Item::Fn(f) if !attrs_cfg_off(&f.attrs) => v.push(SrcFn {
                key: f.sig.ident.to_string(),
                sig: f.sig.clone(),
                block: Some((*f.block).clone()),
                self_ty: String::new(),
                generics: vec![f.sig.generics.clone()],
                trait_name: None,
                impl_idx: usize::MAX,
            }),
            Item::Impl(im) if !attrs_cfg_off(&im.attrs) => {
                idx += 1;
                items.push(it.clone());
                let ty = last_seg_ty(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| trait_last(p));
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if attrs_cfg_off(&f.attrs) { continue; }
                        let key = match &tr {
                            Some(t) => format!("{}.{}::{}", ty, t, f.sig.ident),
                            None => format!("{}::{}", ty, f.sig.ident),
                        };
                        v.push(SrcFn {
                            key,
                            sig: f.sig.clone(),
                            block: Some(f.block.clone()),
                            self_ty: ty.clone(),
                            generics: vec![im.generics.clone(), f.sig.generics.clone()],
                            trait_name: tr.clone(),
                            impl_idx: idx,
                        });
                    }
                }
            }
            Item::Trait(t) => {
                idx += 1;
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        v.push(SrcFn {
                            key: format!("{}::{}", t.ident, f.sig.ident),
                            sig: f.sig.clone(),
                            block: f.default.clone(),
                            self_ty: "Self".into(),
                            generics: vec![t.generics.clone(), f.sig.generics.clone()],
                            trait_name: Some(t.ident.to_string()),
                            impl_idx: idx,
                        });
                    }
                }
                items.push(it.clone());
            }
            Item::Const(_) | Item::Static(_) | Item::Type(_) | Item::Struct(_) | Item::Enum(_) => {
                let a = match it {
                    Item::Const(c) => &c.attrs,
                    Item::Static(c) => &c.attrs,
                    Item::Type(c) => &c.attrs,
                    Item::Struct(c) => &c.attrs,
                    Item::Enum(c) => &c.attrs,
                    _ => unreachable!(),
                };
                if !attrs_cfg_off(a) { items.push(it.clone()); }
            }
            _ => {}
        }
    }
    (v, items)
}

struct Binds(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !s.chars().next().unwrap().is_uppercase() { self.0.push(s); }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn bindings(sig: &Signature, block: &Option<Block>) -> Vec<String> {
    let mut b = Binds(vec![]);
    syn::visit::Visit::visit_signature(&mut b, sig);
    if let Some(x) = block { syn::visit::Visit::visit_block(&mut b, x); }
    b.0
}

/// kinds of the loops of a function, in order: the invariants are written for them
struct Kinds(String);
impl<'a> syn::visit::Visit<'a> for Kinds {
    fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.0.push('w'); syn::visit::visit_expr_while(self, w); }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.0.push('l'); syn::visit::visit_expr_loop(self, w); }
    fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) {
        let mut e: &Expr = &w.expr;
        let mut k = 'i';
        loop {
            match e {
                Expr::Paren(p) => e = &p.expr,
                Expr::MethodCall(c) if c.method == "iter" || c.method == "iter_mut" => { k = 'i'; break; }
                Expr::MethodCall(c) if c.method == "rev" => { k = 'R'; break; }
                Expr::MethodCall(c) if c.method == "step_by" => { k = 's'; break; }
                Expr::MethodCall(c) if c.method == "chars" => { k = 'c'; break; }
                Expr::Range(_) => { k = 'r'; break; }
                _ => break,
            }
        }
        self.0.push(k);
        syn::visit::visit_expr_for_loop(self, w);
    }
}
fn loop_kinds(block: &Option<Block>) -> String {
    let mut k = Kinds(String::new());
    if let Some(x) = block { syn::visit::Visit::visit_block(&mut k, x); }
    k.0
}

struct Rets(usize);
impl<'a> syn::visit::Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) { self.0 += 1; syn::visit::visit_expr_return(self, r); }
}
/// number of `return` expressions
fn returns(block: &Option<Block>) -> usize {
    let mut k = Rets(0);
    if let Some(x) = block { syn::visit::Visit::visit_block(&mut k, x); }
    k.0
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", v.into_iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))
}

struct FnInfo {
    module: String,
    key: String,
    start: usize,
    end: usize,
    props: String,
    callees: Vec<String>,
    inlined: Vec<String>,
    errors: Vec<String>,
    missing: Vec<String>,
    status: String,
    trusted: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut src = String::new();
    let mut specs = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut modules: Vec<String> = vec![];
    let mut assume: HashSet<String> = HashSet::new();
    let mut dump = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => { src = args[i + 1].clone(); i += 1; }
            "--specs" => { specs = args[i + 1].clone(); i += 1; }
            "--out" => { out = args[i + 1].clone(); i += 1; }
            "--map" => { map = args[i + 1].clone(); i += 1; }
            "--modules" => { modules = args[i + 1].split(',').map(String::from).collect(); i += 1; }
            "--assume" => { assume = args[i + 1].split(',').map(String::from).collect(); i += 1; }
            "--dump-names" => dump = true,
            "--canary" => CANARY.store(true, std::sync::atomic::Ordering::SeqCst),
            x => panic!("unknown argument {}", x),
        }
        i += 1;
    }
    // ---- load contract files
    let mut all: BTreeMap<String, ModSpec> = BTreeMap::new();
    for e in std::fs::read_dir(&specs).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "vspec").unwrap_or(false) {
            let t = std::fs::read_to_string(&p).unwrap();
            let m = parse(&t, &p.display().to_string());
            all.insert(m.module.clone(), m);
        }
    }
    if modules.iter().any(|m| m == "all") {
        modules = all.keys().cloned().collect();
    }
    let mut need: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<String> = modules.clone();
    while let Some(m) = todo.pop() {
        if !need.insert(m.clone()) { continue; }
        let s = all.get(&m).unwrap_or_else(|| panic!("no contract file for module {}", m));
        todo.extend(s.deps.iter().cloned());
    }
    // ---- parse sources
    let mut srcs: BTreeMap<String, (Vec<SrcFn>, Vec<Item>)> = BTreeMap::new();
    let mut global_errors: Vec<String> = vec![];
    let mut copies: HashSet<String> = HashSet::new();
    for m in &need {
        if let Ok(f) = std::fs::read_to_string(format!("{}/{}", src, all[m].file)).map_err(|_| ()).and_then(|t| parse_file(&t).map_err(|_| ())) {
            for it in &f.items {
                if let Item::Type(t) = it {
                    if t.generics.params.is_empty() && squash(&t.ty.to_token_stream()).chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) { copies.insert(t.ident.to_string()); }
                }
                if let Item::Struct(st) = it {
                    let d: String = st.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect();
                    if d.contains("Copy") && d.contains("Clone") && st.generics.params.is_empty() { copies.insert(st.ident.to_string()); }
                }
            }
        }
    }
    for m in &need {
        let s = &all[m];
        if s.file.is_empty() { srcs.insert(m.clone(), (vec![], vec![])); continue; }
        let path = format!("{}/{}", src, s.file);
        match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
            Ok(mut f) => { derived(&mut f, &copies); let mut c = collect(&f); closure::specialise(&mut c.0); for f in c.0.iter_mut() { if let Some(b) = f.block.as_mut() { norm::block(b); } } srcs.insert(m.clone(), c); }
            Err(e) => {
                global_errors.push(format!("{}: {}", path, e));
                srcs.insert(m.clone(), (vec![], vec![]));
            }
        }
    }
    // ---- global tables
    let mut g = Global::default();
    let names_file = format!("{}/names.txt", specs);
    if let Ok(t) = std::fs::read_to_string(&names_file) {
        for l in t.lines() {
            if let Some((k, v)) = l.split_once('\t') {
                let (v, l) = v.split_once('\t').unwrap_or((v, ""));
                g.names.insert(k.into(), v.split_whitespace().map(String::from).collect());
                let (l, n) = l.split_once('\t').unwrap_or((l, ""));
                g.kinds.insert(k.into(), l.into());
                if let Ok(n) = n.parse() { g.nrets.insert(k.into(), n); }
            }
        }
    }
    for m in &need {
        let s = &all[m];
        for (a, b) in &s.maps { g.maps.push((a.clone(), b.clone())); }
        for (a, b) in &s.alias { g.alias.insert(a.clone(), b.clone()); }
        let mut contracted: BTreeSet<String> = BTreeSet::new();
        for f in &s.fns {
            contracted.insert(f.key.clone());
            let mode = f.opts.get("mem").cloned().unwrap_or(s.mem.clone());
            reg(&mut g, &f.key, &mode, f.opts.get("rename"));
            if let (Some(st), None) = (f.opts.get("selfty"), f.opts.get("rename")) {
                let n = f.key.rsplit("::").next().unwrap();
                g.mem_path.entry(format!("{}::{}", st.split('<').next().unwrap(), n)).or_default().insert(mode.clone());
            }
            if f.opts.contains_key("free") || !f.key.contains("::") {
                let n = f.key.rsplit("::").next().unwrap();
                g.mem_path.entry(format!("{}::{}", m, n)).or_default().insert(mode.clone());
            }
        }
        for (k, mode) in &s.ext { reg(&mut g, k, mode, None); }
        for it in &srcs[m].1 {
            if let Item::Struct(st) = it {
                for (i, f) in st.fields.iter().enumerate() {
                    let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                    g.fields.insert((st.ident.to_string(), n), last_seg_ty(&f.ty));
                }
            }
        }
        for f in &srcs[m].0 {
            if let ReturnType::Type(_, t) = &f.sig.output {
                let r = last_seg_ty(t);
                let r = if r == "Self" { f.self_ty.clone() } else { r };
                g.rets.insert((f.self_ty.clone(), f.sig.ident.to_string()), r);
            }
            if !contracted.contains(&f.key) && f.trait_name.is_none() {
                if let Some(b) = &f.block {
                    g.helpers.insert(format!("{}|{}", m, f.key), Helper { sig: f.sig.clone(), block: b.clone() });
                }
            }
        }
    }
    if dump {
        let mut o = String::new();
        for m in &need {
            for f in &srcs[m].0 {
                if all[m].fns.iter().any(|x| x.key == f.key && !x.opts.contains_key("from")) {
                    o.push_str(&format!("{}|{}\t{}\t{}\t{}\n", m, f.key, bindings(&f.sig, &f.block).join(" "), loop_kinds(&f.block), returns(&f.block)));
                }
            }
            let mut seen = BTreeSet::new();
            for x in &all[m].fns {
                if let Some(fm) = x.opts.get("from") {
                    if let Some(f) = srcs.get(fm).and_then(|s| s.0.iter().find(|f| f.key == x.key)) {
                        if seen.insert(x.key.clone()) {
                            o.push_str(&format!("{}|{}\t{}\t{}\t{}\n", m, f.key, bindings(&f.sig, &f.block).join(" "), loop_kinds(&f.block), returns(&f.block)));
                        }
                    }
                }
            }
        }
        std::fs::write(&names_file, o).unwrap();
        return;
    }
    // ---- emission
    let mut infos: Vec<FnInfo> = vec![];
    let mut text = String::from("#![verifier::loop_isolation(false)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, unused_braces, unused_unsafe, non_camel_case_types, unused_must_use, unreachable_code)]\nuse vstd::prelude::*;\nfn main() {}\n");
    // module tree: nested by path
    #[derive(Default)]
    struct Node { sub: BTreeMap<String, Node>, here: Option<String> }
    let mut root = Node::default();
    for m in &need {
        let mut n = &mut root;
        for p in m.split("::") { n = n.sub.entry(p.to_string()).or_default(); }
        n.here = Some(m.clone());
    }
    fn walk(n: &Node, text: &mut String, f: &mut dyn FnMut(&str, &mut String)) {
        for (name, c) in &n.sub {
            text.push_str(&format!("pub mod {} {{\n", name));
            if let Some(m) = &c.here { f(m, text); }
            walk(c, text, f);
            text.push_str(&format!("}} // mod {}\n", name));
        }
    }
    let mut f = |m: &str, text: &mut String| {
        emit_module(&g, &all[m], &srcs, &assume, text, &mut infos);
    };
    walk(&root, &mut text, &mut f);
    std::fs::write(&out, &text).unwrap();
    // ---- map
    let mut o = String::from("{\n\"functions\": [\n");
    let rows: Vec<String> = infos.iter().map(|i| {
        format!("{{\"module\": {}, \"key\": {}, \"start\": {}, \"end\": {}, \"props\": {}, \"callees\": {}, \"inlined\": {}, \"errors\": {}, \"missing\": {}, \"status\": {}, \"trusted\": {}}}",
            jstr(&i.module), jstr(&i.key), i.start, i.end, jstr(&i.props), jlist(&i.callees), jlist(&i.inlined), jlist(&i.errors), jlist(&i.missing), jstr(&i.status), i.trusted)
    }).collect();
    o.push_str(&rows.join(",\n"));
    o.push_str(&format!("\n],\n\"errors\": {},\n\"modules\": {}\n}}\n", jlist(&global_errors), jlist(&need)));
    std::fs::write(&map, o).unwrap();
}

fn reg(g: &mut Global, key: &str, mode: &str, rename: Option<&String>) {
    // "Ty.Trait::m" -> Ty::m and Trait::m
    let (t, n) = match key.rsplit_once("::") { Some((a, b)) => (a.to_string(), b.to_string()), None => (String::new(), key.to_string()) };
    g.known.insert(n.clone());
    if rename.is_some() { return; }
    if t.is_empty() {
        g.mem_path.entry(n).or_default().insert(mode.into());
    } else {
        for x in t.split('.') {
            g.mem_path.entry(format!("{}::{}", x, n)).or_default().insert(mode.into());
        }
        g.mem_path.entry(n.clone()).or_default().insert(mode.into());
        g.mem_method.entry(n).or_default().insert(mode.into());
    }
}

fn lines(s: &str) -> usize { s.matches('\n').count() }

fn emit_module(g: &Global, m: &ModSpec, srcs: &BTreeMap<String, (Vec<SrcFn>, Vec<Item>)>, assume: &HashSet<String>, text: &mut String, infos: &mut Vec<FnInfo>) {
    let (fns, items) = (&srcs[&m.module].0, &srcs[&m.module].1);
    text.push_str("use vstd::prelude::*;\nverus! {\n");
    if m.module != "mem" { text.push_str("broadcast use crate::mem::bits;\n"); }
    text.push_str(&m.prelude);
    let dummy = FnSpec::default();
    for it in items {
        let mut em = mk(g, m, &dummy, "", false);
        let s = match it {
            Item::Const(c) => {
                if m.skip.contains(&c.ident.to_string()) { continue; }
                // text constants name message types; no function under contract reads them
                if matches!(&*c.ty, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Path(p) if p.path.is_ident("str"))) { continue; }
                let big = matches!(&*c.expr, syn::Expr::Array(a) if a.elems.len() > 512);
                format!("{}pub const {}: {} = {};\n", if big { "#[verifier::opaque]\n" } else { "" }, c.ident, em.ty(&c.ty), em.expr(&c.expr))
            }
            Item::Static(_) => continue,
            Item::Type(t) => {
                if m.skip.contains(&t.ident.to_string()) { continue; }
                let gs = gen_str(&mut em, &[&t.generics]);
                format!("pub type {}{} = {};\n", t.ident, gs.0, em.ty(&t.ty))
            }
            Item::Struct(st) => {
                let n = st.ident.to_string();
                if m.skip.contains(&n) { continue; }
                let gs = gen_str(&mut em, &[&st.generics]);
                let der = m.structs.get(&n).cloned().unwrap_or_default();
                let der = if der.is_empty() { String::new() } else { format!("#[{}]\n", der) };
                match &st.fields {
                    Fields::Named(fs) => {
                        let mut v = vec![];
                        for f in &fs.named {
                            let fname = f.ident.as_ref().unwrap().to_string();
                            if fname == "phantom" || squash(&f.ty.to_token_stream()).contains("PhantomData") { continue; }
                            let over = m.fields.iter().find(|(k, _)| k == &format!("{}.{}", n, fname));
                            let t = match over { Some((_, t)) => t.clone(), None => em.ty(&f.ty) };
                            v.push(format!("    pub {}: {},\n", fname, t));
                        }
                        format!("{}pub struct {}{} {{\n{}}}\n", der, n, gs.0, v.join(""))
                    }
                    Fields::Unnamed(fs) => {
                        let v: Vec<String> = fs.unnamed.iter().enumerate().map(|(i, f)| {
                            let over = m.fields.iter().find(|(k, _)| k == &format!("{}.{}", n, i));
                            format!("pub {}", match over { Some((_, t)) => t.clone(), None => em.ty(&f.ty) })
                        }).collect();
                        format!("{}pub struct {}{}({});\n", der, n, gs.0, v.join(", "))
                    }
                    Fields::Unit => format!("{}pub struct {};\n", der, n),
                }
            }
            Item::Enum(e) => {
                let n = e.ident.to_string();
                if m.skip.contains(&n) { continue; }
                let der = m.structs.get(&n).cloned().unwrap_or_default();
                let der = if der.is_empty() { String::new() } else { format!("#[{}]\n", der) };
                let vs: Vec<String> = e.variants.iter().map(|v| match &v.fields {
                    Fields::Unit => format!("{}", v.ident),
                    Fields::Unnamed(fs) => format!("{}({})", v.ident, fs.unnamed.iter().map(|f| em.ty(&f.ty)).collect::<Vec<_>>().join(", ")),
                    Fields::Named(_) => format!("{}", v.ident),
                }).collect();
                format!("{}pub enum {} {{ {} }}\n", der, n, vs.join(", "))
            }
            Item::Impl(im) => {
                let ty = last_seg_ty(&im.self_ty);
                let k = match &im.trait_ { Some((_, p, _)) => format!("{}.{}", ty, trait_last(p)), None => ty.clone() };
                if !m.assoc.contains(&k) { continue; }
                let mut o = String::new();
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        o.push_str(&format!("pub const {}: {} = {};\n", c.ident, em.ty(&c.ty), em.expr(&c.expr)));
                    }
                }
                o
            }
            _ => continue,
        };
        text.push_str(&s);
    }
    // functions, in contract-file order, grouped individually
    for f in &m.fns {
        // a default method of a trait declared in another module (`from=`): the copy for this type
        let sf = match f.opts.get("from") {
            Some(fm) => {
                let n = f.key.rsplit("::").next().unwrap();
                let tr = f.key.split("::").next().unwrap();
                let overridden = fns.iter().any(|x| x.trait_name.as_deref() == Some(tr) && x.sig.ident == n && x.block.is_some()
                    && (f.opts.get("selfty").map(|t| t == &x.self_ty).unwrap_or(false) || x.generics.iter().any(|g| g.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == x.self_ty)))));
                if overridden { None } else { srcs.get(fm).and_then(|s| s.0.iter().find(|x| x.key == f.key)) }
            }
            None => fns.iter().find(|x| x.key == f.key),
        };
        let full = format!("{}|{}", m.module, f.key);
        let mut info = FnInfo {
            module: m.module.clone(), key: f.key.clone(), start: 0, end: 0,
            props: f.opts.get("props").cloned().unwrap_or_default(),
            callees: vec![], inlined: vec![], errors: vec![], missing: vec![], status: "ok".into(),
            trusted: f.opts.contains_key("trusted"),
        };
        match sf {
            None => { info.status = "lost".into(); info.errors.push("function not found in the source".into()); infos.push(info); continue; }
            Some(sf) => {
                let t = emit_fn(g, m, f, sf, assume.contains(&full) || f.opts.contains_key("trusted"), &mut info);
                info.start = lines(text) + 1;
                text.push_str(&t);
                info.end = lines(text);
                infos.push(info);
            }
        }
    }
    text.push_str(&m.postlude);
    text.push_str("} // verus!\n");
}

fn mk<'a>(g: &'a Global, m: &'a ModSpec, f: &'a FnSpec, self_ty: &str, free: bool) -> Em<'a> {
    Em {
        g, m, f, self_ty: self_ty.into(), free, tsub: HashMap::new(), loop_k: 0, ret_k: 0, calls: vec![], counts: HashMap::new(),
        placed: BTreeSet::new(), unsafe_depth: 0, errors: vec![], ret_is_option: false, ren: HashMap::new(), callees: BTreeSet::new(),
        dyn_generics: vec![], used_loops: BTreeSet::new(), inline_depth: 0, inlined: BTreeSet::new(), top_exit: String::new(), ret_exit: String::new(), declared: BTreeSet::new(), in_scope: BTreeSet::new(), vars: HashMap::new(),
    }
}

/// (generics, where clause)
fn gen_str(em: &mut Em, gs: &[&Generics]) -> (String, String) {
    let mut v = vec![];
    let mut w = vec![];
    let dropped = |em: &Em, n: &str| n == "TW" || em.tsub.contains_key(n);
    for g in gs {
        for p in &g.params {
            match p {
                GenericParam::Type(t) => {
                    if dropped(em, &t.ident.to_string()) { continue; }
                    let mut b: Vec<String> = t.bounds.iter().filter_map(|b| match b {
                        TypeParamBound::Trait(tb) => { let s = em.path_str(&tb.path, false); if s.is_empty() { None } else { Some(s) } }
                        _ => None,
                    }).collect();
                    b.extend(em.m.bounds.iter().filter(|x| x.0 == t.ident.to_string()).map(|x| x.1.clone()));
                    b.retain(|x| x != "Clone" && x != "PartialEq" && x != "Eq" || em.m.bounds.is_empty());
                    if b.is_empty() { v.push(t.ident.to_string()); } else { v.push(format!("{}: {}", t.ident, b.join(" + "))); }
                }
                GenericParam::Const(c) => v.push(c.to_token_stream().to_string()),
                GenericParam::Lifetime(_) => {}
            }
        }
        if let Some(wc) = &g.where_clause {
            for p in &wc.predicates {
                if let WherePredicate::Type(t) = p {
                    let s = squash(&t.bounded_ty.to_token_stream());
                    if dropped(em, &s) { continue; }
                    let bt = em.ty(&t.bounded_ty);
                    let bs = squash(&t.bounds.to_token_stream());
                    if let Some(r) = em.impl_map(&bs, &t.bounds) {
                        w.push(format!("{}: {}", bt, r.trim_start_matches("gen:")));
                        continue;
                    }
                    let mut b: Vec<String> = t.bounds.iter().filter_map(|b| match b {
                        TypeParamBound::Trait(tb) => { let s = em.path_str(&tb.path, false); if s.is_empty() { None } else { Some(s) } }
                        _ => None,
                    }).collect();
                    b.retain(|x| x != "Clone" && x != "PartialEq" && x != "Eq" || em.m.bounds.is_empty());
                    if !b.is_empty() { w.push(format!("{}: {}", bt, b.join(" + "))); }
                }
            }
        }
    }
    (if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) },
     if w.is_empty() { String::new() } else { format!("where {}", w.join(", ")) })
}

fn emit_fn(g: &Global, m: &ModSpec, f: &FnSpec, sf: &SrcFn, assumed: bool, info: &mut FnInfo) -> String {
    let free = f.opts.contains_key("free");
    let mut em = mk(g, m, f, &sf.self_ty, free);
    if let Some(t) = f.opts.get("selfty") { em.self_ty = t.clone(); }
    if let Some(x) = f.opts.get("mono") {
        for a in x.split(',') {
            let (k, v) = a.split_once('=').unwrap_or_else(|| a.split_once(':').unwrap());
            em.tsub.insert(k.into(), v.into());
        }
    }
    // canonical names
    let cur = bindings(&sf.sig, &sf.block);
    if let Some(can) = g.names.get(&format!("{}|{}", m.module, f.key)) {
        if can.len() == cur.len() && can != &cur {
            let mut ok = true;
            let mut r: HashMap<String, String> = HashMap::new();
            for (a, b) in cur.iter().zip(can.iter()) {
                if let Some(x) = r.get(a) { if x != b { ok = false; } }
                r.insert(a.clone(), b.clone());
            }
            let vals: BTreeSet<&String> = r.values().collect();
            if vals.len() != r.len() { ok = false; }
            if ok { for (a, b) in r { if a != b { em.ren.insert(a, b); } } }
        }
    }
    let mode = f.opts.get("mem").cloned().unwrap_or(m.mem.clone());
    let mut params: Vec<String> = vec![];
    let mut pre = String::new();
    for i in &sf.sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                if free { em.err("receiver in a free function"); continue; }
                if r.reference.is_some() {
                    params.push(if r.mutability.is_some() { "&mut self".into() } else { "&self".into() });
                } else {
                    params.push("self".into());
                    if r.mutability.is_some() {
                        pre.push_str("let mut self_m = self;\n");
                        em.ren.insert("self".into(), "self_m".into());
                    }
                }
            }
            FnArg::Typed(t) => {
                let (name, mt) = match &*t.pat {
                    Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                    Pat::Wild(_) => (format!("_w{}", params.len()), false),
                    _ => { em.err("parameter pattern"); ("_p".to_string(), false) }
                };
                let name0 = name.clone();
                let name = em.ren.get(&name).cloned().unwrap_or(name);
                let vt = em.canon_ty(&last_seg_ty(&t.ty));
                em.vars.insert(name0.clone(), vt);
                let over = f.opts.get(&format!("ty:{}", name)).map(|t| t.replace("&mut_", "&mut "));
                let ty = match over { Some(t) => t, None => em.ty(&t.ty) };
                params.push(format!("{}: {}", name, ty));
                if mt {
                    pre.push_str(&format!("let mut {}_m = {};\n", name, name));
                    em.ren.insert(name0, format!("{}_m", name));
                }
            }
        }
    }
    if mode != "none" { params.push(if mode == "ro" { "mem: &Mem".into() } else { "mem: &mut Mem".into() }); }
    let ret = match &sf.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let s = match f.opts.get("rty") { Some(t) => t.clone(), None => em.ty(t) };
            em.ret_is_option = s.starts_with("Option");
            if s == "!" { " -> !".into() } else { format!(" -> ({}: {})", f.ret, s) }
        }
    };
    let kept = sf.trait_name.as_ref().map(|t| m.keeptraits.contains(t)).unwrap_or(false);
    let _ = kept;
    let self_generics: Vec<&Generics> = if sf.generics.len() == 2 { vec![&sf.generics[0]] } else { vec![] };
    let fn_generics: Vec<&Generics> = if sf.generics.len() == 2 { vec![&sf.generics[1]] } else { vec![&sf.generics[0]] };
    let (ig, iw, fg, fw);
    if free {
        let all: Vec<&Generics> = sf.generics.iter().collect();
        let x = gen_str(&mut em, &all);
        ig = String::new(); iw = String::new(); fg = x.0; fw = x.1;
    } else {
        let x = gen_str(&mut em, &self_generics);
        ig = x.0; iw = x.1;
        let x = gen_str(&mut em, &fn_generics);
        fg = x.0; fw = x.1;
    }
    let fg = if em.dyn_generics.is_empty() { fg } else {
        let d = em.dyn_generics.join(", ");
        if fg.is_empty() { format!("<{}>", d) } else { format!("{}, {}>", &fg[..fg.len() - 1], d) }
    };
    let nm = f.opts.get("rename").cloned().unwrap_or(sf.sig.ident.to_string());
    let mut body = String::new();
    if !assumed {
        let entry = em.take_hint("entry");
        em.top_exit = em.take_hint("exit");
        if let Some(n) = g.nrets.get(&format!("{}|{}", m.module, f.key)) {
            let now = returns(&sf.block);
            if now > *n { em.ret_exit = em.top_exit.clone(); }
            if !em.ret_exit.is_empty() {
                let mut b = Binds(vec![]);
                if let Some(x) = &sf.block { syn::visit::Visit::visit_block(&mut b, x); }
                em.declared = b.0.into_iter().map(|x| em.ren.get(&x).cloned().unwrap_or(x)).collect();
                for (w, t) in &f.hints { if w != "exit" { em.declared.extend(emit::ghosts(t)); } }
                let own = emit::ghosts(&em.top_exit);
                em.declared.retain(|x| !own.contains(x));
            }
            if now != *n && f.hints.iter().any(|(w, _)| w.starts_with("return ")) { info.missing.push("its returns are other ones".into()); }
        }
        let b = match &sf.block {
            Some(b) => em.block_inner(b),
            None => { em.err("no body"); String::new() }
        };
        body = format!("{}{}{}", pre, entry, b);
        for (i, (w, _)) in f.hints.iter().enumerate() {
            if !em.placed.contains(&i) { info.missing.push(format!("hint {}", w)); }
        }
        for k in f.loops.keys() {
            if !em.used_loops.contains(k) { info.missing.push(format!("loop {}", k)); }
        }
    }
    if !assumed && g.kinds.get(&format!("{}|{}", m.module, f.key)).map(|k| *k != loop_kinds(&sf.block)).unwrap_or(false) {
        info.missing.push("its loops are of another kind".into());
    }
    info.errors = em.errors.clone();
    info.callees = em.callees.iter().cloned().collect();
    info.inlined = em.inlined.iter().cloned().collect();
    let lost = !info.errors.is_empty();
    if assumed { info.status = "assumed".into(); } else if lost { info.status = "unsupported".into(); }
    let mut s = String::new();
    let mut attrs = String::new();
    if assumed || lost { attrs.push_str("#[verifier::external_body]\n"); }
    if let Some(x) = f.opts.get("rlimit") { attrs.push_str(&format!("#[verifier::rlimit({})]\n", x)); }
    if f.opts.contains_key("spinoff") { attrs.push_str("#[verifier::spinoff_prover]\n"); }
    if f.opts.contains_key("isolate") { attrs.push_str("#[verifier::loop_isolation(true)]\n"); }
    if f.opts.contains_key("exec_nodec") { attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    let b = if assumed || lost { "unimplemented!()\n".to_string() } else if CANARY.load(std::sync::atomic::Ordering::SeqCst) { "proof { assert(false); }\nvstd::pervasive::unreached()\n".to_string() } else { body };
    let func = format!("{}pub fn {}{}({}){}\n{}{}{{\n{}}}\n", attrs, nm, fg, params.join(", "), ret, if fw.is_empty() { String::new() } else { format!("{}\n", fw) }, f.contract, b);
    if sf.self_ty.is_empty() || free {
        s.push_str(&func);
    } else {
        let ty = match f.opts.get("selfty") { Some(t) => t.clone(), None => sf.self_ty.clone() };
        let targs = f.opts.get("targs").cloned().unwrap_or_else(|| type_args(&ig));
        s.push_str(&format!("impl{} {}{} {} {{\n{}}}\n", ig, ty, targs, iw, func));
    }
    s
}

/// `<A: B, C>` -> `<A, C>`
fn type_args(ig: &str) -> String {
    if ig.is_empty() { return String::new(); }
    let inner = &ig[1..ig.len() - 1];
    let v: Vec<String> = inner.split(',').map(|x| x.split(':').next().unwrap().trim().to_string()).collect();
    format!("<{}>", v.join(", "))
}
