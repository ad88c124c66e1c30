//! Normal forms of loops, so that a proof does not depend on how a loop is written.  Each rewriting keeps the meaning:
//! * `loop { if C { break; } B }`            => `while !C { B }`
//! * `loop { if C { return E; } B }`         => `while !C { B } return E;`   (no `break` in B)
//! * `for i in 0..v.len() { .. v[i] .. }`    => `for i in v { .. (*i) .. }`  (v only read, i only used as the index of v)
//! * `let mut i = A; while i < B { C; i += 1; }` => `for i in A..B { C }`    (i, B not changed in C, i not used afterwards, no `continue`)
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn count_id(t: TokenStream, id: &str) -> usize {
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) => (i == id) as usize,
        TokenTree::Group(g) => count_id(g.stream(), id),
        _ => 0,
    }).sum()
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// `break`/`continue` that belong to this loop (or carry a label)
struct Jumps { brk: bool, cont: bool, depth: usize }
impl<'a> visit::Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) { if self.depth == 0 || b.label.is_some() { self.brk = true; } }
    fn visit_expr_continue(&mut self, b: &'a ExprContinue) { if self.depth == 0 || b.label.is_some() { self.cont = true; } }
    fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.depth += 1; visit::visit_expr_while(self, w); self.depth -= 1; }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.depth += 1; visit::visit_expr_loop(self, w); self.depth -= 1; }
    fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) { self.depth += 1; visit::visit_expr_for_loop(self, w); self.depth -= 1; }
}
fn jumps(s: &[Stmt]) -> (bool, bool) {
    let mut j = Jumps { brk: false, cont: false, depth: 0 };
    for x in s { visit::Visit::visit_stmt(&mut j, x); }
    (j.brk, j.cont)
}

/// identifiers that a piece of code may change: assigned, borrowed mutably or receiver of a method
struct Touched(Vec<String>);
impl Touched {
    fn root(&mut self, e: &Expr) {
        match e {
            Expr::Field(f) => self.root(&f.base),
            Expr::Index(f) => self.root(&f.expr),
            Expr::Unary(u) => self.root(&u.expr),
            Expr::Paren(u) => self.root(&u.expr),
            _ => if let Some(i) = ident_of(e) { self.0.push(i) },
        }
    }
}
impl<'a> visit::Visit<'a> for Touched {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.root(&a.left); visit::visit_expr_assign(self, a); }
    fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
        if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) { self.root(&a.left); }
        visit::visit_expr_binary(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) { if r.mutability.is_some() { self.root(&r.expr); } visit::visit_expr_reference(self, r); }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.root(&m.receiver); visit::visit_expr_method_call(self, m); }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); }
    fn visit_macro(&mut self, m: &'a Macro) { fn all(t: TokenStream, o: &mut Vec<String>) { for x in t { match x { TokenTree::Ident(i) => o.push(i.to_string()), TokenTree::Group(g) => all(g.stream(), o), _ => {} } } }
        // assertions only read
        let n = m.path.segments.last().unwrap().ident.to_string();
        if !n.contains("assert") { all(m.tokens.clone(), &mut self.0); } }
}
fn touched(s: &[Stmt]) -> Vec<String> {
    let mut t = Touched(vec![]);
    for x in s { visit::Visit::visit_stmt(&mut t, x); }
    t.0
}

struct SubIndex { v: String, i: String }
impl VisitMut for SubIndex {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Index(x) = e {
            if ident_of(&x.expr).as_deref() == Some(self.v.as_str()) && ident_of(&x.index).as_deref() == Some(self.i.as_str()) {
                let i = Ident::new(&self.i, proc_macro2::Span::call_site());
                *e = parse_quote!((*#i));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// is `v` used in no other way than `v[..]`?
fn only_indexed(body: &[Stmt], v: &str) -> bool {
    struct Ix<'n>(&'n str, usize);
    impl<'a, 'n> visit::Visit<'a> for Ix<'n> {
        fn visit_expr_index(&mut self, x: &'a ExprIndex) { if ident_of(&x.expr).as_deref() == Some(self.0) { self.1 += 1; } visit::visit_expr_index(self, x); }
    }
    let mut ix = Ix(v, 0);
    let mut n = 0;
    for s in body { visit::Visit::visit_stmt(&mut ix, s); n += count_id(s.to_token_stream(), v); }
    ix.1 == n
}

/// the test of `if C { break; }` / `if C { return E; }` as a first statement
enum Lead { Break(Expr), Return(Expr, Expr) }
fn lead(s: &Stmt) -> Option<Lead> {
    let e = match s { Stmt::Expr(Expr::If(i), _) => i, _ => return None };
    if e.else_branch.is_some() || matches!(&*e.cond, Expr::Let(_)) || e.then_branch.stmts.len() != 1 { return None; }
    match &e.then_branch.stmts[0] {
        Stmt::Expr(Expr::Break(b), _) if b.label.is_none() && b.expr.is_none() => Some(Lead::Break((*e.cond).clone())),
        s2 @ Stmt::Expr(Expr::Return(_), _) => Some(Lead::Return((*e.cond).clone(), match s2 { Stmt::Expr(x, _) => x.clone(), _ => unreachable!() })),
        _ => None,
    }
}

fn has_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> visit::Visit<'a> for L { fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true; } }
    let mut l = L(false);
    visit::Visit::visit_expr(&mut l, e);
    l.0
}

fn neg(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => neg(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        _ => parse_quote!(!(#e)),
    }
}

struct Norm;
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let mut after: Option<Stmt> = None;
            if let Stmt::Expr(Expr::Loop(l), _) = &s {
                if l.label.is_none() && l.body.stmts.len() > 1 {
                    let rest = &l.body.stmts[1..];
                    match lead(&l.body.stmts[0]) {
                        Some(Lead::Break(c)) if !has_let(&c) => {
                            let nc = neg(&c);
                            s = parse_quote!(while #nc { #(#rest)* });
                        }
                        Some(Lead::Return(c, r)) if !has_let(&c) && !jumps(rest).0 => {
                            let nc = neg(&c);
                            s = parse_quote!(while #nc { #(#rest)* });
                            after = Some(Stmt::Expr(r, Some(Default::default())));
                        }
                        _ => {}
                    }
                }
            }
            out.push(s);
            if let Some(a) = after { out.push(a); break; }
        }
        // counted while loops
        let mut i = 0;
        while i + 1 < out.len() {
            if let Some(f) = counted(&out[i], &out[i + 1], &out[i + 2..]) {
                out[i] = f;
                out.remove(i + 1);
            }
            i += 1;
        }
        for s in out.iter_mut() {
            if let Stmt::Expr(Expr::ForLoop(f), _) = s { index_loop(f); }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

fn counted(a: &Stmt, w: &Stmt, rest: &[Stmt]) -> Option<Stmt> {
    let (i, start) = match a {
        Stmt::Local(l) => {
            let id = match &l.pat { Pat::Ident(p) if p.mutability.is_some() => p.ident.clone(), Pat::Type(t) => match &*t.pat { Pat::Ident(p) if p.mutability.is_some() => p.ident.clone(), _ => return None }, _ => return None };
            (id, (*l.init.as_ref()?.expr).clone())
        }
        _ => return None,
    };
    let w = match w { Stmt::Expr(Expr::While(w), _) if w.label.is_none() => w, _ => return None };
    let (l, r) = match &*w.cond { Expr::Binary(b) if matches!(b.op, BinOp::Lt(_)) => (&*b.left, &*b.right), _ => return None };
    let n = i.to_string();
    if ident_of(l)? != n { return None; }
    let (last, body) = w.body.stmts.split_last()?;
    let ok = match last {
        Stmt::Expr(Expr::Binary(b), _) => matches!(b.op, BinOp::AddAssign(_)) && ident_of(&b.left).as_deref() == Some(n.as_str()) && b.right.to_token_stream().to_string() == "1",
        Stmt::Expr(Expr::Assign(x), _) => ident_of(&x.left).as_deref() == Some(n.as_str()) && x.right.to_token_stream().to_string() == format!("{} + 1", n),
        _ => false,
    };
    if !ok { return None; }
    let t = touched(body);
    if t.contains(&n) || jumps(body).1 || rest.iter().any(|s| count_id(s.to_token_stream(), &n) > 0) { return None; }
    // the bound must be a value the body leaves alone: literal, constant, untouched variable or its length
    fn stable(e: &Expr, t: &[String], body: &[Stmt]) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Paren(p) => stable(&p.expr, t, body),
            Expr::Binary(b) => stable(&b.left, t, body) && stable(&b.right, t, body),
            Expr::MethodCall(m) => (m.method == "len" || m.method == "size") && m.args.is_empty() && matches!(ident_of(&m.receiver), Some(i) if !t.contains(&i) && only_indexed(body, &i)),
            _ => matches!(ident_of(e), Some(i) if !t.contains(&i)),
        }
    }
    if !stable(r, &t, body) { return None; }
    Some(parse_quote!(for #i in #start..#r { #(#body)* }))
}

fn index_loop(f: &mut ExprForLoop) {
    let i = match &*f.pat { Pat::Ident(p) => p.ident.to_string(), _ => return };
    let v = match &*f.expr {
        Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
            if r.start.as_ref().map(|s| s.to_token_stream().to_string()) != Some("0".into()) { return; }
            match r.end.as_deref() {
                Some(Expr::MethodCall(m)) if m.method == "len" && m.args.is_empty() => match ident_of(&m.receiver) { Some(v) => v, None => return },
                _ => return,
            }
        }
        _ => return,
    };
    if touched(&f.body.stmts).contains(&v) { return; }
    let mut b = f.body.clone();
    SubIndex { v: v.clone(), i: i.clone() }.visit_block_mut(&mut b);
    // every use of v and i was v[i]
    let k = count_id(f.body.to_token_stream(), &i) ;
    if k == 0 || count_id(b.to_token_stream(), &v) != 0 || count_id(f.body.to_token_stream(), &v) != k { return; }
    let vi = Ident::new(&v, proc_macro2::Span::call_site());
    f.body = b;
    f.expr = Box::new(parse_quote!(#vi));
}

pub fn block(b: &mut Block) {
    Norm.visit_block_mut(b);
    // `return E;` at the very end
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        if let Some(e) = &r.expr {
            let e = (**e).clone();
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(e, None));
        }
    }
}
