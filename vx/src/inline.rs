// Calls to helper functions that are new since the pinned commit are inlined.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    sig: Signature,
    block: Block,
    method: bool,
    free: bool,
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// Turn `if c { ..; return e; } rest` into `if c { ..; e } else { rest }` and drop a final return.
fn tailify(b: &mut Block) {
    let stmts = std::mem::take(&mut b.stmts);
    let n = stmts.len();
    let mut it = stmts.into_iter().enumerate();
    while let Some((i, s)) = it.next() {
        let last = i + 1 == n;
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                return;
            }
            Stmt::Expr(Expr::If(mut x), semi) => {
                let mut hr = HasReturn(false);
                hr.visit_block(&x.then_branch);
                if hr.0 && !last && x.else_branch.is_none() && ends_with_return(&x.then_branch) {
                    tailify(&mut x.then_branch);
                    let mut rest = Block { brace_token: Default::default(), stmts: it.map(|(_, s)| s).collect() };
                    tailify(&mut rest);
                    x.else_branch = Some((
                        Default::default(),
                        Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest })),
                    ));
                    b.stmts.push(Stmt::Expr(Expr::If(x), None));
                    return;
                } else if last {
                    tailify(&mut x.then_branch);
                    if let Some((_, e)) = &mut x.else_branch {
                        tail_expr(e);
                    }
                    b.stmts.push(Stmt::Expr(Expr::If(x), None));
                } else {
                    b.stmts.push(Stmt::Expr(Expr::If(x), semi));
                }
            }
            s => b.stmts.push(s),
        }
    }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Block(b) => tailify(&mut b.block),
        Expr::If(x) => {
            tailify(&mut x.then_branch);
            if let Some((_, e)) = &mut x.else_branch {
                tail_expr(e);
            }
        }
        _ => {}
    }
}
fn ends_with_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

struct Collect<'b> {
    known: &'b BTreeSet<String>,
    out: BTreeMap<String, Helper>,
    dup: BTreeSet<String>,
}
impl<'b> Collect<'b> {
    fn add(&mut self, sig: &Signature, block: &Block, free: bool) {
        let n = sig.ident.to_string();
        if self.known.contains(&n) {
            return;
        }
        let method = sig.receiver().is_some();
        if self.out.contains_key(&n) {
            self.dup.insert(n.clone());
        }
        let mut block = block.clone();
        tailify(&mut block);
        self.out.insert(n, Helper { sig: sig.clone(), block, method, free });
    }
    fn items(&mut self, items: &[Item]) {
        for i in items {
            match i {
                Item::Fn(f) => self.add(&f.sig, &f.block, true),
                Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(m) = x {
                            self.add(&m.sig, &m.block, false);
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(m) = x {
                            if let Some(b) = &m.default {
                                self.add(&m.sig, b, false);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

struct Inl<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    done: Vec<String>,
    n: usize,
}

fn calls(b: &Block, name: &str) -> bool {
    struct C<'x>(&'x str, bool);
    impl<'a, 'x> Visit<'a> for C<'x> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == self.0 {
                    self.1 = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            if c.method == self.0 {
                self.1 = true;
            }
            visit::visit_expr_method_call(self, c);
        }
    }
    let mut c = C(name, false);
    c.visit_block(b);
    c.1
}

impl<'a> Inl<'a> {
    fn build(&mut self, name: &str, args: Vec<Expr>) -> Option<Expr> {
        let h = self.helpers.get(name)?;
        let mut hr = HasReturn(false);
        hr.visit_block(&h.block);
        if hr.0 || calls(&h.block, name) {
            return None;
        }
        let params: Vec<&PatType> = h
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let generic = !h.sig.generics.params.is_empty();
        let mut block = h.block.clone();
        let mut lets: Vec<Stmt> = vec![];
        for (k, (p, a)) in params.iter().zip(args).enumerate() {
            let pat = &p.pat;
            let ty = &p.ty;
            // `x: &mut T` called with `&mut place`: *x becomes the place
            if let (Type::Reference(r), Expr::Reference(ar), Pat::Ident(pi)) = (&**ty, &a, &**pat) {
                if r.mutability.is_some() && ar.mutability.is_some() && matches!(&*ar.expr, Expr::Path(_) | Expr::Field(_)) {
                    let mut d = Deref(pi.ident.to_string(), (*ar.expr).clone());
                    d.visit_block_mut(&mut block);
                    continue;
                }
            }
            // a parameter called with the variable of the same name needs no binding
            if let (Pat::Ident(pi), Expr::Path(ap)) = (&**pat, &a) {
                if pi.mutability.is_none() && ap.path.is_ident(&pi.ident) {
                    continue;
                }
            }
            let tmp = Ident::new(&format!("vx_a{}_{}", self.n, k), proc_macro2::Span::call_site());
            if generic || matches!(&**ty, Type::ImplTrait(_)) || ty.to_token_stream().to_string().contains("Self") {
                lets.push(syn::parse_quote!(let #tmp = #a;));
            } else {
                lets.push(syn::parse_quote!(let #tmp: #ty = #a;));
            }
            lets.push(syn::parse_quote!(let #pat = #tmp;));
        }
        // evaluate all arguments first, then bind
        let (a, b): (Vec<Stmt>, Vec<Stmt>) = lets.into_iter().partition(|s| match s {
            Stmt::Local(l) => {
                let t = l.pat.to_token_stream().to_string();
                t.starts_with("vx_a")
            }
            _ => false,
        });
        // single trivial binding: no temporaries
        let mut stmts: Vec<Stmt> = a;
        stmts.extend(b);
        stmts.extend(block.stmts);
        self.n += 1;
        self.done.push(name.to_string());
        let b = Block { brace_token: Default::default(), stmts };
        if b.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &b.stmts[0] {
                return Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) }));
            }
        }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
}

struct Deref(String, Expr);
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.0) {
                        *e = self.1.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.0) {
                // used as a reference: field access / method call / passed on
                let x = &self.1;
                *e = syn::parse_quote!((&mut #x));
                return;
            }
        }
        // x.f, x[i], x.m() on a reference auto-dereference
        match e {
            Expr::Field(f) => {
                if let Expr::Path(p) = &*f.base {
                    if p.path.is_ident(&self.0) {
                        f.base = Box::new(self.1.clone());
                        return;
                    }
                }
            }
            Expr::Index(f) => {
                if let Expr::Path(p) = &*f.expr {
                    if p.path.is_ident(&self.0) {
                        f.expr = Box::new(self.1.clone());
                        self.visit_expr_mut(&mut f.index);
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident(&self.0) {
                        m.receiver = Box::new(self.1.clone());
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    match self.helpers.get(&name) {
                        Some(h) if h.free || (!h.method && p.path.segments.len() >= 2) => {
                            self.build(&name, c.args.iter().cloned().collect())
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match self.helpers.get(&name) {
                    Some(h) if h.method && m.receiver.to_token_stream().to_string() == "self" => {
                        self.build(&name, m.args.iter().cloned().collect())
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

pub fn inline_new(f: &mut ItemFn, file: &File, known: &BTreeSet<String>, rep: &mut Vec<String>) -> bool {
    let mut c = Collect { known, out: BTreeMap::new(), dup: BTreeSet::new() };
    c.items(&file.items);
    for d in &c.dup.clone() {
        c.out.remove(d);
    }
    if c.out.is_empty() {
        return false;
    }
    let mut inl = Inl { helpers: &c.out, done: vec![], n: 0 };
    inl.visit_block_mut(&mut f.block);
    if inl.done.is_empty() {
        return false;
    }
    for d in inl.done {
        rep.push(format!("call of new helper `{}` inlined", d));
    }
    true
}
