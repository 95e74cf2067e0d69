// Mechanical, meaning-preserving rewriting into the subset Verus accepts.  Each rule is listed in DESIGN.md.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn desugar(f: &mut ItemFn, rep: &mut Vec<String>, opts: &HashMap<String, String>) -> Vec<String> {
    let refs: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(_)) => Some(t.pat.to_token_stream().to_string()),
            _ => None,
        })
        .collect();
    let mut d = D { rep, n: 0, fors: vec![], refs, divassign: opts.contains_key("divassign"), boolassign: opts.contains_key("boolassign"), iterloop: opts.contains_key("iterloop"), nodebug: opts.contains_key("nodebug"), maypanic: opts.contains_key("maypanic") };
    d.visit_block_mut(&mut f.block);
    d.fors
}

struct D<'a> {
    fors: Vec<String>,
    rep: &'a mut Vec<String>,
    n: usize,
    refs: Vec<String>,
    divassign: bool,
    boolassign: bool,
    iterloop: bool,
    nodebug: bool,
    maypanic: bool,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

struct HasContinue(bool, usize);
impl<'a> Visit<'a> for HasContinue {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        if self.1 == 0 || c.label.is_some() {
            self.0 = true;
        }
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        let l = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
        if l {
            self.1 += 1;
        }
        visit::visit_expr(self, e);
        if l {
            self.1 -= 1;
        }
    }
}

struct Assigned<'x>(&'x str, bool);
impl<'a, 'x> Visit<'a> for Assigned<'x> {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if a.left.to_token_stream().to_string() == self.0 {
            self.1 = true;
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        let s = b.op.to_token_stream().to_string();
        if s.ends_with('=') && !["==", "<=", ">=", "!="].contains(&s.as_str()) && b.left.to_token_stream().to_string() == self.0 {
            self.1 = true;
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() && r.expr.to_token_stream().to_string() == self.0 {
            self.1 = true;
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.ident == self.0 {
            self.1 = true;
        }
    }
}
pub fn assigned(b: &Block, v: &str) -> bool {
    let mut a = Assigned(v, false);
    a.visit_block(b);
    a.1
}

struct Idents(Vec<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.push(i.to_string());
        }
    }
}

/// place expression whose value cannot change during the loop (the real iterator borrows it), given that
/// the index variables in it are not assigned in the body
fn stable(e: &Expr, body: &Block) -> bool {
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => place(&f.base),
            Expr::Index(i) => place(&i.expr) && place(&i.index),
            Expr::Paren(p) => place(&p.expr),
            _ => false,
        }
    }
    if !place(e) {
        return false;
    }
    let mut ids = Idents(vec![]);
    ids.visit_expr(e);
    ids.0.iter().all(|v| v == "self" || !assigned(body, v))
}

fn unparen(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => unparen(*p.expr),
        e => e,
    }
}

impl<'a> D<'a> {
    fn for_loop(&mut self, f: ExprForLoop, n: usize) -> Option<Expr> {
        let mut body = f.body;
        let pat = *f.pat;
        let mut it = unparen(*f.expr);
        let label = f.label;
        let mut hc = HasContinue(false, 0);
        hc.visit_block(&body);
        let cont = hc.0;
        let mut rev = false;
        let mut enumerate = false;
        let mut by = ""; // iter | into_iter
        // peel adapters
        loop {
            match it {
                Expr::MethodCall(m) if m.args.is_empty() => {
                    let name = m.method.to_string();
                    match name.as_str() {
                        "rev" if !rev && by.is_empty() => rev = true,
                        "enumerate" if !enumerate && by.is_empty() && !rev => enumerate = true,
                        "iter" | "into_iter" if by.is_empty() => {
                            by = if name == "iter" { "iter" } else { "into_iter" };
                        }
                        _ => return None,
                    }
                    it = unparen(*m.receiver);
                }
                _ => break,
            }
        }
        let k = id(&format!("vx_k{}", n));
        let e = id(&format!("vx_e{}", n));
        let s = id(&format!("vx_s{}", n));
        if let Expr::Range(r) = it {
            if enumerate || by == "iter" {
                return None;
            }
            let a = unparen(*r.start?);
            let b = unparen(*r.end?);
            let incl = matches!(r.limits, RangeLimits::Closed(_));
            self.rep.push(format!("for over a range -> while (loop variable {})", pat.to_token_stream()));
            if rev {
                let start: Expr = if incl { syn::parse_quote!(#b + 1) } else { b };
                let body_stmts = body.stmts;
                let simple = matches!(a, Expr::Lit(_));
                let (pre, lo): (Vec<Stmt>, Expr) =
                    if simple { (vec![], a) } else { (vec![syn::parse_quote!(let #e = #a;)], syn::parse_quote!(#e)) };
                let w: Expr = syn::parse_quote!(#label while #k > #lo { #k -= 1; let #pat = #k; #(#body_stmts)* });
                return Some(syn::parse_quote!({ #(#pre)* let mut #k = #start; #w }));
            }
            let var = match &pat {
                Pat::Ident(p) if !cont && p.mutability.is_none() => p.ident.clone(),
                _ => k.clone(),
            };
            let simple = match &b {
                Expr::Lit(_) => true,
                Expr::Path(p) => p.path.get_ident().map(|i| !assigned(&body, &i.to_string()) && *i != var).unwrap_or(false),
                _ => false,
            };
            let (pre, hi): (Vec<Stmt>, Expr) =
                if simple { (vec![], b) } else { (vec![syn::parse_quote!(let #e = #b;)], syn::parse_quote!(#e)) };
            let cond: Expr = if incl { syn::parse_quote!(#var <= #hi) } else { syn::parse_quote!(#var < #hi) };
            let stmts = std::mem::take(&mut body.stmts);
            let w: Expr = if var != k {
                let stmts = semi_last(stmts);
                syn::parse_quote!(#label while #cond { #(#stmts)* vx_tailmark!(); #var += 1; })
            } else {
                syn::parse_quote!(#label while #cond { let #pat = #k; #k += 1; #(#stmts)* })
            };
            return Some(syn::parse_quote!({ #(#pre)* let mut #var = #a; #w }));
        }
        if rev {
            return None;
        }
        // collections
        let mut pre: Vec<Stmt> = vec![];
        let (src, elem_ref): (Expr, bool) = match (it, by) {
            (Expr::Reference(r), "") if r.mutability.is_none() => {
                let x = unparen(*r.expr);
                if let Expr::Array(_) = x {
                    pre.push(syn::parse_quote!(let #s = #x;));
                    (syn::parse_quote!(#s), true)
                } else if stable(&x, &body) {
                    (x, true)
                } else {
                    pre.push(syn::parse_quote!(let #s = &#x;));
                    (syn::parse_quote!(#s), true)
                }
            }
            (x, "iter") => {
                if stable(&x, &body) {
                    (x, true)
                } else {
                    pre.push(syn::parse_quote!(let #s = &#x;));
                    (syn::parse_quote!(#s), true)
                }
            }
            (x, "into_iter") => {
                let isref = matches!(&x, Expr::Path(p) if self.refs.contains(&p.to_token_stream().to_string()));
                if isref {
                    (x, true)
                } else {
                    pre.push(syn::parse_quote!(let #s = #x;));
                    (syn::parse_quote!(#s), false)
                }
            }
            (Expr::Path(p), "") => {
                let isref = self.refs.contains(&p.to_token_stream().to_string());
                if isref {
                    (Expr::Path(p), true)
                } else {
                    pre.push(syn::parse_quote!(let #s = #p;));
                    (syn::parse_quote!(#s), false)
                }
            }
            _ => return None,
        };
        let (ipat, epat) = if enumerate {
            match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                _ => return None,
            }
        } else {
            (None, pat)
        };
        self.rep.push(format!("for over a collection -> index loop ({})", epat.to_token_stream()));
        let bind: Stmt = if elem_ref {
            match &epat {
                Pat::Reference(r) => {
                    let p = &r.pat;
                    syn::parse_quote!(let #p = #src[#k];)
                }
                p => syn::parse_quote!(let #p = &#src[#k];),
            }
        } else {
            self.rep.push("element of a consumed collection is cloned instead of moved".into());
            syn::parse_quote!(let #epat = #src[#k].clone();)
        };
        let ib: Vec<Stmt> = match ipat {
            Some(p) => vec![syn::parse_quote!(let #p = #k;)],
            None => vec![],
        };
        let stmts = body.stmts;
        let w: Expr = if cont {
            syn::parse_quote!(#label while #k < #src.len() { #(#ib)* #bind #k += 1; #(#stmts)* })
        } else {
            let stmts = semi_last(stmts);
            syn::parse_quote!(#label while #k < #src.len() { #(#ib)* #bind #(#stmts)* vx_tailmark!(); #k += 1; })
        };
        Some(syn::parse_quote!({ #(#pre)* let mut #k: usize = 0; #w }))
    }
}

fn semi_last(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
        if semi.is_none() && !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::If(_) | Expr::Block(_) | Expr::Match(_)) {
            *semi = Some(Default::default());
        }
    }
    v
}

fn simple_cond(e: &Expr) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_block(&mut self, _: &'a ExprBlock) {
            self.0 = true;
        }
        fn visit_expr_assign(&mut self, _: &'a ExprAssign) {
            self.0 = true;
        }
    }
    let mut b = B(false);
    b.visit_expr(e);
    !b.0
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            return Some((c.inputs[0].clone(), (*c.body).clone()));
        }
    }
    None
}

impl<'a> VisitMut for D<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let mut e2 = e.clone();
            self.mac(&mut e2);
            if !matches!(e2, Expr::Macro(_)) {
                *s = Stmt::Expr(e2, Some(Default::default()));
            }
        }
        // x /= e;  ->  x = x / (e);   (option divassign: the operands are primitive integers and x a local variable)
        if let Stmt::Expr(Expr::Binary(b), _) = s {
            if self.divassign && matches!(b.op, BinOp::DivAssign(_) | BinOp::RemAssign(_)) && matches!(&*b.left, Expr::Path(_)) {
                let (l, r) = (&b.left, &b.right);
                let n: Stmt = if matches!(b.op, BinOp::DivAssign(_)) { parse_quote!(#l = #l / (#r);) } else { parse_quote!(#l = #l % (#r);) };
                self.rep.push("x /= e (or %=) -> x = x / (e)".into());
                *s = n;
            }
        }
        // a[i] op= x.clone();  ->  { let vx_t = x.clone(); a[i] op= vx_t; }
        if let Stmt::Expr(Expr::Binary(b), _) = s {
            if crate::norm::is_assign_op(&b.op) && matches!(&*b.left, Expr::Index(_)) && matches!(&*b.right, Expr::MethodCall(m) if m.method == "clone") {
                let (l, o, r) = (&b.left, &b.op, &b.right);
                self.rep.push("operand of a compound assignment evaluated first".into());
                *s = Stmt::Expr(syn::parse_quote!({ let vx_t = #r; #l #o vx_t; }), None);
            }
        }
        // x.into_iter()...for_each(|p| B);
        if let Stmt::Expr(Expr::MethodCall(m), _) = s {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Some((p, b)) = closure1(&m.args[0]) {
                    let r = &m.receiver;
                    let body: Block = match b {
                        Expr::Block(b) => b.block,
                        // a nested for_each closure body, or any unit expression
                        b => syn::parse_quote!({ #b; }),
                    };
                    self.rep.push("for_each -> for".into());
                    *s = Stmt::Expr(syn::parse_quote!(for #p in #r #body), None);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order part: for loops get their number before the nested ones
        if let Expr::ForLoop(_) = e {
            let n = self.n;
            self.n += 1;
            let old = std::mem::replace(e, Expr::Verbatim(Default::default()));
            if let Expr::ForLoop(f) = old {
                self.fors.push(crate::align::neutral(&format!("{} in {} {}", f.pat.to_token_stream(), f.expr.to_token_stream(), f.body.to_token_stream())));
                match self.for_loop(f.clone(), n) {
                    Some(x) => {
                        *e = x;
                    }
                    // the language's own definition of `for` (option iterloop)
                    None if self.iterloop => {
                        let (pat, it, b, lab) = (&f.pat, unparen((*f.expr).clone()), &f.body.stmts, &f.label);
                        let it: Expr = if matches!(&it, Expr::MethodCall(m) if m.method == "into_iter" || m.method == "iter") { it } else { syn::parse_quote!(#it.into_iter()) };
                        let v = id(&format!("vx_it{}", n));
                        self.rep.push("for -> loop over next()".into());
                        *e = syn::parse_quote!({
                            let mut #v = #it;
                            #lab loop { match #v.next() { Some(#pat) => { #(#b)* } None => { break; } } }
                        });
                    }
                    None => {
                        *e = Expr::ForLoop(f);
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.collect(m) {
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.mac(e);
        // r.map(f).unwrap_or_else(|p| b) on a Result (the closure takes the error) -> match r { Ok(v) => f(v), Err(p) => b }
        if let Expr::MethodCall(u) = e {
            if u.method == "unwrap_or_else" && u.args.len() == 1 {
                if let (Expr::Closure(c), Expr::MethodCall(m)) = (&u.args[0], unparen((*u.receiver).clone())) {
                    if c.inputs.len() == 1 && m.method == "map" && m.args.len() == 1 {
                        let (x, err, body) = (&m.receiver, &c.inputs[0], &c.body);
                        let n: Option<Expr> = match &m.args[0] {
                            Expr::Path(f) => Some(parse_quote!(match #x { Ok(vx_v) => #f(vx_v), Err(#err) => #body })),
                            Expr::Closure(k) if k.inputs.len() == 1 => {
                                let (kp, kb) = (&k.inputs[0], &k.body);
                                Some(parse_quote!(match #x { Ok(#kp) => #kb, Err(#err) => #body }))
                            }
                            _ => None,
                        };
                        if let Some(n) = n {
                            self.rep.push("Result::map + unwrap_or_else -> match".into());
                            *e = n;
                        }
                    }
                }
            }
        }
        // strict (non short-circuit) operators on bool, which the verifier lacks (option boolassign): a |= b -> a = vx_bor(a, b)
        if self.boolassign {
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                let n: Option<Expr> = match &b.op {
                    BinOp::BitOrAssign(_) if matches!(&**l, Expr::Path(_)) => Some(parse_quote!(#l = vx_bor(#l, #r))),
                    BinOp::BitAndAssign(_) if matches!(&**l, Expr::Path(_)) => Some(parse_quote!(#l = vx_band(#l, #r))),
                    BinOp::BitOr(_) => Some(parse_quote!(vx_bor(#l, #r))),
                    BinOp::BitAnd(_) => Some(parse_quote!(vx_band(#l, #r))),
                    _ => None,
                };
                if let Some(n) = n {
                    self.rep.push("strict bool operator -> vx_bor / vx_band".into());
                    *e = n;
                }
            }
        }
        match e {
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    let st = &b.stmts;
                    self.rep.push("while let -> loop".into());
                    *e = syn::parse_quote!(#lab loop { if let #p = #x { #(#st)* } else { break; } });
                } else if !simple_cond(&w.cond) {
                    let (lab, b) = (&w.label, &w.body.stmts);
                    self.rep.push("while with a block condition -> loop".into());
                    let new: Expr = if let Expr::Block(cb) = &*w.cond {
                        let mut st = cb.block.stmts.clone();
                        match st.pop() {
                            Some(Stmt::Expr(c, None)) => {
                                syn::parse_quote!(#lab loop { #(#st)* if !#c { break; } #(#b)* })
                            }
                            _ => return,
                        }
                    } else {
                        let c = &w.cond;
                        syn::parse_quote!(#lab loop { if !(#c) { break; } #(#b)* })
                    };
                    *e = new;
                }
            }
            // apply(|x| x, e) -> e, apply(|&x| x, e) -> *e, apply(path, e) -> path(e)
            Expr::Call(c) if c.args.len() == 2 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("apply")) => {
                let a = c.args[1].clone();
                let new: Option<Expr> = match &c.args[0] {
                    Expr::Path(p) => Some(syn::parse_quote!(#p(#a))),
                    x => closure1(x).and_then(|(p, b)| {
                        let bt = b.to_token_stream().to_string();
                        match &p {
                            Pat::Ident(i) if i.ident == bt => Some(a.clone()),
                            Pat::Reference(r) if r.pat.to_token_stream().to_string() == bt => Some(syn::parse_quote!(*#a)),
                            _ => None,
                        }
                    }),
                };
                if let Some(x) = new {
                    self.rep.push("apply(f, e) -> f(e), identity closures reduced".into());
                    *e = x;
                }
            }
            // it.fold(init, f) -> loop over it.next()
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 && matches!(&m.args[1], Expr::Path(_)) => {
                let (r, i, f) = (&m.receiver, &m.args[0], &m.args[1]);
                self.rep.push("fold -> loop over next()".into());
                *e = syn::parse_quote!({
                    let mut vx_it = #r;
                    let mut vx_acc = #i;
                    loop {
                        match vx_it.next() {
                            Some(vx_x) => { vx_acc = #f(vx_acc, vx_x); }
                            None => { break; }
                        }
                    }
                    vx_acc
                });
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(&c.args[0], Expr::Array(_))
                && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Vec" && p.path.segments[1].ident == "from") =>
            {
                let Expr::Array(a) = &c.args[0] else { unreachable!() };
                let el = &a.elems;
                self.rep.push("Vec::from([..]) -> vec![..]".into());
                *e = syn::parse_quote!(vec![#el]);
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "fill" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    self.rep.push("slice::fill -> vx_fill".into());
                    *e = syn::parse_quote!(vx_fill(&mut #r, #a));
                } else if name == "unwrap" && matches!(&*m.receiver, Expr::MethodCall(q) if q.method == "last_mut" && q.args.is_empty()) {
                    let Expr::MethodCall(q) = &*m.receiver else { unreachable!() };
                    let r = &q.receiver;
                    self.rep.push("last_mut().unwrap() -> vx_last_mut".into());
                    *e = syn::parse_quote!(vx_last_mut(&mut #r));
                } else if name == "clone_from_slice" && m.args.len() == 1 {
                    let a = m.args[0].clone();
                    self.rep.push("slice::clone_from_slice -> vx_clone_from_slice".into());
                    let r = (*m.receiver).clone();
                    if let Expr::Index(ix) = &r {
                        if let Expr::Range(rg) = &*ix.index {
                            if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                let b = &ix.expr;
                                *e = syn::parse_quote!(vx_clone_from_slice_range(&mut #b, #lo, #hi, #a));
                                return;
                            }
                        }
                    }
                    *e = syn::parse_quote!(vx_clone_from_slice(&mut #r, #a));
                }
            }
            _ => {}
        }
    }
}

impl<'a> D<'a> {
    fn mac(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "debug_assert" if self.nodebug => {
                    self.rep.push(format!("debug assertion dropped: {}", m.mac.tokens));
                    *e = syn::parse_quote!(());
                }
                "panic" if self.maypanic => {
                    self.rep.push("panic! -> vx_may_panic (does not return)".into());
                    *e = syn::parse_quote!(vx_may_panic());
                }
                "assert" | "debug_assert" => {
                    if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        self.rep.push(format!("{}! -> vx_assert (must hold)", name));
                        *e = syn::parse_quote!(vx_assert(#c));
                    }
                }
                "assert_eq" | "debug_assert_eq" => {
                    if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let (x, y) = (a[0].clone(), a[1].clone());
                        self.rep.push(format!("{}! -> vx_assert (must hold)", name));
                        *e = syn::parse_quote!(vx_assert(#x == #y));
                    }
                }
                "panic" | "unreachable" | "todo" | "unimplemented" => {
                    self.rep.push(format!("{}! -> vx_panic (must be unreachable)", name));
                    *e = syn::parse_quote!(vx_panic());
                }
                _ => {}
            }
        }
    }
    /// (a..b).map(|p| B).collect(), v.into_iter().filter(|p| C).collect(), (a..b).collect()
    fn collect(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "collect" || !m.args.is_empty() {
            return None;
        }
        let r = unparen((*m.receiver).clone());
        match &r {
            Expr::Range(g) => {
                let (a, b) = (g.start.as_ref()?, g.end.as_ref()?);
                if !matches!(g.limits, RangeLimits::HalfOpen(_)) {
                    return None;
                }
                self.rep.push("(a..b).collect() -> vx_range_vec".into());
                Some(syn::parse_quote!(vx_range_vec(#a, #b)))
            }
            Expr::MethodCall(k) if k.method == "bytes" && k.args.is_empty() => {
                let x = &k.receiver;
                self.rep.push("s.bytes().collect() -> vx_bytes(s)".into());
                Some(syn::parse_quote!(vx_bytes(#x)))
            }
            Expr::MethodCall(k) if k.method == "map" && k.args.len() == 1 => {
                let (p, b) = closure1(&k.args[0])?;
                let it = &k.receiver;
                self.rep.push("map(..).collect() -> loop pushing into a Vec".into());
                Some(syn::parse_quote!({
                    let mut vx_out = Vec::new();
                    for #p in #it {
                        let vx_v = #b;
                        vx_out.push(vx_v);
                    }
                    vx_out
                }))
            }
            Expr::MethodCall(k) if k.method == "filter" && k.args.len() == 1 => {
                let (p, b) = closure1(&k.args[0])?;
                let it = &k.receiver;
                self.rep.push("filter(..).collect() -> loop pushing into a Vec".into());
                Some(syn::parse_quote!({
                    let mut vx_out = Vec::new();
                    for vx_x in #it {
                        let vx_keep = { let #p = &vx_x; #b };
                        if vx_keep {
                            vx_out.push(vx_x);
                        }
                    }
                    vx_out
                }))
            }
            _ => None,
        }
    }
}
