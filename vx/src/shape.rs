// Normal forms for loops, applied to the pinned and to the current text alike, so that contracts written for one
// form also fit the others.  Each rule is an equivalence of the language.
/// std::cmp::min(a, b) -> Ord::min(a, b): the definition of cmp::min
pub fn cmp_fns(b: &mut Block, rep: &mut Vec<String>) {
    struct C<'a>(&'a mut Vec<String>);
    impl<'a> VisitMut for C<'a> {
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            visit_mut::visit_expr_call_mut(self, c);
            let t = toks(&c.func).replace(' ', "");
            for (n, to) in [("min", "Ord::min"), ("max", "Ord::max")] {
                if t == format!("std::cmp::{n}") || t == format!("cmp::{n}") || t == format!("core::cmp::{n}") {
                    c.func = Box::new(parse_str(to).unwrap());
                    self.0.push(format!("cmp::{n} -> {to}"));
                }
            }
        }
    }
    C(rep).visit_block_mut(b);
}
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn shape(b: &mut Block, rep: &mut Vec<String>) {
    Shape(rep).visit_block_mut(b);
}
/// a final `return e;` of a function -> the tail expression `e`
pub fn trailing(b: &mut Block, rep: &mut Vec<String>) {
    if let Some(Stmt::Expr(Expr::Return(_), _)) = b.stmts.last() {
        if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.pop() {
            if let Some(e) = r.expr {
                b.stmts.push(Stmt::Expr(*e, None));
            }
            rep.push("final return -> tail expression".into());
        }
    }
}
struct Shape<'a>(&'a mut Vec<String>);

fn mentions(ts: TokenStream, v: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == v,
        TokenTree::Group(g) => mentions(g.stream(), v),
        _ => false,
    })
}
fn toks<T: ToTokens>(x: &T) -> String {
    x.to_token_stream().to_string()
}
struct Cont(bool, usize);
impl<'a> Visit<'a> for Cont {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        if self.1 == 0 || c.label.is_some() {
            self.0 = true;
        }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr(&mut self, e: &'a Expr) {
        let l = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
        self.1 += l as usize;
        visit::visit_expr(self, e);
        self.1 -= l as usize;
    }
}
fn has_continue(b: &[Stmt]) -> bool {
    let mut c = Cont(false, 0);
    b.iter().for_each(|s| c.visit_stmt(s));
    c.0
}
fn plain_continue(s: Option<&Stmt>) -> bool {
    matches!(s, Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none())
}
fn negate(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => negate(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match &*u.expr {
            Expr::Paren(p) => (*p.expr).clone(),
            e => e.clone(),
        },
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Eq(_) => parse_quote!(#l != #r),
                BinOp::Ne(_) => parse_quote!(#l == #r),
                BinOp::Or(_) => {
                    let (l, r) = (negate(l), negate(r));
                    parse_quote!(#l && #r)
                }
                _ => parse_quote!(!(#e)),
            }
        }
        e => parse_quote!(!(#e)),
    }
}
/// in the body of a `for`: if C { A; continue; } REST  ->  if C { A } else { REST }  (if !C { REST } when A is empty)
fn decontinue(b: &mut Vec<Stmt>) -> bool {
    let mut done = false;
    for i in 0..b.len() {
        let hit = match &b[i] {
            Stmt::Expr(Expr::If(f), _) => f.else_branch.is_none() && plain_continue(f.then_branch.stmts.last()) && !has_continue(&f.then_branch.stmts[..f.then_branch.stmts.len() - 1]),
            _ => false,
        };
        if !hit {
            continue;
        }
        let mut rest: Vec<Stmt> = b.drain(i + 1..).collect();
        decontinue(&mut rest);
        let f = match b.pop() {
            Some(Stmt::Expr(Expr::If(f), _)) => f,
            _ => unreachable!(),
        };
        let mut then = f.then_branch.stmts;
        then.pop();
        let c = &f.cond;
        let is_let = mentions(c.to_token_stream(), "let");
        let e: Expr = if rest.is_empty() {
            parse_quote!(if #c { #(#then)* })
        } else if then.is_empty() && !is_let {
            let n = negate(c);
            parse_quote!(if #n { #(#rest)* })
        } else {
            parse_quote!(if #c { #(#then)* } else { #(#rest)* })
        };
        b.push(Stmt::Expr(e, None));
        done = true;
        break;
    }
    if plain_continue(b.last()) {
        b.pop();
        done = true;
    }
    // the branches of a last `if` end the body as well
    if let Some(Stmt::Expr(e @ Expr::If(_), _)) = b.last_mut() {
        done |= decontinue_if(e);
    }
    done
}
fn decontinue_if(e: &mut Expr) -> bool {
    match e {
        Expr::If(f) => {
            let mut done = decontinue(&mut f.then_branch.stmts);
            if let Some((_, x)) = &mut f.else_branch {
                done |= decontinue_if(x);
            }
            done
        }
        Expr::Block(b) if b.label.is_none() => decontinue(&mut b.block.stmts),
        _ => false,
    }
}
fn ident_pat(p: &Pat) -> Option<(String, bool)> {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some((i.ident.to_string(), i.mutability.is_some())),
        Pat::Type(t) => ident_pat(&t.pat),
        _ => None,
    }
}
fn is_step(s: &Stmt, v: &str, op: &str) -> bool {
    let t = toks(s).trim_end_matches(';').trim().to_string();
    t == format!("{} {} 1", v, op)
}
fn body_changes(b: &[Stmt], v: &str) -> bool {
    let blk = Block { brace_token: Default::default(), stmts: b.to_vec() };
    crate::desugar::assigned(&blk, v)
}

impl<'a> Shape<'a> {
    /// let mut i = E; while i > 0 { i -= 1; REST }  ->  for i in (0..E).rev() { REST }
    /// let mut i = A; while i < E { REST i += 1; }  ->  for i in A..E { REST }       (i not used afterwards)
    fn counted(&mut self, stmts: &mut Vec<Stmt>) {
        let mut k = 0;
        while k + 1 < stmts.len() {
            let r = (|| {
                let Stmt::Local(l) = &stmts[k] else { return None };
                let (v, m) = ident_pat(&l.pat)?;
                let init = l.init.as_ref()?;
                if !m || init.diverge.is_some() {
                    return None;
                }
                let Stmt::Expr(Expr::While(w), _) = &stmts[k + 1] else { return None };
                if w.label.is_some() || stmts[k + 2..].iter().any(|s| mentions(s.to_token_stream(), &v)) || mentions(init.expr.to_token_stream(), &v) {
                    return None;
                }
                let i = proc_macro2::Ident::new(&v, proc_macro2::Span::call_site());
                let (e, c, body) = (&init.expr, toks(&w.cond), &w.body.stmts);
                if c == format!("{} > 0", v) || c == format!("0 < {}", v) {
                    if body.is_empty() || !is_step(&body[0], &v, "-=") || body_changes(&body[1..], &v) {
                        return None;
                    }
                    let rest = &body[1..];
                    let f: Expr = parse_quote!(for #i in (0..#e).rev() { #(#rest)* });
                    return Some((f, v));
                }
                if let Expr::Binary(b) = &*w.cond {
                    if matches!(b.op, BinOp::Lt(_)) && toks(&b.left) == v && !mentions(b.right.to_token_stream(), &v) {
                        let n = body.len();
                        if n == 0 || !is_step(&body[n - 1], &v, "+=") || body_changes(&body[..n - 1], &v) || has_continue(body) {
                            return None;
                        }
                        let wb = Block { brace_token: Default::default(), stmts: body.clone() };
                        let fixed = match &*b.right {
                            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => self_free(&m.receiver, &wb),
                            x => self_free(x, &wb),
                        };
                        if !fixed {
                            return None;
                        }
                        let (rest, hi) = (&body[..n - 1], &b.right);
                        let f: Expr = parse_quote!(for #i in #e..#hi { #(#rest)* });
                        return Some((f, v));
                    }
                }
                None
            })();
            if let Some((f, v)) = r {
                self.0.push(format!("counted while -> for ({})", v));
                stmts[k] = Stmt::Expr(f, None);
                stmts.remove(k + 1);
            }
            k += 1;
        }
    }
}
/// a local variable, parameter or literal (or an index into one) that the body never assigns, borrows mutably or calls a method on
fn self_free(e: &Expr, body: &Block) -> bool {
    struct Roots(Vec<String>, bool);
    impl<'a> Visit<'a> for Roots {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Path(p) if p.path.get_ident().is_some() => self.0.push(p.path.get_ident().unwrap().to_string()),
                Expr::Lit(_) => {}
                Expr::Index(_) | Expr::Paren(_) | Expr::Binary(_) => visit::visit_expr(self, e),
                _ => self.1 = true,
            }
        }
    }
    let mut r = Roots(vec![], false);
    r.visit_expr(e);
    if r.1 {
        return false;
    }
    // a shared reference or a value whose only uses in the body are reads by index
    struct Uses<'x>(&'x str, bool);
    impl<'a, 'x> Visit<'a> for Uses<'x> {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if m.receiver.to_token_stream().into_iter().next().map(|t| t.to_string() == self.0).unwrap_or(false) && m.method != "len" && m.method != "clone" && m.method != "is_empty" && m.method != "iter" {
                self.1 = true;
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if a.left.to_token_stream().into_iter().next().map(|t| t.to_string() == self.0).unwrap_or(false) {
                self.1 = true;
            }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            if crate::norm::is_assign_op(&b.op) && b.left.to_token_stream().into_iter().next().map(|t| t.to_string() == self.0).unwrap_or(false) {
                self.1 = true;
            }
            visit::visit_expr_binary(self, b);
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if r.mutability.is_some() && mentions(r.expr.to_token_stream(), self.0) {
                self.1 = true;
            }
            visit::visit_expr_reference(self, r);
        }
    }
    r.0.iter().all(|v| {
        let mut u = Uses(v, false);
        u.visit_block(body);
        !u.1
    })
}

impl<'a> VisitMut for Shape<'a> {
    // loop { if C { break; } REST }  ->  while !C { REST }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let r: Option<Expr> = (|| {
            let Expr::Loop(l) = &*e else { return None };
            let Stmt::Expr(Expr::If(f), _) = l.body.stmts.first()? else { return None };
            let [Stmt::Expr(Expr::Break(k), _)] = &f.then_branch.stmts[..] else { return None };
            if f.else_branch.is_some() || k.label.is_some() || k.expr.is_some() || mentions(f.cond.to_token_stream(), "let") {
                return None;
            }
            let (n, rest, lab) = (negate(&f.cond), &l.body.stmts[1..], &l.label);
            Some(parse_quote!(#lab while #n { #(#rest)* }))
        })();
        if let Some(n) = r {
            self.0.push("loop with a leading exit test -> while".into());
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.counted(&mut b.stmts);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if decontinue(&mut f.body.stmts) {
            self.0.push("early continue -> if".into());
        }
        // for i in 0..X.len() { let v = X[i]; REST }  ->  for &v in &X { REST }   (X not changed in REST, i not used in it)
        let r = (|| {
            let (i, m) = ident_pat(&f.pat)?;
            let mut it = &*f.expr;
            while let Expr::Paren(p) = it {
                it = &p.expr;
            }
            let Expr::Range(r) = it else { return None };
            if m || !matches!(r.limits, RangeLimits::HalfOpen(_)) || toks(r.start.as_ref()?) != "0" {
                return None;
            }
            let Expr::MethodCall(len) = &**r.end.as_ref()? else { return None };
            if len.method != "len" || !len.args.is_empty() {
                return None;
            }
            let x = &len.receiver;
            let Stmt::Local(l) = f.body.stmts.first()? else { return None };
            let (v, m) = ident_pat(&l.pat)?;
            let init = l.init.as_ref()?;
            if m || init.diverge.is_some() || matches!(l.pat, Pat::Type(_)) || v == i {
                return None;
            }
            let Expr::Index(ix) = &*init.expr else { return None };
            if toks(&ix.expr) != toks(x) || toks(&ix.index) != i || mentions(x.to_token_stream(), &i) || mentions(x.to_token_stream(), &v) {
                return None;
            }
            let rest = &f.body.stmts[1..];
            if rest.iter().any(|s| mentions(s.to_token_stream(), &i)) {
                return None;
            }
            if !self_free(x, &Block { brace_token: Default::default(), stmts: rest.to_vec() }) {
                return None;
            }
            let (v, lab) = (proc_macro2::Ident::new(&v, proc_macro2::Span::call_site()), &f.label);
            Some(parse_quote!(#lab for &#v in &#x { #(#rest)* }))
        })();
        if let Some(n) = r {
            self.0.push("index loop over a whole slice -> for over its elements".into());
            *f = n;
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}
