//! An iterator loop of the pinned text became an index loop over the same collection: the index takes the name the
//! annotations use for the generated one.
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.0.insert(i.to_string());
    }
}
struct Ren<'x>(&'x str, &'x str);
impl<'x> VisitMut for Ren<'x> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == self.0 {
            *i = Ident::new(self.1, i.span());
        }
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
}
fn zero_let(s: &Stmt) -> Option<String> {
    let Stmt::Local(l) = s else { return None };
    let p = match &l.pat {
        Pat::Type(t) => &*t.pat,
        p => p,
    };
    let (Pat::Ident(p), Some(init)) = (p, &l.init) else { return None };
    match &*init.expr {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0" && p.mutability.is_some() => Some(p.ident.to_string()),
        _ => None,
    }
}
struct R<'a> {
    texts: &'a [String],
    have: BTreeSet<String>,
    rep: &'a mut Vec<String>,
}
impl<'a> R<'a> {
    /// the generated index that the invariants of this loop speak of and that the body lacks
    fn wanted(&self, w: &ExprWhile) -> Option<String> {
        for s in &w.body.stmts {
            let Stmt::Macro(m) = s else { continue };
            if !m.mac.path.is_ident("vx_inv") {
                continue;
            }
            let t = &self.texts[m.mac.tokens.to_string().trim().parse::<usize>().ok()?];
            for x in t.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                if x.len() > 4 && x.starts_with("vx_k") && x[4..].chars().all(|c| c.is_ascii_digit()) && !self.have.contains(x) {
                    return Some(x.to_string());
                }
            }
        }
        None
    }
}
impl<'a> VisitMut for R<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for i in 0..b.stmts.len() {
            let Stmt::Expr(Expr::While(w), _) = &b.stmts[i] else { continue };
            let Expr::Binary(c) = &*w.cond else { continue };
            let (BinOp::Lt(_) | BinOp::Ne(_), Expr::Path(x)) = (&c.op, &*c.left) else { continue };
            let Some(x) = x.path.get_ident().map(|x| x.to_string()) else { continue };
            let Some(new) = self.wanted(w) else { continue };
            let Some(j) = (0..i).rev().find(|j| zero_let(&b.stmts[*j]).as_deref() == Some(&x)) else { continue };
            for k in j..b.stmts.len() {
                if k > j && matches!(&b.stmts[k], Stmt::Local(_)) && zero_let(&b.stmts[k]).as_deref() == Some(&x) {
                    break;
                }
                Ren(&x, &new).visit_stmt_mut(&mut b.stmts[k]);
            }
            self.rep.push(format!("loop index {x} renamed to {new}"));
            self.have.insert(new);
        }
        visit_mut::visit_block_mut(self, b);
    }
}
pub fn counters(b: &mut Block, texts: &[String], rep: &mut Vec<String>) {
    let mut h = Idents::default();
    h.visit_block(b);
    R { texts, have: h.0, rep }.visit_block_mut(b);
}
