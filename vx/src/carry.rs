//! Which places a function's loops carry from one iteration to the next.  A changed function whose loops carry a place
//! they did not carry at the pinned commit needs an invariant that no annotation can know of; an obligation that fails
//! there says nothing about the code (check.py reports it as undecided and leaves the answer to the replay search).
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::*;

pub type Carry = BTreeMap<String, usize>;

fn place(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => Some(format!("{}.{}", place(&f.base)?, f.member.to_token_stream())),
        Expr::Index(i) => place(&i.expr),
        Expr::Paren(p) => place(&p.expr),
        Expr::Reference(p) => place(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => place(&u.expr),
        _ => None,
    }
}
const MUT: &[&str] = &[
    "push", "pop", "push_back", "push_front", "pop_back", "pop_front", "extend", "extend_from_slice", "insert", "remove", "clear", "swap", "append", "truncate", "resize", "entry", "next", "reverse", "drain",
    "retain", "fill", "take", "replace", "sort", "sort_unstable", "get_or_insert", "rotate_left", "rotate_right", "swap_remove", "dedup",
];
#[derive(Default)]
struct Mutated {
    places: BTreeSet<String>,
    bound: BTreeSet<String>,
}
impl Mutated {
    fn add(&mut self, e: &Expr) {
        match e {
            Expr::Tuple(t) => t.elems.iter().for_each(|x| self.add(x)),
            e => {
                if let Some(p) = place(e) {
                    self.places.insert(p);
                }
            }
        }
    }
}
impl<'a> Visit<'a> for Mutated {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.add(&a.left);
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        let s = b.op.to_token_stream().to_string();
        if s.ends_with('=') && !["==", "<=", ">=", "!="].contains(&s.as_str()) {
            self.add(&b.left);
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() {
            self.add(&r.expr);
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if MUT.contains(&m.method.to_string().as_str()) {
            self.add(&m.receiver);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
struct Loops(Carry);
impl<'a> Visit<'a> for Loops {
    fn visit_expr(&mut self, e: &'a Expr) {
        // a loop that is left in a new place needs other invariants at its end
        if matches!(e, Expr::Break(_)) {
            *self.0.entry("break".into()).or_default() += 1;
        }
        if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            let mut m = Mutated::default();
            visit::visit_expr(&mut m, e);
            for p in m.places {
                if !m.bound.contains(p.split('.').next().unwrap()) {
                    *self.0.entry(p).or_default() += 1;
                }
            }
        }
        visit::visit_expr(self, e);
    }
}
pub fn carried(b: &Block) -> Carry {
    let mut l = Loops(Carry::new());
    l.visit_block(b);
    l.0
}
pub fn save(c: &Carry) -> String {
    c.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")
}
pub fn load(s: &str) -> Carry {
    s.split(',').filter_map(|x| x.split_once(':')).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect()
}
/// places that more loops carry now than did at the pinned commit
pub fn grown(pin: &Carry, cur: &Carry) -> Vec<String> {
    cur.iter().filter(|(k, n)| **n > pin.get(*k).copied().unwrap_or(0)).map(|(k, _)| k.clone()).collect()
}
