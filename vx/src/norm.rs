use proc_macro2::{Group, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn fn_text(f: &ItemFn) -> String {
    format!("{} {}", f.sig.to_token_stream(), f.block.to_token_stream())
}

// PhantomData<fn() -> X> -> PhantomData<X> (a zero-sized marker; Verus has no function pointer types)
struct Phantom;
impl VisitMut for Phantom {
    fn visit_path_segment_mut(&mut self, p: &mut PathSegment) {
        if p.ident == "PhantomData" {
            if let PathArguments::AngleBracketed(a) = &mut p.arguments {
                for g in a.args.iter_mut() {
                    if let GenericArgument::Type(Type::BareFn(f)) = g {
                        if let (true, ReturnType::Type(_, t)) = (f.inputs.is_empty(), f.output.clone()) {
                            *g = GenericArgument::Type(*t);
                        }
                    }
                }
            }
        }
        visit_mut::visit_path_segment_mut(self, p);
    }
}
pub fn fix_type(t: &mut Type) {
    Phantom.visit_type_mut(t);
}

// ---------------------------------------------------------------- no-op statements

fn pure_expr(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure_expr),
        Expr::Paren(p) => pure_expr(&p.expr),
        Expr::Reference(r) => pure_expr(&r.expr),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            (s.ends_with("black_box") || s.ends_with("drop"))
                && c.args.iter().all(|a| matches!(a, Expr::Lit(_)) || a.to_token_stream().to_string() == "()" || matches!(a, Expr::Reference(_)) && pure_expr(a))
        }
        _ => false,
    }
}

struct Noops<'a>(&'a mut Vec<String>);
impl<'a> VisitMut for Noops<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        let stmts = std::mem::take(&mut b.stmts);
        for (i, s) in stmts.into_iter().enumerate() {
            let noop = match &s {
                Stmt::Local(l) => {
                    matches!(l.pat, Pat::Wild(_))
                        && l.init.as_ref().map(|x| pure_expr(&x.expr) && x.diverge.is_none()).unwrap_or(false)
                }
                Stmt::Expr(e, semi) => {
                    if semi.is_some() {
                        match e {
                            Expr::If(x) if x.else_branch.is_none() => x.cond.to_token_stream().to_string() == "false",
                            e => pure_expr(e),
                        }
                    } else {
                        i + 1 < n
                            && match e {
                                Expr::If(x) if x.else_branch.is_none() => x.cond.to_token_stream().to_string() == "false",
                                Expr::Block(x) => x.block.stmts.is_empty() && x.label.is_none(),
                                _ => false,
                            }
                    }
                }
                _ => false,
            };
            if noop {
                self.0.push(format!("no-op statement `{}`", s.to_token_stream()));
            } else {
                b.stmts.push(s);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e {
            let b = u.block.clone();
            self.0.push("unsafe block checked as a safe block".into());
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap_unchecked" {
                m.method = Ident::new("unwrap", Span::call_site());
                self.0.push("unwrap_unchecked checked as unwrap (must be Some)".into());
            }
        }
    }
}
pub fn strip_noops(b: &mut Block, rep: &mut Vec<String>) {
    Noops(rep).visit_block_mut(b);
}

// ---------------------------------------------------------------- counting, names

struct Loops(usize);
impl<'a> Visit<'a> for Loops {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => self.0 += 1,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
pub fn count_loops(b: &Block, n: &mut usize) {
    let mut l = Loops(0);
    l.visit_block(b);
    *n = l.0;
}

struct Binds(Vec<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !self.0.contains(&s) && s != "None" {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}
pub fn binding_names(f: &ItemFn) -> Vec<String> {
    let mut b = Binds(vec![]);
    for i in &f.sig.inputs {
        b.visit_fn_arg(i);
    }
    b.visit_block(&f.block);
    b.0
}

// ---------------------------------------------------------------- alpha renaming

pub struct Rename(pub BTreeMap<String, String>);
impl Rename {
    fn id(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn toks(&self, ts: TokenStream) -> TokenStream {
        let mut prev_dot = false;
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) => {
                    let mut i = i;
                    if !prev_dot {
                        self.id(&mut i);
                    }
                    prev_dot = false;
                    TokenTree::Ident(i)
                }
                TokenTree::Group(g) => {
                    prev_dot = false;
                    TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream())))
                }
                TokenTree::Punct(p) => {
                    prev_dot = p.as_char() == '.' && !prev_dot;
                    TokenTree::Punct(p)
                }
                t => {
                    prev_dot = false;
                    t
                }
            })
            .collect()
    }
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            self.id(&mut p.path.segments[0].ident);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}

pub fn alpha(f: &mut ItemFn, pinned: &[String], rep: &mut Vec<String>) {
    let cur = binding_names(f);
    let missing: BTreeSet<&String> = pinned.iter().filter(|n| !cur.contains(n)).collect();
    if missing.is_empty() {
        return;
    }
    // align the two sequences on their common names, pair the rest segment by segment
    let (n, m) = (pinned.len(), cur.len());
    let mut d = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            d[i][j] = if pinned[i] == cur[j] { d[i + 1][j + 1] + 1 } else { d[i + 1][j].max(d[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut map = BTreeMap::new();
    let (mut a, mut b): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let flush = |a: &mut Vec<&String>, b: &mut Vec<&String>, map: &mut BTreeMap<String, String>| {
        let a2: Vec<_> = a.iter().filter(|x| missing.contains(**x)).collect();
        let b2: Vec<_> = b.iter().filter(|x| !pinned.contains(x)).collect();
        for (x, y) in a2.iter().zip(b2.iter()) {
            map.insert((**y).clone(), (**x).clone());
        }
        a.clear();
        b.clear();
    };
    while i < n || j < m {
        if i < n && j < m && pinned[i] == cur[j] {
            flush(&mut a, &mut b, &mut map);
            i += 1;
            j += 1;
        } else if j >= m || (i < n && d[i + 1][j] >= d[i][j + 1]) {
            a.push(&pinned[i]);
            i += 1;
        } else {
            b.push(&cur[j]);
            j += 1;
        }
    }
    flush(&mut a, &mut b, &mut map);
    if !map.is_empty() {
        for (x, y) in &map {
            rep.push(format!("local `{}` renamed to `{}`", x, y));
        }
        let mut r = Rename(map);
        for i in f.sig.inputs.iter_mut() {
            r.visit_fn_arg_mut(i);
        }
        r.visit_block_mut(&mut f.block);
    }
}

// ---------------------------------------------------------------- token substitution

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let xs: Vec<_> = x.stream().into_iter().collect();
                let ys: Vec<_> = y.stream().into_iter().collect();
                xs.len() == ys.len() && xs.iter().zip(&ys).all(|(p, q)| same(p, q))
            }
        }
        _ => a.to_string() == b.to_string(),
    }
}
fn subst_ts(ts: TokenStream, x: &[TokenTree], y: &TokenStream, n: &mut usize) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        if i + x.len() <= toks.len() && (0..x.len()).all(|k| same(&toks[i + k], &x[k])) {
            out.extend(y.clone());
            i += x.len();
            *n += 1;
            continue;
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut g2 = Group::new(g.delimiter(), subst_ts(g.stream(), x, y, n));
                g2.set_span(g.span());
                out.extend([TokenTree::Group(g2)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
pub fn subst(f: &mut ItemFn, x: &str, y: &str) -> std::result::Result<usize, String> {
    let xs: TokenStream = x.parse().map_err(|_| format!("bad subst {}", x))?;
    let ys: TokenStream = y.parse().map_err(|_| format!("bad subst {}", y))?;
    let xs: Vec<TokenTree> = xs.into_iter().collect();
    let mut n = 0;
    let ts = subst_ts(f.to_token_stream(), &xs, &ys, &mut n);
    *f = syn::parse2(ts).map_err(|e| format!("subst {} gives unparsable code: {}", x, e))?;
    Ok(n)
}

// ---------------------------------------------------------------- annotation

/// events of a statement, not looking into nested blocks or closures
struct Ev {
    calls: Vec<String>,
    sets: Vec<String>,
    lets: Vec<String>,
    rets: usize,
}
fn base_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => {
            if let Member::Named(n) = &f.member {
                Some(n.to_string())
            } else {
                None
            }
        }
        Expr::Index(i) => base_name(&i.expr),
        Expr::Unary(u) => base_name(&u.expr),
        Expr::Paren(u) => base_name(&u.expr),
        _ => None,
    }
}
pub fn is_assign_op(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_)
            | BinOp::SubAssign(_)
            | BinOp::MulAssign(_)
            | BinOp::DivAssign(_)
            | BinOp::RemAssign(_)
            | BinOp::BitXorAssign(_)
            | BinOp::BitAndAssign(_)
            | BinOp::BitOrAssign(_)
            | BinOp::ShlAssign(_)
            | BinOp::ShrAssign(_)
    )
}
impl<'a> Visit<'a> for Ev {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            self.calls.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, c);
        self.calls.push(c.method.to_string());
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        visit::visit_expr_assign(self, a);
        if let Some(n) = base_name(&a.left) {
            self.sets.push(n);
        }
    }
    fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
        visit::visit_expr_binary(self, a);
        if is_assign_op(&a.op) {
            if let Some(n) = base_name(&a.left) {
                self.sets.push(n);
            }
        }
    }
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        let mut b = Binds(vec![]);
        b.visit_pat(&l.pat);
        self.lets.extend(b.0);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        visit::visit_expr_return(self, r);
        self.rets += 1;
    }
}

pub struct Annot {
    anchors: BTreeMap<String, Vec<usize>>,
    used: BTreeSet<String>,
    ret: Option<String>,
    nclo: usize,
    count: BTreeMap<String, usize>,
    pub sigs: crate::align::Sigs,
    pub map: crate::align::Map,
}

fn marker(kind: &str, id: usize) -> Stmt {
    let k = Ident::new(kind, Span::call_site());
    let l = proc_macro2::Literal::usize_unsuffixed(id);
    syn::parse_quote!(#k!(#l);)
}

impl Annot {
    pub fn new(anchors: BTreeMap<String, Vec<usize>>, ret: Option<String>) -> Self {
        Annot { anchors, used: BTreeSet::new(), ret, nclo: 0, count: BTreeMap::new(), sigs: Default::default(), map: Default::default() }
    }
    /// the number the next item of this kind gets
    fn peek(&self, kind: &str) -> usize {
        let c = self.count.get(kind).copied().unwrap_or(0);
        self.map.get(kind).and_then(|m| m.get(c).copied()).unwrap_or(c)
    }
    fn num(&mut self, kind: &str, sig: String) -> usize {
        let k = self.peek(kind);
        *self.count.entry(kind.to_string()).or_insert(0) += 1;
        self.sigs.entry(kind.to_string()).or_default().push(crate::align::neutral(&sig));
        k
    }
    pub fn lost(&self) -> Vec<String> {
        self.anchors.keys().filter(|k| !self.used.contains(*k)).map(|k| format!("anchor {}", k)).collect()
    }
    fn get(&mut self, a: &str) -> Vec<Stmt> {
        match self.anchors.get(a) {
            Some(v) => {
                let v = v.clone();
                self.used.insert(a.to_string());
                v.into_iter().map(|i| marker("vx_ghost", i)).collect()
            }
            None => vec![],
        }
    }
    fn invs(&mut self, a: &str) -> Vec<Stmt> {
        match self.anchors.get(a) {
            Some(v) => {
                let v = v.clone();
                self.used.insert(a.to_string());
                v.into_iter().map(|i| marker("vx_inv", i)).collect()
            }
            None => vec![],
        }
    }
    pub fn run(&mut self, f: &mut ItemFn) {
        let unit = matches!(f.sig.output, ReturnType::Default);
        self.visit_block_mut(&mut f.block);
        // entry
        let e = self.get("entry");
        let rest = std::mem::take(&mut f.block.stmts);
        f.block.stmts = e;
        f.block.stmts.extend(rest);
        // exit
        if self.anchors.contains_key("exit") {
            let g = self.get("exit");
            if unit {
                if let Some(Stmt::Expr(_, semi)) = f.block.stmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                f.block.stmts.extend(g);
            } else if matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None))) {
                let Some(Stmt::Expr(e, None)) = f.block.stmts.pop() else { unreachable!() };
                let r = Ident::new(self.ret.as_deref().unwrap_or("vx_ret"), Span::call_site());
                let ty = match &f.sig.output {
                    ReturnType::Type(_, t) => t.clone(),
                    _ => unreachable!(),
                };
                f.block.stmts.push(syn::parse_quote!(let #r: #ty = #e;));
                f.block.stmts.extend(g);
                f.block.stmts.push(Stmt::Expr(syn::parse_quote!(#r), None));
            }
        }
    }
    fn loop_body(&mut self, body: &mut Block, sig: String) -> usize {
        let k = self.num("loop", sig);
        let inv = self.invs(&format!("loop{}", k));
        let head = self.get(&format!("loop{}.head", k));
        let bodyend = self.get(&format!("loop{}.bodyend", k));
        let tail = self.get(&format!("loop{}.tail", k));
        self.visit_block_mut(body);
        let rest = std::mem::take(&mut body.stmts);
        body.stmts.extend(inv);
        body.stmts.extend(head);
        let mut placed = bodyend.is_empty();
        for s in rest {
            if let Stmt::Macro(m) = &s {
                if m.mac.path.is_ident("vx_tailmark") {
                    if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    body.stmts.extend(bodyend.clone());
                    placed = true;
                    continue;
                }
            }
            body.stmts.push(s);
        }
        if !placed || !tail.is_empty() {
            if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        if !placed {
            // a `for` written as a `while`: the end of its body is before the step
            let step = match body.stmts.last() {
                Some(Stmt::Expr(Expr::Binary(b), _)) => {
                    matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && matches!(&*b.left, Expr::Path(_)) && b.right.to_token_stream().to_string() == "1"
                }
                _ => false,
            };
            let last = if step { body.stmts.pop() } else { None };
            body.stmts.extend(bodyend);
            body.stmts.extend(last);
        }
        body.stmts.extend(tail);
        k
    }
    fn wrap_block(&mut self, b: &mut Block, head: &str, tail: &str) {
        let h = self.get(head);
        let t = self.get(tail);
        let rest = std::mem::take(&mut b.stmts);
        b.stmts.extend(h);
        b.stmts.extend(rest);
        if !t.is_empty() {
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            b.stmts.extend(t);
        }
    }
}

impl VisitMut for Annot {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            let mut pre: Vec<Stmt> = vec![];
            let mut post: Vec<Stmt> = vec![];
            // events
            let mut ev = Ev { calls: vec![], sets: vec![], lets: vec![], rets: 0 };
            ev.visit_stmt(&s);
            let mut todo: Vec<String> = vec![];
            for (kind, names) in [("call", &ev.calls), ("set", &ev.sets), ("let", &ev.lets)] {
                for n in names {
                    let key = format!("{}:{}", kind, n);
                    let c = self.num(&key, s.to_token_stream().to_string());
                    todo.push(format!("{}#{}", key, c));
                }
            }
            for t in &todo {
                pre.extend(self.get(&format!("{}.before", t)));
                post.extend(self.get(&format!("{}.after", t)));
            }
            for _ in 0..ev.rets {
                let a = format!("return{}", self.num("return", s.to_token_stream().to_string()));
                let g = self.get(&a);
                if !g.is_empty() {
                    // return E; -> let RET = E; ghost; return RET;
                    if let Stmt::Expr(Expr::Return(r), _) = &mut s {
                        if let Some(e) = &mut r.expr {
                            let id = Ident::new(self.ret.as_deref().unwrap_or("vx_ret"), Span::call_site());
                            let e2 = e.clone();
                            pre.push(syn::parse_quote!(let #id = #e2;));
                            **e = syn::parse_quote!(#id);
                        }
                    }
                    pre.extend(g);
                }
            }
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _));
            let is_if = matches!(&s, Stmt::Expr(Expr::If(_), _));
            if is_loop {
                let k = self.peek("loop");
                pre.extend(self.get(&format!("loop{}.before", k)));
                post.extend(self.get(&format!("loop{}.after", k)));
            }
            if is_if {
                let k = self.peek("if");
                pre.extend(self.get(&format!("if{}.before", k)));
                post.extend(self.get(&format!("if{}.after", k)));
            }
            self.visit_stmt_mut(&mut s);
            if !post.is_empty() {
                if let Stmt::Expr(_, semi) = &mut s {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
            }
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        // Verus reads a block right after a loop as part of the loop's clauses
        for i in 0..out.len().saturating_sub(1) {
            if matches!(out[i + 1], Stmt::Expr(Expr::Block(_), _)) {
                if let Stmt::Expr(Expr::While(_) | Expr::Loop(_), semi) = &mut out[i] {
                    *semi = Some(Default::default());
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            // closure header with a contract: the parameter list is replaced by annotated text, the body stays
            let k = self.nclo;
            self.nclo += 1;
            if let Some(v) = self.anchors.get(&format!("closure{}", k)) {
                let l = proc_macro2::Literal::usize_unsuffixed(v[0]);
                self.used.insert(format!("closure{}", k));
                let body: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    x => syn::parse_quote!({ #x }),
                };
                *e = syn::parse_quote!(vx_clo!(#l #body));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let sig = w.cond.to_token_stream().to_string();
        self.visit_expr_mut(&mut w.cond);
        self.loop_body(&mut w.body, sig);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let sig = format!("loop {}", w.body.stmts.first().map(|s| s.to_token_stream().to_string()).unwrap_or_default());
        self.loop_body(&mut w.body, sig);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let k = self.num("if", i.cond.to_token_stream().to_string());
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        self.wrap_block(&mut i.then_branch, &format!("if{}.then", k), &format!("if{}.thenend", k));
        let (eh, et) = (format!("if{}.else", k), format!("if{}.elseend", k));
        match &mut i.else_branch {
            Some((_, e)) => {
                if let Expr::Block(b) = &mut **e {
                    self.visit_block_mut(&mut b.block);
                    self.wrap_block(&mut b.block, &eh, &et);
                } else {
                    self.visit_expr_mut(e);
                }
            }
            None => {
                let g = self.get(&eh);
                if !g.is_empty() {
                    let b = Block { brace_token: Default::default(), stmts: g };
                    i.else_branch = Some((
                        Default::default(),
                        Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })),
                    ));
                }
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let k = self.num("arm", a.pat.to_token_stream().to_string());
        let (h, t) = (format!("arm{}.head", k), format!("arm{}.tail", k));
        let want = self.anchors.contains_key(&h) || self.anchors.contains_key(&t);
        if want || !matches!(&*a.body, Expr::Block(_) | Expr::Path(_) | Expr::Lit(_)) {
            // wrap into a block so that statement anchors inside work
            if !matches!(&*a.body, Expr::Block(_)) {
                let e = a.body.clone();
                let unit = matches!(&*e, Expr::Assign(_)) || matches!(&*e, Expr::Binary(b) if is_assign_op(&b.op));
                let st = Stmt::Expr(*e, if unit { Some(Default::default()) } else { None });
                a.body = Box::new(Expr::Block(ExprBlock {
                    attrs: vec![],
                    label: None,
                    block: Block { brace_token: Default::default(), stmts: vec![st] },
                }));
            }
        }
        visit_mut::visit_arm_mut(self, a);
        if want {
            if let Expr::Block(b) = &mut *a.body {
                self.wrap_block(&mut b.block, &h, &t);
            }
        }
    }
}
