use replay::*; use replay::seg::*;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::MapMonoid;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(120).max(1);
    let (g, root, p) = tree(c, n);
    let mut a: Vec<(u64, u64)> = (0..n).map(|_| (c.u64() >> 40, 1)).collect();
    note!(c, "g={:?} root={} v={:?}", g, root, a);
    let ups: Vec<Vec<usize>> = (0..n).map(|u| up(&p, u)).collect();
    let mut h: HLD<SumAff> = if c.one_in(4) { a = vec![(0, 0); n]; note!(c, "new"); HLD::new(&g, root) } else { HLD::with_init_value(&g, root, &a) };
    let path = |u: usize, v: usize| -> Vec<usize> {
        let l = *ups[u].iter().find(|x| ups[v].contains(x)).unwrap();
        let mut r: Vec<usize> = ups[u].iter().cloned().take_while(|&x| x != l).collect();
        r.extend(ups[v].iter().cloned().take_while(|&x| x != l)); r.push(l); r
    };
    for _ in 0..c.below(30) + 4 {
        let (u, v) = (c.below(n), c.below(n));
        let f = (c.u64() >> 50, c.u64() >> 50);
        match c.below(8) {
            0 => { note!(c, "apply_path({}, {}, {:?})", u, v, f); h.apply_path(u, v, f); for x in path(u, v) { a[x] = SumAff::mapping(&f, &a[x]); } }
            1 => { note!(c, "apply_subtree({}, {:?})", u, f); h.apply_subtree(u, f); for x in 0..n { if ups[x].contains(&u) { a[x] = SumAff::mapping(&f, &a[x]); } } }
            2 => { let x = (c.u64() >> 40, 1); note!(c, "set({}, {:?})", u, x); h.set(u, x); a[u] = x; }
            3 => { note!(c, "get({})", u); assert_eq!(h.get(u), a[u], "get({})", u); }
            4 => { note!(c, "subtree_prod({})", u); let e: Vec<_> = (0..n).filter(|&x| ups[x].contains(&u)).map(|x| a[x]).collect(); assert_eq!(h.subtree_prod(u), fold::<Sum>(&e), "subtree_prod({})", u); }
            _ => { note!(c, "path_prod({}, {})", u, v); let e: Vec<_> = path(u, v).into_iter().map(|x| a[x]).collect(); assert_eq!(h.path_prod(u, v), fold::<Sum>(&e), "path_prod({}, {})", u, v); }
        }
    }
    for u in 0..n { assert_eq!(h.get(u), a[u], "final get({})", u); }
}
fn big(c: &mut C) {
    let n = c.big_size();
    let (g, root, p, d, order) = c.big_tree(n);
    note!(c, "n={} root={}", n, root);
    let mut a: Vec<(u64, u64)> = (0..n).map(|_| (c.u64() >> 40, 1)).collect();
    let mut h: HLD<SumAff> = HLD::with_init_value(&g, root, &a);
    let path = |u: usize, v: usize| { let l = big::lca(&p, &d, u, v); let mut r = vec![]; let mut x = u; while x != l { r.push(x); x = p[x]; } x = v; while x != l { r.push(x); x = p[x]; } r.push(l); r };
    let sub = |u: usize| { let mut f = vec![false; n]; f[u] = true; for &x in &order { if x != root && f[p[x]] { f[x] = true; } } f };
    for _ in 0..20 {
        let (u, v) = (c.below(n), c.below(n));
        let f = (c.u64() >> 50, c.u64() >> 50);
        match c.below(7) {
            0..=1 => { note!(c, "apply_path({}, {}, {:?})", u, v, f); h.apply_path(u, v, f); for x in path(u, v) { a[x] = SumAff::mapping(&f, &a[x]); } }
            2 => { note!(c, "apply_subtree({}, {:?})", u, f); h.apply_subtree(u, f); let s = sub(u); for x in 0..n { if s[x] { a[x] = SumAff::mapping(&f, &a[x]); } } }
            3 => { let x = (c.u64() >> 40, 1); note!(c, "set({}, {:?})", u, x); h.set(u, x); a[u] = x; }
            4 => { let s = sub(u); let e: Vec<_> = (0..n).filter(|&x| s[x]).map(|x| a[x]).collect(); assert_eq!(h.subtree_prod(u), fold::<Sum>(&e), "subtree_prod({})", u); }
            _ => { let e: Vec<_> = path(u, v).into_iter().map(|x| a[x]).collect(); assert_eq!(h.path_prod(u, v), fold::<Sum>(&e), "path_prod({}, {})", u, v); }
        }
    }
    for _ in 0..300 { let u = c.below(n); assert_eq!(h.get(u), a[u], "final get({})", u); }
}
fn main() { replay::main(case) }
