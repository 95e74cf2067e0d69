use replay::*;
use rust_cp::graph::binary_lifting::BinaryLifting;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(300).max(1);
    let (g, root, p) = tree(c, n);
    note!(c, "g={:?} root={}", g, root);
    let b = BinaryLifting::from(&g, root);
    let ups: Vec<Vec<usize>> = (0..n).map(|u| up(&p, u)).collect();
    let mut f = |u: usize, v: usize| {
        assert_eq!(b.is_ancestor(u, v), ups[v].contains(&u), "is_ancestor({}, {})", u, v);
        let l = *ups[u].iter().find(|x| ups[v].contains(x)).unwrap();
        assert_eq!(b.lca(u, v), l, "lca({}, {})", u, v);
        assert_eq!(b.dis(u, v), ups[u].len() + ups[v].len() - 2 * ups[l].len(), "dis({}, {})", u, v);
    };
    if n <= 12 { for u in 0..n { for v in 0..n { f(u, v) } } } else { for _ in 0..40 { f(c.below(n), c.below(n)) } }
}
fn big(c: &mut C) {
    let n = c.big_size();
    let (g, root, p, d, _) = c.big_tree(n);
    note!(c, "n={} root={}", n, root);
    let b = BinaryLifting::from(&g, root);
    for _ in 0..40 {
        let (u, v) = (c.below(n), c.below(n));
        let l = big::lca(&p, &d, u, v);
        assert_eq!(b.lca(u, v), l, "lca({}, {})", u, v);
        assert_eq!(b.is_ancestor(u, v), l == u, "is_ancestor({}, {})", u, v);
        assert_eq!(b.dis(u, v), d[u] + d[v] - 2 * d[l], "dis({}, {})", u, v);
    }
}
fn main() { replay::main(case) }
