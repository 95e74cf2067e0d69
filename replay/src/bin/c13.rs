use replay::*;
use rust_cp::graph::bipartite_matching::AugmentedPath;
fn aug(u: usize, g: &Vec<Vec<usize>>, vis: &mut Vec<bool>, r: &mut Vec<Option<usize>>) -> bool {
    for &v in &g[u] { if !vis[v] { vis[v] = true; if r[v].is_none() || aug(r[v].unwrap(), g, vis, r) { r[v] = Some(u); return true; } } }
    false
}
fn best(g: &Vec<Vec<usize>>, m: usize) -> usize { let mut r = vec![None; m]; (0..g.len()).filter(|&u| aug(u, g, &mut vec![false; m], &mut r)).count() }
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(30); let m = if c.coin() { n } else { c.size(30) };
    let mut s = AugmentedPath::new(n, m);
    let mut g = vec![vec![]; n];
    note!(c, "new({}, {})", n, m);
    for _ in 0..1 + c.below(3) {
        if n > 0 && m > 0 {
            for _ in 0..c.below(2 * n + 2) {
                let u = c.below(n);
                let v = if c.coin() { c.below(m) } else { (u + c.below(2)) % m };
                note!(c, "add_edge({}, {})", u, v); s.add_edge(u, v); g[u].push(v);
            }
        }
        note!(c, "solve()");
        assert_eq!(s.solve(), best(&g, m), "solve");
    }
    assert_eq!(s.solve(), best(&g, m), "solve again");
}
fn big(c: &mut C) {
    // long alternating paths: u -> {u, u + 1}, and a last vertex that shifts them all
    let n = 300 + c.below(1500);
    let mut s = AugmentedPath::new(n + 1, n + 1);
    let mut g = vec![vec![]; n + 1];
    let rev = c.coin();
    for u in 0..n { let mut e = vec![u, u + 1]; if c.one_in(7) { e.push(c.below(n + 1)); } for v in e { s.add_edge(u, v); g[u].push(v); } }
    let v = if rev { n } else { 0 };
    s.add_edge(n, v); g[n].push(v);
    note!(c, "chain of {} vertices, last one to {}", n, v);
    assert_eq!(s.solve(), best(&g, n + 1), "solve");
}
fn main() { replay::main(case) }
