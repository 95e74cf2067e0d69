use replay::*;
use rust_cp::graph::shortest_path::dijkstra;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(40).max(1);
    let wmax = c.pick(&[1usize, 2, 10, 1000, 1 << 40, usize::MAX / n]);
    let dens = c.below(4);
    let m = match dens { 0 => c.below(n + 1), 1 => c.below(2 * n + 1), 2 => c.below(n * n.min(8) + 1), _ => 3 * n };
    let mut g = vec![vec![]; n];
    for _ in 0..m { let (u, v) = (c.below(n), if c.one_in(12) { 0 } else { c.below(n) }); let w = if c.one_in(5) { 0 } else if wmax > 1 << 41 && c.coin() { wmax - c.below(3) } else { c.below(wmax.saturating_add(1)) }; g[u].push((v, w)); }
    if c.one_in(4) { for i in 0..n - 1 { g[i].push((i + 1, 1)); if i + 2 < n { g[i].push((i + 2, 5)); } } }
    let s = c.below(n);
    note!(c, "g={:?} s={}", g, s);
    let mut d: Vec<Option<usize>> = vec![None; n];
    d[s] = Some(0);
    loop {
        let mut ch = false;
        for u in 0..n { if let Some(x) = d[u] { for &(v, w) in &g[u] { if d[v].map_or(true, |y| x + w < y) { d[v] = Some(x + w); ch = true; } } } }
        if !ch { break; }
    }
    assert_eq!(dijkstra(&g, s), d, "distances");
}
fn big(c: &mut C) {
    let n = c.big_size().min(70000);
    let wmax = c.pick(&[1usize, 10, 1 << 40]);
    let kind = c.below(3);
    let mut g = vec![vec![]; n];
    for i in 0..2 * n { let (u, v) = match kind { 0 => (c.below(n), c.below(n)), 1 => (i % n, (i % n + 1 + c.below(3)) % n), _ => (i % n, c.below(n)) }; g[u].push((v, c.below(wmax + 1))); }
    let s = c.below(n);
    note!(c, "n={} kind={} s={}", n, kind, s);
    // ordered-set Dijkstra
    let mut d: Vec<Option<usize>> = vec![None; n];
    let mut q = std::collections::BTreeSet::from([(0usize, s)]);
    d[s] = Some(0);
    while let Some((x, u)) = q.pop_first() {
        for &(v, w) in &g[u] { if d[v].map_or(true, |y| x + w < y) { if let Some(y) = d[v] { q.remove(&(y, v)); } d[v] = Some(x + w); q.insert((x + w, v)); } }
    }
    assert_eq!(dijkstra(&g, s), d, "distances");
}
fn main() { replay::main(case) }
