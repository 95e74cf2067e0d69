use replay::*;
use rust_cp::graph::tarjan::scc;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(60);
    let m = if n == 0 { 0 } else { match c.below(3) { 0 => c.below(n + 1), 1 => c.below(2 * n + 2), _ => c.below(n * n.min(5) + 1) } };
    let mut g = vec![vec![]; n];
    for _ in 0..m { let (u, v) = (c.below(n), c.below(n)); g[u].push(v); }
    note!(c, "g={:?}", g);
    let (k, col) = scc(&g);
    let mut reach = vec![vec![false; n]; n];
    for s in 0..n { let mut st = vec![s]; reach[s][s] = true; while let Some(u) = st.pop() { for &v in &g[u] { if !reach[s][v] { reach[s][v] = true; st.push(v); } } } }
    assert_eq!(col.len(), n, "length");
    let mut used = vec![false; k];
    for u in 0..n {
        assert!(col[u] < k, "component number out of range"); used[col[u]] = true;
        for v in 0..n { assert_eq!(col[u] == col[v], reach[u][v] && reach[v][u], "vertices {} and {} (components {} and {})", u, v, col[u], col[v]); }
        for &v in &g[u] { assert!(col[v] <= col[u], "edge {} -> {} goes to a larger component", u, v); }
    }
    assert!(used.iter().all(|&b| b), "unused component number");
}
fn big(c: &mut C) {
    let n = c.big_size();
    let kind = c.below(4);
    note!(c, "n={} kind={}", n, kind);
    let mut g = vec![vec![]; n];
    match kind {
        0 => { for i in 0..n { g[i].push((i + 1) % n); } }
        1 => { for i in 0..n - 1 { g[i].push(i + 1); } for _ in 0..20 { let u = c.below(n); let v = u.saturating_sub(c.below(500)); g[u].push(v); } }
        _ => { for _ in 0..n + n / 2 { let (u, v) = (c.below(n), c.below(n)); g[u].push(v); } }
    }
    let (k, col) = scc(&g);
    // Kosaraju, with explicit stacks
    let mut r = vec![vec![]; n];
    for u in 0..n { for &v in &g[u] { r[v].push(u); } }
    let (mut ord, mut vis) = (vec![], vec![false; n]);
    for s in 0..n { if vis[s] { continue; } vis[s] = true; let mut st = vec![(s, 0)]; while let Some((u, i)) = st.pop() { if i < g[u].len() { st.push((u, i + 1)); let v = g[u][i]; if !vis[v] { vis[v] = true; st.push((v, 0)); } } else { ord.push(u); } } }
    let mut id = vec![usize::MAX; n];
    let mut m = 0;
    for &s in ord.iter().rev() { if id[s] != usize::MAX { continue; } id[s] = m; let mut st = vec![s]; while let Some(u) = st.pop() { for &v in &r[u] { if id[v] == usize::MAX { id[v] = m; st.push(v); } } } m += 1; }
    assert_eq!(k, m, "number of components");
    assert_eq!(col.len(), n, "length");
    let mut to = vec![usize::MAX; k];
    let mut back = vec![usize::MAX; m];
    for u in 0..n {
        assert!(col[u] < k, "component number out of range");
        if to[col[u]] == usize::MAX { to[col[u]] = id[u]; }
        if back[id[u]] == usize::MAX { back[id[u]] = col[u]; }
        assert!(to[col[u]] == id[u] && back[id[u]] == col[u], "component of {}", u);
        for &v in &g[u] { assert!(col[v] <= col[u], "edge {} -> {} goes to a larger component", u, v); }
    }
}
fn main() { replay::main(case) }
