//! sizes beyond 2^16: rare cases with oracles that stay near-linear
use crate::C;
impl C {
    pub fn is_big(&mut self) -> bool {
        self.one_in(2000)
    }
    pub fn big_size(&mut self) -> usize {
        match self.below(6) {
            0 => 65534 + self.below(5),
            1 => 131070 + self.below(5),
            2 => 32766 + self.below(5),
            3 => 4094 + self.below(5),
            _ => 2000 + self.below(140000),
        }
    }
    /// a tree of n vertices whose parents come first in `order`: (adjacency, root, parent, depth, order)
    pub fn big_tree(&mut self, n: usize) -> (Vec<Vec<usize>>, usize, Vec<usize>, Vec<usize>, Vec<usize>) {
        let mut lab: Vec<usize> = (0..n).collect();
        if self.coin() {
            self.shuffle(&mut lab);
        }
        let kind = self.below(5);
        let mut g = vec![vec![]; n];
        let (mut p, mut d) = (vec![usize::MAX; n], vec![0; n]);
        for i in 1..n {
            let q = match kind {
                0 => i - 1,
                1 => (i - 1) / 2,
                2 => i - 1 - self.below(i.min(3)),
                3 => if i % 2 == 0 { i - 2 } else { i - 1 },
                _ => self.below(i),
            };
            let (u, v) = (lab[q], lab[i]);
            if self.coin() { g[u].push(v); g[v].push(u); } else { g[v].push(u); g[u].push(v); }
            p[v] = u;
            d[v] = d[u] + 1;
        }
        (g, lab[0], p, d, lab)
    }
}
pub fn lca(p: &[usize], d: &[usize], mut u: usize, mut v: usize) -> usize {
    while u != v {
        if d[u] < d[v] { std::mem::swap(&mut u, &mut v); }
        u = p[u];
    }
    u
}
