import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
RNG = "struct R(u64); impl R { fn n(&mut self, b: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as usize % b } }\n"
mk("c01_size_direct_parent", "C01", "src/data_structure/union_find.rs",
   [("        let fx = self.find(x);\n        self.sz[fx]\n", "        let fx = self.fa[x];\n        if self.fa[fx] == fx {\n            return self.sz[fx];\n        }\n        let fx = self.fa[fx];\n        self.sz[fx]\n")],
   "an element at depth three of the forest, that is three joins of equally large sets with no query in between", "size looks at most two links up instead of finding the root",
   "use rust_cp::data_structure::union_find::UnionFind;\nfn main() { for a in 0..8 { let mut u = UnionFind::new(8); for (x, y) in [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (3, 7)] { u.join(x, y); } assert_eq!(u.size(a), 8); } }\n")
mk("c02_add_last_block", "C02", "src/data_structure/fenwick_tree.rs",
   [("            idx += idx & idx.wrapping_neg();\n        }\n    }\n", "            let low = idx & idx.wrapping_neg();\n            if low == idx && idx + low >= n {\n                break;\n            }\n            idx += low;\n        }\n    }\n")],
   "a length that is a power of two", "add leaves the node that covers the whole array unchanged when n is a power of two",
   "use rust_cp::data_structure::fenwick_tree::FenwickTree;\nfn main() { for n in 1..20 { for i in 0..n { let mut t = FenwickTree::<i64>::new(n); t.add(i, 5i64); for r in 0..=n { assert_eq!(t.pref(r), if r > i { 5 } else { 0 }); } } } }\n")
mk("c03_start_power", "C03", "src/data_structure/fenwick_tree.rs",
   [("        for i in (0..usize::BITS - self.n.leading_zeros()).rev() {", "        for i in (0..self.n.next_power_of_two().trailing_zeros()).rev() {")],
   "a length that is a power of two and a predicate that holds everywhere", "the descent starts one level too low when n is a power of two",
   "use rust_cp::data_structure::fenwick_tree::FenwickTree;\nfn main() { for n in 0..20usize { let t = FenwickTree::from(&vec![1i64; n]); for k in 0..=n { assert_eq!(t.partition_point(|&s| s <= k as i64), k); } } }\n")
mk("c05_whole_shortcut", "C05", "src/data_structure/segtree.rs",
   [("        if r == 0 {\n            return 0;\n        }\n        r += self.size;", "        if r == 0 || f(&self.all_prod()) {\n            return 0;\n        }\n        r += self.size;")],
   "a predicate that holds on the whole array but not on the product of 0..r (group-like monoids)", "min_left returns 0 at once when the predicate holds on the product of everything",
   "use rust_cp::{data_structure::segtree::Segtree, misc::monoids::Additive};\nfn main() { let t: Segtree<Additive<i64>> = vec![7i64, 1, 2, -9, 3].into(); let f = |s: &i64| *s < 5; for r in 0..=5usize { let l = t.min_left(r, f); assert!(f(&t.prod(l, r)) && (l == 0 || !f(&t.prod(l - 1, r))), \"{} {}\", l, r); } }\n")
LAZY = """use rust_cp::{data_structure::lazy_segtree::LazySegtree, misc::monoids::Max, traits::monoid::MapMonoid};
struct Add; impl MapMonoid for Add { type M = Max<i64>; type F = i64; fn identity_map() -> i64 { 0 } fn mapping(f: &i64, x: &i64) -> i64 { if *x == i64::MIN { *x } else { f + x } } fn composition(f: &i64, g: &i64) -> i64 { f + g } }
""" + RNG
mk("c06_update_either_side", "C06", "src/data_structure/lazy_segtree.rs",
   [("""        for i in 1..=self.log {
            if ((l >> i) << i) != l {
                self.update(l >> i);
            }
            if ((r >> i) << i) != r {
                self.update((r - 1) >> i);
            }
        }
""", """        for i in 1..=self.log {
            if ((l >> i) << i) != l {
                self.update(l >> i);
            }
            if ((r >> i) << i) != r && ((l >> i) != (r >> i) || r - l == 1) {
                self.update((r - 1) >> i);
            }
        }
""")],
   "a range of two or more elements that starts at an aligned position and ends inside the same node", "the walk up skips the right boundary at levels where both ends share a node, also when the left one was not updated",
   LAZY + "fn main() { let mut g = R(7); for n in 1..20usize { let mut a: Vec<i64> = (0..n).map(|_| g.n(50) as i64).collect(); let mut t: LazySegtree<Add> = a.clone().into(); for _ in 0..200 { let (x, y) = (g.n(n + 1), g.n(n + 1)); let (l, r) = (x.min(y), x.max(y)); let d = g.n(9) as i64 - 4; t.apply_range(l, r, d); for v in &mut a[l..r] { *v += d; } let (x, y) = (g.n(n + 1), g.n(n + 1)); let (l, r) = (x.min(y), x.max(y)); assert_eq!(t.prod(l, r), a[l..r].iter().copied().max().unwrap_or(i64::MIN)); assert_eq!(t.all_prod(), *a.iter().max().unwrap()); } } }\n")
mk("c08_build_order", "C08", "src/data_structure/sparse_table.rs",
   [("                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);", "                let half = 1 << (c - 1);\n                let (near, far) = (data[c - 1][i], data[c - 1][i + half]);\n                data[c][i] = if c == 1 { op(near, far) } else { op(far, near) };")],
   "an idempotent, associative operation that is not commutative, on ranges of four or more", "upper levels combine their halves in the wrong order",
   "use rust_cp::data_structure::sparse_table::SparseTable;\nfn main() { let v: Vec<u32> = (0..40).collect(); let t = SparseTable::from(&v, 0, |a, _| a); for l in 0..40 { for r in l + 1..=40 { assert_eq!(t.get(l, r), l as u32); } } }\n")
mk("c10_count_stale", "C10", "src/graph/shortest_path.rs",
   [("    while let Some((d, u)) = q.pop() {\n        if Some(d) != dis[u] {\n            continue;\n        }\n", "    let mut left = 2 * g.len();\n    while let Some((d, u)) = q.pop() {\n        if left == 0 {\n            break;\n        }\n        left -= 1;\n        if Some(d) != dis[u] {\n            continue;\n        }\n")],
   "a graph with many outdated queue entries (more than twice the number of vertices)", "the search stops after a number of pops that counts outdated entries",
   "use rust_cp::graph::shortest_path::dijkstra;\nfn main() { let n = 12usize; let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; n]; for u in 0..n { for v in u + 1..n { g[u].push((v, if v == u + 1 { 1 } else { (v - u) * 2 })); } } let d = dijkstra(&g, 0); for v in 0..n { assert_eq!(d[v], Some(v)); } }\n")
mk("c11_lift_stops_at_root", "C11", "src/graph/binary_lifting.rs",
   [("            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];\n", "            if self.pa[u][i - 1] == self.pa[p][0] {\n                break;\n            }\n            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];\n")],
   "a root other than 0 and a vertex whose ancestors run out before the table's levels do", "the ancestor table is left at vertex 0 above the root",
   "use rust_cp::graph::binary_lifting::BinaryLifting;\nfn main() { let n = 9usize; let mut g = vec![vec![]; n]; for i in 1..n { g[i - 1].push(i); g[i].push(i - 1); } for root in 0..n { let t = BinaryLifting::from(&g, root); for u in 0..n { for v in 0..n { assert_eq!(t.dis(u, v), if u > v { u - v } else { v - u }, \"{} {} {}\", root, u, v); } } } let g = vec![vec![], vec![], vec![3, 4], vec![], vec![0, 1]]; let t = BinaryLifting::from(&g, 2); assert_eq!(t.lca(3, 0), 2); assert_eq!(t.lca(0, 1), 4); assert_eq!(t.dis(3, 0), 3); }\n")
mk("c12_subtree_light", "C12", "src/graph/heavy_light_decomp.rs",
   [("        for &v in &g[u] {\n            if v != self.parent[u] && Some(v) != self.heavy_child[u] {\n                self.dfs2(v, v, timer, g);\n            }\n        }\n        self.pos_r[u] = *timer;", "        self.pos_r[u] = *timer;\n        for &v in &g[u] {\n            if v != self.parent[u] && Some(v) != self.heavy_child[u] {\n                self.dfs2(v, v, timer, g);\n                if u == head {\n                    self.pos_r[u] = *timer;\n                }\n            }\n        }")],
   "a subtree operation at an inner vertex of a heavy path that also has light children", "the end of the subtree interval misses light children below the head of a path",
   """use rust_cp::{graph::heavy_light_decomp::HLD, misc::monoids::Max, traits::monoid::MapMonoid};
struct Add; impl MapMonoid for Add { type M = Max<i64>; type F = i64; fn identity_map() -> i64 { 0 } fn mapping(f: &i64, x: &i64) -> i64 { f + x } fn composition(f: &i64, g: &i64) -> i64 { f + g } }
fn main() { let g = vec![vec![1], vec![0, 2, 3], vec![1, 4], vec![1], vec![2]]; let v: Vec<i64> = vec![1, 2, 3, 40, 5]; let mut h: HLD<Add> = HLD::with_init_value(&g, 0, &v); assert_eq!(h.subtree_prod(0), 40); assert_eq!(h.subtree_prod(1), 40); assert_eq!(h.subtree_prod(2), 5); }
""")
mk("c13_cache_matched_edge", "C13", "src/graph/bipartite_matching.rs",
   [("    vis: Vec<bool>,\n}", "    vis: Vec<bool>,\n    best: Option<usize>,\n}"), ("            vis: vec![false; n],\n        }", "            vis: vec![false; n],\n            best: None,\n        }"),
    ("        self.g[u].push(v);\n", "        self.g[u].push(v);\n        if self.l[u].is_none() {\n            self.best = None;\n        }\n"),
    ("    pub fn solve(&mut self) -> usize {\n        loop {", "    pub fn solve(&mut self) -> usize {\n        if let Some(x) = self.best {\n            return x;\n        }\n        loop {"),
    ("        ret\n    }\n}", "        self.best = Some(ret);\n        ret\n    }\n}")],
   "a second solve after adding an edge at a matched vertex that opens an augmenting path", "solve returns the remembered size when the new edge leaves a matched vertex",
   "use rust_cp::graph::bipartite_matching::AugmentedPath;\nfn main() { let mut a = AugmentedPath::new(2, 2); a.add_edge(0, 0); a.add_edge(1, 0); assert_eq!(a.solve(), 1); assert_eq!(a.solve(), 1); a.add_edge(0, 1); assert_eq!(a.solve(), 2); let mut a = AugmentedPath::new(2, 2); a.add_edge(1, 0); a.add_edge(0, 0); a.solve(); a.add_edge(1, 1); assert_eq!(a.solve(), 2); }\n")
mk("c16_lcm_shortcut", "C16", "src/math/number_theory.rs",
   [("    a * b / gcd(a, b)\n", "    if a % b == T::zero() {\n        return a;\n    }\n    a * b / gcd(a, b)\n")],
   "lcm with 0 as the second argument", "a shortcut for divisible arguments divides by zero",
   "use rust_cp::math::number_theory::lcm;\nfn main() { assert_eq!(lcm(0i64, 5), 0); assert_eq!(lcm(4i64, 6), 12); assert_eq!(lcm(12u32, 4), 12); assert_eq!(lcm(5i64, 0), 0); }\n")
mk("c17_skip_divisible_modulus", "C17", "src/math/number_theory.rs",
   [("        if b_ % g != 0 {\n            return None;\n        }\n", "        if lcm % m[i] == 0 && a[i] % m[i] != 0 && g == m_.abs() {\n            continue;\n        }\n        if b_ % g != 0 {\n            return None;\n        }\n")],
   "a congruence whose modulus divides the combined modulus so far and that contradicts it", "such a congruence is skipped without being checked",
   "use rust_cp::math::number_theory::ex_crt;\nfn main() { assert_eq!(ex_crt(&vec![1, 1], &vec![5, 2], &vec![6, 3]), Some((5, 6))); assert_eq!(ex_crt(&vec![1, 1], &vec![5, 1], &vec![6, 3]), None); assert_eq!(ex_crt(&vec![1, 1, 1], &vec![1, 2, 3], &vec![2, 3, 6]), None); }\n")
mk("c18_pow_fermat_reduce", "C18", "src/misc/modint.rs",
   [("    #[inline]\n    pub fn pow(self, n: u64) -> Self {\n        <Self as ModIntBase>::pow(self, n)\n    }\n\n    /// Retruns the multiplicative inverse of `self`.\n    ///\n    /// Corresponds to `atcoder::static_modint::inv`", "    #[inline]\n    pub fn pow(self, n: u64) -> Self {\n        if M::HINT_VALUE_IS_PRIME {\n            return <Self as ModIntBase>::pow(self, n % u64::from(M::VALUE - 1));\n        }\n        <Self as ModIntBase>::pow(self, n)\n    }\n\n    /// Retruns the multiplicative inverse of `self`.\n    ///\n    /// Corresponds to `atcoder::static_modint::inv`")],
   "0 raised to a positive multiple of p - 1 under a prime modulus", "exponents are reduced modulo p - 1 also for the base 0",
   "use rust_cp::misc::modint::*;\nfn main() { type M = ModInt998244353; assert_eq!(M::new(3).pow(998244352).val(), 1); assert_eq!(M::new(0).pow(5).val(), 0); assert_eq!(M::new(0).pow(998244352).val(), 0); assert_eq!(M::new(998244353u32).pow(2 * 998244352).val(), 0); }\n")
mk("c20_zero_dividend", "C20", "src/misc/modint.rs",
   [("        Self::mul_impl(lhs, rhs.inv())\n", "        if lhs.val() == 0 {\n            return lhs;\n        }\n        Self::mul_impl(lhs, rhs.inv())\n")],
   "0 divided by an element without inverse", "0 / b returns 0 instead of panicking when b has no inverse",
   "use rust_cp::misc::modint::*;\nfn main() { type M = ModInt998244353; assert_eq!((M::new(0) / M::new(7)).val(), 0); std::panic::set_hook(Box::new(|_| {})); assert!(std::panic::catch_unwind(|| M::new(5) / M::new(0)).is_err()); assert!(std::panic::catch_unwind(|| M::new(0) / M::new(0)).is_err()); }\n")
mk("c22_box_equal_skips", "C22", "src/string/z_algorithm.rs",
   [("        if i <= r {\n            z[i] = (r - i + 1).min(z[i - l]);\n        }\n", "        if i <= r {\n            z[i] = (r - i + 1).min(z[i - l]);\n            if i + z[i - l] > r && i - l > 2 {\n                continue;\n            }\n        }\n")],
   "a match inside the current box that reaches past its end", "the comparison beyond the box is skipped in some overlapping cases",
   RNG + "use rust_cp::string::z_algorithm::z_function;\nfn main() { let mut g = R(99); for _ in 0..20000 { let n = g.n(16); let s: Vec<usize> = (0..n).map(|_| g.n(2)).collect(); let z = z_function(&s); for i in 1..n { let mut k = 0; while i + k < n && s[k] == s[i + k] { k += 1; } assert_eq!(z[i], k, \"{:?}\", s); } } }\n")
mk("c23_from_z", "C23", "src/string/kmp.rs",
   [("""    for i in 1..n {
        let mut j = pi[i - 1];
        while j > 0 && s[i] != s[j] {
            j = pi[j - 1];
        }
        if s[i] ==  s[j] {
            j += 1;
        }
        pi[i] = j;
    }
""", """    let z = super::z_algorithm::z_function(s);
    for i in 1..n {
        if z[i] > 0 && pi[i + z[i] - 1] == 0 {
            pi[i + z[i] - 1] = z[i];
        }
    }
    for i in (1..n).rev() {
        if pi[i] > 0 && pi[i - 1] == 0 {
            pi[i - 1] = pi[i] - 1;
        }
    }
""")],
   "a position that ends one match and lies inside a longer one that ends later", "borders taken from the z-function are not maximised over longer matches that end later",
   RNG + "use rust_cp::string::kmp::kmp;\nfn main() { let mut g = R(5); for _ in 0..20000 { let n = g.n(14); let s: Vec<usize> = (0..n).map(|_| g.n(2)).collect(); let p = kmp(&s); for i in 0..n { let b = (0..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap(); assert_eq!(p[i], b, \"{:?}\", s); } } }\n")
mk("c24_cnt_index_order", "C24", "src/string/aho_corasick.rs",
   [("""        for &c in text {
            p = self.nodes[p].next[(c - OFFSET) as usize];
            if let Some(x) = self.nodes[p].end {
                cnt[x] += 1;
            }
            let mut idx = self.nodes[p].output;
            while let Some(x) = idx {
                cnt[self.nodes[x].end.unwrap()] += 1;
                idx = self.nodes[x].output;
            }
        }
        cnt""", """        let mut visits = vec![0; self.nodes.len()];
        for &c in text {
            p = self.nodes[p].next[(c - OFFSET) as usize];
            visits[p] += 1;
        }
        for u in (1..self.nodes.len()).rev() {
            if let Some(x) = self.nodes[u].end {
                cnt[x] = visits[u];
            }
            let v = visits[u];
            visits[self.nodes[u].back] += v;
        }
        cnt""")],
   "a pattern inserted after a longer one that it is a suffix of", "visits are passed on along failure links in insertion order, which is not breadth-first order",
   "use rust_cp::string::aho_corasick::AhoCorasick;\nfn main() { let p: Vec<&[u8]> = vec![b\"b\", b\"ab\", b\"aab\"]; let a: AhoCorasick = AhoCorasick::from(&p); assert_eq!(a.find_cnt(b\"aabab\"), vec![2, 2, 1]); let p: Vec<&[u8]> = vec![b\"aab\", b\"ab\", b\"b\"]; let a: AhoCorasick = AhoCorasick::from(&p); assert_eq!(a.find_cnt(b\"aabab\"), vec![1, 2, 2]); }\n")
