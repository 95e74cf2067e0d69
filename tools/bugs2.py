import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
RNG = "struct R(u64); impl R { fn n(&mut self, b: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as usize % b } }\n"
mk("c01_find_grandparent", "C01", "src/data_structure/union_find.rs",
   [("self.fa[i] = self.find(self.fa[i]);", "let p = self.fa[i];\n            self.fa[i] = self.fa[p];")],
   "a union tree of depth at least three (eight elements merged pairwise without queries in between)",
   "find stops at the grandparent instead of the root, so elements of one set can be reported as different",
   """use rust_cp::data_structure::union_find::UnionFind;
fn main() {
    let mut u = UnionFind::new(8);
    for (a, b) in [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (3, 7)] { u.join(a, b); }
    for a in 0..8 { for b in 0..8 { let mut u2 = UnionFind::new(8); for (a, b) in [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (3, 7)] { u2.join(a, b); } assert!(u2.is_same(a, b), "{a} {b}"); } }
    assert_eq!(u.groups().len(), 1);
}
""")
mk("c01_groups_parent", "C01", "src/data_structure/union_find.rs",
   [("result[self.find(i)].push(i);", "let f = self.fa[i];\n            result[f].push(i);")],
   "a set whose tree has depth two at the time groups is called", "groups lists elements by their parent, not their root, so one set is split",
   """use rust_cp::data_structure::union_find::UnionFind;
fn main() {
    let mut u = UnionFind::new(4);
    u.join(0, 1); u.join(2, 3); u.join(1, 3);
    let g = u.groups();
    assert_eq!(g.len(), 1, "{g:?}");
    assert_eq!(g[0].len(), 4);
}
""")
mk("c02_from_last_node", "C02", "src/data_structure/fenwick_tree.rs",
   [("            if j <= n {", "            if j < n {")],
   "a slice whose length is a power of two", "the linear construction does not add the children of the last node when its index is n",
   """use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() { for n in 0..20usize { let a: Vec<i64> = (1..=n as i64).collect(); let t = FenwickTree::from(&a); for i in 0..=n { assert_eq!(t.pref(i), a[..i].iter().sum::<i64>(), "{n} {i}"); } } }
""")
mk("c02_pref_skips_high", "C02", "src/data_structure/fenwick_tree.rs",
   [("            idx &= idx - 1;\n        }\n        sum", "            idx = idx & (idx - 1) & 0xffff;\n        }\n        sum")],
   "a tree with more than 65536 elements and an index above that", "prefix queries drop the blocks above index 2^16",
   """use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() { let n = 70_000usize; let a = vec![1i64; n]; let t = FenwickTree::from(&a); for i in (0..=n).step_by(77) { assert_eq!(t.pref(i), i as i64); } }
""")
mk("c03_sum_replaced", "C03", "src/data_structure/fenwick_tree.rs",
   [("                sum += self.ary[next - 1].clone();\n                pos = next;", "                sum = self.ary[next - 1].clone();\n                pos = next;")],
   "a boundary that needs at least three blocks, i.e. an answer with three one bits or a later block decided by the full sum",
   "the running sum of the descent keeps only the last block",
   """use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() { let a = [1i64; 15]; let t = FenwickTree::from(&a); for k in 0..=20i64 { assert_eq!(t.search(&k), if k <= 0 { 0 } else { (k - 1).min(15) as usize }, "{k}"); assert_eq!(t.partition_point(|x| *x < k), if k <= 0 { 0 } else { (k - 1).min(15) as usize }); } }
""")
CAT = """use rust_cp::traits::monoid::Monoid;
struct Cat;
impl Monoid for Cat { type S = String; fn identity() -> String { String::new() } fn binary_operation(a: &String, b: &String) -> String { format!("{a}{b}") } }
"""
mk("c05_max_right_order", "C05", "src/data_structure/segtree.rs",
   [("            sm = M::binary_operation(&sm, &self.d[l]);\n            l += 1;", "            sm = M::binary_operation(&self.d[l], &sm);\n            l += 1;")],
   "a non-commutative monoid and a search that takes two whole nodes before it stops", "max_right accumulates the nodes it climbs over in reverse order",
   CAT + """use rust_cp::data_structure::segtree::Segtree;
fn main() { let t: Segtree<Cat> = "abcdefghij".chars().map(|c| c.to_string()).collect::<Vec<_>>().into();
  for l in 0..=10 { for e in l..=10 { let want = &"abcdefghij"[l..e]; assert_eq!(t.max_right(l, |s| want.starts_with(s.as_str())), e, "{l} {e}"); } } }
""")
mk("c05_min_left_root", "C05", "src/data_structure/segtree.rs",
   [("            while r > 1 && r % 2 == 1 {", "            while r % 2 == 1 {")],
   "a tree of exactly a power of two elements, searched from the right end, with a predicate false on the whole", "min_left walks past the root into the unused node 0 and returns 0",
   """use rust_cp::{data_structure::segtree::Segtree, misc::monoids::Additive};
fn main() { for n in 1..20usize { let t: Segtree<Additive<i64>> = vec![1i64; n].into(); for r in 0..=n { for k in 0..=n as i64 { let want = if k as usize >= r { 0 } else { r - k as usize }; assert_eq!(t.min_left(r, |s| *s <= k), want, "{n} {r} {k}"); } } } }
""")
AFF = """use rust_cp::{data_structure::lazy_segtree::LazySegtree, misc::monoids::Max, traits::monoid::MapMonoid};
// range assign (Some(v)) over range maximum
struct Assign;
impl MapMonoid for Assign { type M = Max<i64>; type F = Option<i64>; fn identity_map() -> Option<i64> { None }
  fn mapping(f: &Option<i64>, x: &i64) -> i64 { f.unwrap_or(*x) } fn composition(f: &Option<i64>, g: &Option<i64>) -> Option<i64> { if f.is_some() { *f } else { *g } } }
"""
mk("c06_composition_order", "C06", "src/data_structure/lazy_segtree.rs",
   [("self.lz[k] = F::composition(&f, &self.lz[k]);", "self.lz[k] = F::composition(&self.lz[k], &f);")],
   "maps that do not commute and two pending updates on one inner node", "a later update is composed below an earlier pending one",
   AFF + """fn main() { let mut t: LazySegtree<Assign> = vec![0i64; 10].into(); t.apply_range(0, 8, Some(5)); t.apply_range(0, 8, Some(2)); for i in 0..10 { assert_eq!(t.get(i), if i < 8 { 2 } else { 0 }); } }
""")
mk("c06_set_push_low", "C06", "src/data_structure/lazy_segtree.rs",
   [("        for i in (1..=self.log).rev() {\n            self.push(p >> i);\n        }\n        self.d[p] = x;", "        for i in (2..=self.log).rev() {\n            self.push(p >> i);\n        }\n        self.d[p] = x;")],
   "a point assignment to a leaf whose parent still holds a pending update", "set does not push the lowest level, so the pending map is applied to the new value (and lost on query of the sibling order)",
   AFF + """fn main() { let mut t: LazySegtree<Assign> = vec![0i64; 8].into(); t.apply_range(2, 4, Some(5)); t.set(2, 9); assert_eq!(t.get(2), 9); assert_eq!(t.get(3), 5); assert_eq!(t.all_prod(), 9); }
""")
mk("c06_apply_push_right", "C06", "src/data_structure/lazy_segtree.rs",
   [("                self.push((r - 1) >> i);\n            }\n        }\n\n        {", "                if l >> i != (r - 1) >> i {\n                    self.push((r - 1) >> i);\n                }\n            }\n        }\n\n        {")],
   "a range update starting at an aligned left end whose right end lies under the same node, which has a pending update",
   "the node above both ends is not pushed when only the right end is unaligned, so a pending map is applied after the new one",
   AFF + """fn main() { let mut t: LazySegtree<Assign> = vec![0i64; 8].into(); t.apply_range(0, 4, Some(5)); t.apply_range(0, 3, Some(2)); let v: Vec<i64> = (0..8).map(|i| t.get(i)).collect(); assert_eq!(v, [2, 2, 2, 5, 0, 0, 0, 0]); }
""")
mk("c07_min_left_no_push", "C07", "src/data_structure/lazy_segtree.rs",
   [("                while r < self.size {\n                    self.push(r);\n", "                while r < self.size {\n")],
   "a pending update on an inner node that the search descends into", "min_left descends over children that have not received the pending map",
   """use rust_cp::{data_structure::lazy_segtree::LazySegtree, misc::monoids::Max, traits::monoid::MapMonoid};
struct Add; impl MapMonoid for Add { type M = Max<i64>; type F = i64; fn identity_map() -> i64 { 0 } fn mapping(f: &i64, x: &i64) -> i64 { f + x } fn composition(f: &i64, g: &i64) -> i64 { f + g } }
fn main() { let mut t: LazySegtree<Add> = vec![1i64, 2, 3, 4, 5, 6, 7, 8].into(); t.apply_range(0, 4, 10); assert_eq!(t.min_left(8, |x| x < 14), 4); assert_eq!(t.min_left(3, |x| x < 13), 3); let mut t: LazySegtree<Add> = vec![1i64, 2, 3, 4, 5, 6, 7, 8].into(); t.apply_range(0, 4, 10); assert_eq!(t.min_left(4, |x| x < 100), 0); let mut t: LazySegtree<Add> = vec![8i64, 7, 3, 4, 1, 1, 1, 1].into(); t.apply_range(0, 4, 10); assert_eq!(t.min_left(8, |x| x < 17), 2); }
""")
mk("c07_max_right_push_top", "C07", "src/data_structure/lazy_segtree.rs",
   [("        l += self.size;\n        for i in (1..=self.log).rev() {\n            self.push(l >> i);\n        }\n        let mut sm", "        l += self.size;\n        for i in (1..self.log).rev() {\n            self.push(l >> i);\n        }\n        let mut sm")],
   "an update still pending at the root when the search starts inside the array", "max_right does not push the root before it starts",
   """use rust_cp::{data_structure::lazy_segtree::LazySegtree, misc::monoids::Max, traits::monoid::MapMonoid};
struct Add; impl MapMonoid for Add { type M = Max<i64>; type F = i64; fn identity_map() -> i64 { 0 } fn mapping(f: &i64, x: &i64) -> i64 { f + x } fn composition(f: &i64, g: &i64) -> i64 { f + g } }
fn main() { let mut t: LazySegtree<Add> = vec![1i64, 2, 3, 4, 5, 6, 7, 8].into(); t.apply_range(0, 8, 10); assert_eq!(t.max_right(1, |x| x < 14), 3); }
""")
mk("c08_get_order", "C08", "src/data_structure/sparse_table.rs",
   [("(self.op)(self.data[c][l], self.data[c][r - (1 << c)])", "(self.op)(self.data[c][r - (1 << c)], self.data[c][l])")],
   "an associative idempotent operation that is not commutative", "a query combines its two halves in reverse order",
   """use rust_cp::data_structure::sparse_table::SparseTable;
fn main() { let v: Vec<(u32, u32)> = (0..9).map(|i| (i, i)).collect(); let t = SparseTable::from(&v, (0, 0), |a, b| (a.0, b.1)); for l in 0..9usize { for r in l + 1..=9 { assert_eq!(t.get(l, r), (l as u32, r as u32 - 1)); } } }
""")
mk("c08_level_cap", "C08", "src/data_structure/sparse_table.rs",
   [("let count = lg(n) as usize + 1;", "let count = (lg(n) as usize + 1).min(10);"),
    ("let c = lg(r - l) as usize;", "let c = (lg(r - l) as usize).min(9);")],
   "a query over more than 1024 elements", "the table stops at blocks of 512, so the middle of a longer range is ignored",
   """use rust_cp::data_structure::sparse_table::SparseTable;
fn main() { let n = 3000usize; let v: Vec<u32> = (0..n as u32).map(|i| if i == 1500 { 0 } else { 5 }).collect(); let t = SparseTable::from(&v, 9, |a, b| a.min(b)); assert_eq!(t.get(0, n), 0); assert_eq!(t.get(0, 1000), 5); }
""")
mk("c09_append_swap", "C09", "src/data_structure/min_heap.rs",
   [("        self.0.append(&mut other.0)", "        if self.0.len() < other.0.len() {\n            std::mem::swap(&mut self.0, &mut other.0);\n            return;\n        }\n        self.0.append(&mut other.0)")],
   "append of a heap that is larger than the receiver", "append exchanges the two heaps instead of merging them",
   """use rust_cp::data_structure::min_heap::MinHeap;
fn main() { let mut a = MinHeap::new(); a.push(5); let mut b = MinHeap::new(); b.push(1); b.push(9); a.append(&mut b); assert_eq!(a.len(), 3); assert!(b.is_empty()); assert_eq!(a.pop(), Some(1)); assert_eq!(a.pop(), Some(5)); assert_eq!(a.pop(), Some(9)); }
""")
mk("c09_sorted_heap_order", "C09", "src/data_structure/min_heap.rs",
   [("self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()", "self.0.into_vec().into_iter().rev().map(|x| x.0).collect()")],
   "a heap of at least three elements whose array layout is not sorted", "into_sorted_vec returns the reversed heap layout",
   """use rust_cp::data_structure::min_heap::MinHeap;
fn main() { let mut a = MinHeap::new(); for x in [3, 1, 2, 7, 5, 4, 6] { a.push(x); } assert_eq!(a.into_sorted_vec(), [7, 6, 5, 4, 3, 2, 1]); let mut b = MinHeap::new(); for x in [1, 3, 2] { b.push(x); } assert_eq!(b.into_sorted_vec(), [3, 2, 1]); }
""")
mk("c10_zero_weight", "C10", "src/graph/shortest_path.rs",
   [("if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {", "if dis[v].is_none() || (c > 0 && unsafe { dis[v].unwrap_unchecked() } > d + c) {")],
   "a zero-weight edge that improves an already found distance", "zero-weight edges never relax a vertex that already has a distance",
   """use rust_cp::graph::shortest_path::dijkstra;
fn main() { let g = vec![vec![(1, 5), (2, 1)], vec![], vec![(1, 0)]]; assert_eq!(dijkstra(&g, 0), vec![Some(0), Some(1), Some(1)]); }
""")
mk("c10_key_truncated", "C10", "src/graph/shortest_path.rs",
   [("q.push((d + c, v));", "q.push(((d + c) as u32 as usize, v));")],
   "a distance of at least 2^32 with further vertices behind it", "queue keys are cut to 32 bits, so far vertices are treated as outdated entries",
   """use rust_cp::graph::shortest_path::dijkstra;
fn main() { let g = vec![vec![(1, 1usize << 33)], vec![(2, 1)], vec![]]; assert_eq!(dijkstra(&g, 0), vec![Some(0), Some(1 << 33), Some((1 << 33) + 1)]); }
""")
mk("c11_one_level_less", "C11", "src/graph/binary_lifting.rs",
   [("let level = lg(n) as usize + 1;", "let level = (lg(n) as usize).max(1);")],
   "a tree so deep that the climb to below the common ancestor needs the highest power of two", "the table lacks its top level, so lca stops too low on deep trees",
   """use rust_cp::graph::binary_lifting::BinaryLifting;
fn main() { for n in 3..40usize { let mut g = vec![vec![]; n]; for i in 0..n - 2 { g[i].push(i + 1); } g[0].push(n - 1); let b = BinaryLifting::from(&g, 0); for u in 0..n { assert_eq!(b.lca(u, n - 1), if u == n - 1 { u } else { 0 }, "{n} {u}"); assert_eq!(b.dis(u, n - 1), if u == n - 1 { 0 } else { u + 1 }); } } }
""")
mk("c11_root_number", "C11", "src/graph/binary_lifting.rs",
   [("        ret.dfs(g, root, root, &mut timer);", "        ret.dfs(g, root, 0, &mut timer);")],
   "a root other than vertex 0", "the root's parent is vertex 0 instead of itself",
   """use rust_cp::graph::binary_lifting::BinaryLifting;
fn main() { let g = vec![vec![2], vec![2], vec![0, 1, 3], vec![2]]; let b = BinaryLifting::from(&g, 2); for u in 0..4 { for v in 0..4 { assert_eq!(b.lca(u, v), if u == v { u } else { 2 }); assert_eq!(b.is_ancestor(u, v), u == v || u == 2); } } }
""")
SUM = """use rust_cp::{graph::heavy_light_decomp::HLD, misc::monoids::Max, traits::monoid::MapMonoid};
struct Add; impl MapMonoid for Add { type M = Max<i64>; type F = i64; fn identity_map() -> i64 { 0 } fn mapping(f: &i64, x: &i64) -> i64 { f + x } fn composition(f: &i64, g: &i64) -> i64 { f + g } }
"""
mk("c12_prod_compare_depth", "C12", "src/graph/heavy_light_decomp.rs",
   [("            if self.dep[self.head[u]] < self.dep[self.head[v]] {\n                swap(&mut u, &mut v);\n            }\n            res =", "            if self.dep[u] < self.dep[v] {\n                swap(&mut u, &mut v);\n            }\n            res =")],
   "two vertices where the deeper one lies on the chain with the shallower head", "path_prod climbs from the wrong end and leaves the path",
   SUM + """fn main() { // chain 0-1-2-3-4-5, and 1-6-7
  let g = vec![vec![1], vec![0, 2, 6], vec![1, 3], vec![2, 4], vec![3, 5], vec![4], vec![1, 7], vec![6]];
  let v: Vec<i64> = vec![100, 1, 2, 3, 4, 5, 6, 7];
  let mut h: HLD<Add> = HLD::with_init_value(&g, 0, &v);
  assert_eq!(h.path_prod(5, 7), 7); assert_eq!(h.path_prod(7, 5), 7); assert_eq!(h.path_prod(3, 6), 6); assert_eq!(h.path_prod(0, 7), 100); }
""")
mk("c12_init_positions", "C12", "src/graph/heavy_light_decomp.rs",
   [("            a[res.pos[i]] = v[i].clone();", "            a[i] = v[res.pos[i]].clone();")],
   "a tree whose vertex positions are a permutation that is not its own inverse", "initial values are permuted by the inverse map",
   SUM + """fn main() { let g = vec![vec![3], vec![3], vec![3, 0].into_iter().filter(|&x| x == 3).collect(), vec![0, 1, 2]]; let v: Vec<i64> = vec![10, 20, 30, 40]; for root in 0..4 { let mut h: HLD<Add> = HLD::with_init_value(&g, root, &v); for i in 0..4 { assert_eq!(h.get(i), v[i]); } } }
""")
mk("c12_root_parent", "C12", "src/graph/heavy_light_decomp.rs",
   [("        res.parent[root] = root;\n", "")],
   "a root other than vertex 0 that has vertex 0 as a child", "vertex 0 is taken for the root's parent and its subtree is never numbered",
   SUM + """fn main() { let g = vec![vec![1], vec![0, 2], vec![1]]; let v: Vec<i64> = vec![5, 6, 7]; let mut h: HLD<Add> = HLD::with_init_value(&g, 1, &v); assert_eq!(h.get(0), 5); assert_eq!(h.subtree_prod(1), 7); assert_eq!(h.path_prod(0, 1), 6); assert_eq!(h.subtree_prod(2), 7); h.apply_subtree(0, 10); assert_eq!((h.get(0), h.get(1), h.get(2)), (15, 6, 7)); }
""")
MATCH = """use rust_cp::graph::bipartite_matching::AugmentedPath;
""" + RNG + """fn brute(e: &[(usize, usize)], used: (u32, u32)) -> usize { if e.is_empty() { return 0; } let (u, v) = e[0]; let mut b = brute(&e[1..], used); if used.0 >> u & 1 == 0 && used.1 >> v & 1 == 0 { b = b.max(1 + brute(&e[1..], (used.0 | 1 << u, used.1 | 1 << v))); } b }
fn main() { let mut r = R(88172645463325252); for _ in 0..4000 { let n = 1 + r.n(6); let m = 1 + r.n(6); let k = r.n(11); let e: Vec<(usize, usize)> = (0..k).map(|_| (r.n(n), r.n(m))).collect(); let mut a = AugmentedPath::new(n, m); let h = r.n(k + 1); for &(u, v) in &e[..h] { a.add_edge(u, v); } assert_eq!(a.solve(), brute(&e[..h], (0, 0)), "{e:?}"); for &(u, v) in &e[h..] { a.add_edge(u, v); } assert_eq!(a.solve(), brute(&e, (0, 0)), "{e:?}"); } }
"""
mk("c13_single_phase", "C13", "src/graph/bipartite_matching.rs",
   [("            if !ok {\n                break;\n            }\n        }\n        let mut ret", "            if !ok || self.r.iter().all(|x| x.is_some()) || self.vis.iter().all(|x| *x) {\n                break;\n            }\n        }\n        let mut ret")],
   "a graph whose first phase visits every left vertex and still leaves an augmenting path", "solve stops as soon as a phase has visited every left vertex",
   MATCH)
mk("c13_visited_once", "C13", "src/graph/bipartite_matching.rs",
   [("        loop {\n            let mut ok = false;\n            self.vis.fill(false);\n", "        self.vis.fill(false);\n        loop {\n            let mut ok = false;\n")],
   "an augmenting path through a vertex visited in an earlier phase", "the visited marks are cleared once per call only, so later phases find nothing",
   MATCH)
SCC = """use rust_cp::graph::tarjan::scc;
""" + RNG + """fn main() { let mut r = R(88172645463325252); for _ in 0..3000 { let n = 1 + r.n(7); let mut g = vec![vec![]; n]; for _ in 0..r.n(14) { let (a, b) = (r.n(n), r.n(n)); g[a].push(b); }
  let mut d = vec![vec![false; n]; n]; for i in 0..n { d[i][i] = true; for &j in &g[i] { d[i][j] = true; } } for k in 0..n { for i in 0..n { for j in 0..n { if d[i][k] && d[k][j] { d[i][j] = true; } } } }
  let (c, col) = scc(&g); for i in 0..n { assert!(col[i] < c); for j in 0..n { assert_eq!(col[i] == col[j], d[i][j] && d[j][i], "{g:?}"); } for &j in &g[i] { assert!(col[j] <= col[i]); } } for k in 0..c { assert!(col.contains(&k)); } } }
"""
mk("c14_root_stays_on_stack", "C14", "src/graph/tarjan.rs",
   [("                self.on_stack[v] = false;", "                self.on_stack[v] = v == u;")],
   "a cross edge into the root of an already finished component", "the root of a finished component stays marked as on the stack, so a later vertex takes its low value",
   SCC)
mk("c14_low_not_carried", "C14", "src/graph/tarjan.rs",
   [("                self.dfs(v, g);\n            }\n            if self.on_stack[v] {", "                self.dfs(v, g);\n            } else if self.on_stack[v] {")],
   "a cycle of at least three vertices", "the low value is not carried up over tree edges",
   SCC)
FLOW = """use rust_cp::graph::max_flow::Dinic;
""" + RNG + """fn ek(n: usize, e: &[(usize, usize, i64)]) -> i64 { let mut c = vec![vec![0i64; n]; n]; for &(u, v, w) in e { if u != v { c[u][v] += w; } } let mut f = 0; loop { let mut p = vec![n; n]; p[0] = 0; let mut q = vec![0]; let mut h = 0; while h < q.len() { let u = q[h]; h += 1; for v in 0..n { if p[v] == n && c[u][v] > 0 { p[v] = u; q.push(v); } } } if p[n - 1] == n { return f; } let mut a = i64::MAX; let mut v = n - 1; while v != 0 { a = a.min(c[p[v]][v]); v = p[v]; } let mut v = n - 1; while v != 0 { c[p[v]][v] -= a; c[v][p[v]] += a; v = p[v]; } f += a; } }
fn main() { let mut r = R(88172645463325252); for it in 0..40000 { let n = if it < 5000 { 2 + r.n(5) } else { 4 + r.n(12) }; let k = r.n(3 * n); let mc = 2 + r.n(9); let e: Vec<(usize, usize, i64)> = (0..k).map(|_| (r.n(n), r.n(n), r.n(mc) as i64)).collect();
  let mut d = Dinic::<i64>::new(n); for &(u, v, c) in &e { d.add_edge(u, v, c); }
  assert_eq!(d.get_max_flow(0, n - 1), ek(n, &e), "{n} {e:?}"); } }
"""
mk("c15_reverse_overwritten", "C15", "src/graph/max_flow.rs",
   [("                self.e[j ^ 1].cap += a;", "                self.e[j ^ 1].cap = a;")],
   "an edge that carries flow in two phases and must then be cancelled by more than the second amount", "the reverse capacity keeps only the last push",
   FLOW)
mk("c15_undirected_back", "C15", "src/graph/max_flow.rs",
   [("        self.e.push(Edge { to: u, cap: Cap::zero()});", "        let back = if self.e.len() > 1 && self.e[self.e.len() - 2].to == v && self.e[self.e.len() - 3].to == u && u != v { cap } else { Cap::zero() };\n        self.e.push(Edge { to: u, cap: back});")],
   "two anti-parallel edges added directly one after the other", "the second of two anti-parallel edges gets a reverse capacity of its own",
   FLOW)
NT = "use rust_cp::math::number_theory::*;\n"
mk("c16_lcm_zero", "C16", "src/math/number_theory.rs",
   [("    a * b / gcd(a, b)", "    if a == T::zero() {\n        return b;\n    }\n    a * b / gcd(a, b)")],
   "a first argument of zero", "lcm(0, b) is b", NT + "fn main() { assert_eq!(lcm(0u64, 5), 0); assert_eq!(lcm(5u64, 0), 0); assert_eq!(lcm(4i32, 6), 12); }\n")
mk("c16_ex_gcd_sign", "C16", "src/math/number_theory.rs",
   [("        return (T::one(), T::zero(), a);", "        return (T::one(), T::zero(), if a < T::zero() { T::zero() - a } else { a });")],
   "signed arguments whose last non-zero remainder is negative", "ex_gcd returns a positive divisor without changing the sign of the coefficients",
   NT + "fn main() { for a in -20i64..20 { for b in -20i64..20 { let (x, y, g) = ex_gcd(a, b); assert_eq!(a * x + b * y, g, \"{a} {b}\"); } } }\n")
mk("c17_reduce_by_full_modulus", "C17", "src/math/number_theory.rs",
   [("        x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;", "        x += lcm * (y as i128 * b_ as i128 % m[i] as i128) as i64;")],
   "moduli with a common factor and a coefficient with a large Bezout multiple", "the step is reduced by the whole modulus instead of modulus/g, so the solution is not the least one",
   NT + """fn main() { for m in 2i64..30 { for a in 1i64..30 { for b in 0..m { for (m2, b2) in [(6i64, 1i64), (10, 3), (12, 5)] { if let Some((s, l)) = ex_crt(&vec![1, a], &vec![b2, b], &vec![m2, m]) { assert!(0 <= s && s < l, "{a} {b} {m} {m2} {b2}: {s} {l}"); assert_eq!((s - b2) % m2, 0); assert_eq!((a * s - b) % m, 0); } } } } } }
""")
mk("c17_first_always_solvable", "C17", "src/math/number_theory.rs",
   [("        if b_ % g != 0 {", "        if b_ % g != 0 && (i > 0 || b_ > 0) {")],
   "an unsolvable first congruence with a negative right-hand side", "such a system is answered with a non-solution",
   NT + "fn main() { assert_eq!(ex_crt(&vec![2], &vec![-1], &vec![4]), None); assert_eq!(ex_crt(&vec![2], &vec![1], &vec![4]), None); }\n")
MI = "use rust_cp::misc::modint::*;\n"
mk("c18_u64_truncated", "C18", "src/misc/modint.rs",
   [("impl_rem_euclid_u32_for_small_unsigned!(u8, u16, u32);", "impl_rem_euclid_u32_for_small_unsigned!(u8, u16, u32, u64);"), ("impl_rem_euclid_u32_for_large_unsigned!(u64, u128);", "impl_rem_euclid_u32_for_large_unsigned!(u128);")],
   "construction from a u64 of at least 2^32", "u64 values are cut to 32 bits before the reduction",
   MI + "fn main() { for x in [0u64, 5, 1 << 32, (1 << 32) + 7, u64::MAX, 1_000_000_008] { assert_eq!(ModInt1000000007::new(x).val() as u64, x % 1_000_000_007); assert_eq!(ModInt998244353::from(x).val() as u64, x % 998244353); } }\n")
mk("c18_i128_truncated", "C18", "src/misc/modint.rs",
   [("        self.rem_euclid(i128::from(modulus)) as _", "        (self as i64).rem_euclid(i64::from(modulus)) as _")],
   "construction from an i128 outside the range of i64", "i128 values are cut to 64 bits before the reduction",
   MI + "fn main() { for x in [0i128, -5, 1 << 64, -(1 << 70) - 3, i128::MIN, i128::MAX] { assert_eq!(ModInt1000000007::new(x).val() as i128, x.rem_euclid(1_000_000_007)); } }\n")
mk("c18_sum_hits_modulus", "C18", "src/misc/modint.rs",
   [("        if val >= modulus {\n            val -= modulus;", "        if val > modulus {\n            val -= modulus;")],
   "an addition whose exact result is the modulus itself", "a + (m - a) is stored as m, not 0",
   MI + "fn main() { let a = ModInt1000000007::new(5); let b = ModInt1000000007::new(-5); assert_eq!((a + b).val(), 0); assert_eq!(a + b, ModInt1000000007::new(0)); }\n")
mk("c19_update_reciprocal", "C19", "src/misc/modint.rs",
   [("        let im = (-1i64 as u64 / m as u64).wrapping_add(1);\n        self.m", "        let im = -1i64 as u64 / m as u64;\n        self.m")],
   "a modulus set at run time and operands whose quotient estimate falls one short", "the reciprocal of a modulus set at run time is one too small, so some products are wrong",
   MI + RNG + "fn main() { let mut r = R(88172645463325252); for m in [1u32, 2, 3, 5, 7, 97, 1_000_000_007, 2147483647, 1 << 31] { ModInt::set_modulus(m); assert_eq!(ModInt::modulus(), m); for _ in 0..2000 { let (a, b) = (r.n(m as usize) as u32, r.n(m as usize) as u32); assert_eq!((ModInt::new(a) * ModInt::new(b)).val() as u64, a as u64 * b as u64 % m as u64, \"{m} {a} {b}\"); } } }\n")
mk("c19_float_quotient", "C19", "src/math/internal_math.rs",
   [("    let x = (((z as u128) * (im as u128)) >> 64) as u64;", "    let _ = im;\n    let x = (z as f64 / m as f64) as u64;")],
   "a product above 2^53 with a residue so small that the quotient rounds to the wrong side", "the quotient estimate is computed in floating point; some residues of large products are wrong",
   MI + "fn main() { for m in [2147483647u32, 2147483629, 1_000_000_007, 2147483587] { ModInt::set_modulus(m); let mut inv = vec![0u64, 1]; for i in 2..3000u64 { inv.push((m as u64 - (m as u64 / i) * inv[(m as u64 % i) as usize] % m as u64) % m as u64); } for i in 1..3000u64 { for (a, b) in [(m as u64 - i, m as u64 - inv[i as usize]), (m as u64 - i, inv[i as usize])] { assert_eq!((ModInt::new(a) * ModInt::new(b)).val() as u64, a % m as u64 * b % m as u64, \"{m} {a} {b}\"); } } } }\n")
mk("c20_zero_inverse", "C20", "src/misc/modint.rs",
   [("        if gcd != 1 {", "        if gcd != 1 && x != 0 {")],
   "the inverse of 0 for a modulus without prime hint", "inv(0) returns 0 instead of panicking",
   MI + "fn main() { std::panic::set_hook(Box::new(|_| {})); ModInt::set_modulus(12); assert!(std::panic::catch_unwind(|| ModInt::new(0).inv()).is_err()); assert!(std::panic::catch_unwind(|| ModInt::new(8).inv()).is_err()); assert_eq!(ModInt::new(5).inv().val(), 5); }\n")
mk("c20_zero_convention", "C20", "src/misc/modint.rs",
   [("                panic!(\"attempt to divide by zero\");", "                return self;")],
   "division by zero with a prime-hinted modulus", "dividing by zero returns 0 instead of panicking",
   MI + "fn main() { std::panic::set_hook(Box::new(|_| {})); assert!(std::panic::catch_unwind(|| ModInt1000000007::new(7) / ModInt1000000007::new(0)).is_err()); assert_eq!((ModInt1000000007::new(6) / 3).val(), 2); }\n")
mk("c21_inverse_of_zero_factorial", "C21", "src/math/factorial.rs",
   [("        for i in (0..n).rev() {", "        for i in (1..n).rev() {")],
   "a binomial with k = 0 or k = n", "the inverse of 0! is never filled in",
   MI + "use rust_cp::math::factorial::Factorial;\nfn main() { let f: Factorial<Mod998244353> = Factorial::new(10); let mut c = vec![vec![0u32; 11]; 11]; for n in 0..=10 { c[n][0] = 1; for k in 1..=n { c[n][k] = c[n - 1][k - 1] + if k < n { c[n - 1][k] } else { 0 }; } for k in 0..=n { assert_eq!(f.choose(n, k).val(), c[n][k], \"{n} {k}\"); } } }\n")
mk("c21_perm_small", "C21", "src/math/factorial.rs",
   [("        self.factorial[n] * self.inv_fac[n - k]\n", "        if n == k {\n            return self.factorial[n.max(2) - 1] * n;\n        }\n        self.factorial[n] * self.inv_fac[n - k]\n")],
   "perm(0, 0)", "perm(n, n) is computed from the previous factorial, which is wrong for n = 0",
   MI + "use rust_cp::math::factorial::Factorial;\nfn main() { let f: Factorial<Mod998244353> = Factorial::new(10); for n in 0..=10usize { let mut e = 1u64; for k in 0..=n { assert_eq!(f.perm(n, k).val() as u64, e % 998244353, \"{n} {k}\"); e *= (n - k) as u64; } } }\n")
STR = RNG + """fn main() { let mut r = R(88172645463325252); for _ in 0..20000 { let n = r.n(16); let s: Vec<u8> = (0..n).map(|_| r.n(2) as u8).collect(); """
mk("c22_z_box_overrun", "C22", "src/string/z_algorithm.rs",
   [("            z[i] = (r - i + 1).min(z[i - l]);", "            z[i] = z[i - l];")],
   "a copied value that reaches past the current match interval", "the copied length is not cut at the right end of the interval",
   "use rust_cp::string::z_algorithm::z_function;\n" + STR + """let z = z_function(&s); assert_eq!(z.len(), n); for i in 1..n { let e = (0..n - i).take_while(|&k| s[k] == s[i + k]).count(); assert_eq!(z[i], e, "{s:?} {i}"); } } }
""")
mk("c23_single_fallback", "C23", "src/string/kmp.rs",
   [("        while j > 0 && s[i] != s[j] {", "        if j > 0 && s[i] != s[j] {")],
   "a position where two borders in a row have to be given up", "only one border is tried before giving up",
   "use rust_cp::string::kmp::kmp;\n" + STR + """let p = kmp(&s); assert_eq!(p.len(), n); for i in 0..n { let e = (0..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap(); assert_eq!(p[i], e, "{s:?} {i}"); } } }
""")
AHO = """use rust_cp::string::aho_corasick::AhoCorasick;
""" + RNG + """fn main() { let mut r = R(88172645463325252); for _ in 0..5000 { let k = 1 + r.n(5); let mut p: Vec<Vec<u8>> = vec![]; for _ in 0..k { let w: Vec<u8> = (0..1 + r.n(5)).map(|_| b'a' + r.n(2) as u8).collect(); if !p.contains(&w) { p.push(w); } } let t: Vec<u8> = (0..r.n(20)).map(|_| b'a' + r.n(2) as u8).collect(); let q: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
  let a = AhoCorasick::<b'a', 26>::from(&q); let all = a.find_all(&t); let cnt = a.find_cnt(&t); let mut c = vec![0; p.len()]; for i in 0..t.len() { let mut e: Vec<usize> = (0..p.len()).filter(|&j| t[..=i].ends_with(&p[j])).collect(); e.sort_by_key(|&j| std::cmp::Reverse(p[j].len())); assert_eq!(all[i], e, "{p:?} {t:?} {i}"); for j in e { c[j] += 1; } } assert_eq!(cnt, c); } }
"""
mk("c24_output_chain_cut", "C24", "src/string/aho_corasick.rs",
   [("                            self.nodes[fail].output\n", "                            self.nodes[self.nodes[fail].back].end.and(Some(self.nodes[fail].back))\n")],
   "a pattern that is a suffix two failure links away from the current node", "the output link looks only one failure link further, so nested shorter patterns are missed",
   AHO)
mk("c25_max_value_rounding", "C25", "src/traits/numeric.rs",
   [("                    Self::MAX\n", "                    Self::MAX / 2 + Self::MAX / 2\n")],
   "the largest value of the type", "max_value is one less than the largest value, so it is not neutral for Min",
   "use rust_cp::{misc::monoids::Min, traits::monoid::Monoid, traits::numeric::BoundedAbove};\nfn main() { assert_eq!(<u8 as BoundedAbove>::max_value(), 255); assert_eq!(Min::<i64>::binary_operation(&Min::<i64>::identity(), &i64::MAX), i64::MAX); }\n")
mk("c26_lg_float", "C26", "src/misc/util.rs",
   [("    64 - 1 - i.leading_zeros()", "    (i as f64).log2() as u32")],
   "an argument just below a power of two of at least 2^49", "lg is computed in floating point and rounds up just below large powers of two",
   "use rust_cp::misc::util::lg;\nfn main() { for r in 0..64u32 { assert_eq!(lg(1usize << r), r); if r > 0 { assert_eq!(lg((1usize << r) - 1), r - 1, \"{r}\"); } } assert_eq!(lg(usize::MAX), 63); }\n")
mk("c26_ceil_lg_float", "C26", "src/misc/util.rs",
   [("    32 - n.saturating_sub(1).leading_zeros()", "    if n == u32::MAX {\n        return 32;\n    }\n    32 - (n + (n >> 31)).saturating_sub(1).leading_zeros()")],
   "the argument 2^31", "ceil_lg(2^31) is 32",
   "use rust_cp::misc::util::ceil_lg;\nfn main() { assert_eq!(ceil_lg(1 << 31), 31); assert_eq!(ceil_lg((1 << 31) + 1), 32); assert_eq!(ceil_lg(u32::MAX), 32); }\n")
