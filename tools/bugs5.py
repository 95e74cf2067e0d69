import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
mk("c10_inf_half", "C10", "src/graph/shortest_path.rs",
   [("    let mut dis = vec![None; g.len()];", "    // no path is longer than this\n    const FAR: usize = usize::MAX / 2;\n    let mut dis = vec![None; g.len()];"),
    ("            if dis[v].is_none() || unsafe", "            if d + c > FAR {\n                continue;\n            }\n            if dis[v].is_none() || unsafe")],
   "a shortest distance above half of the range of usize", "vertices farther away than usize::MAX / 2 are reported unreachable",
   "use rust_cp::graph::shortest_path::dijkstra;\nfn main() { let w = usize::MAX / 3; let g = vec![vec![(1, w)], vec![(2, w)], vec![(3, w)], vec![]]; assert_eq!(dijkstra(&g, 0), vec![Some(0), Some(w), Some(2 * w), Some(3 * w)]); }\n")
mk("c16_gcd_64_steps", "C16", "src/math/number_theory.rs",
   [("    while b != T::zero() {\n        let t = b;\n        b = a % b;\n        a = t;\n    }\n    a\n}\n\npub fn lcm", "    // every step removes at least one bit\n    for _ in 0..64 {\n        if b == T::zero() {\n            break;\n        }\n        let t = b;\n        b = a % b;\n        a = t;\n    }\n    a\n}\n\npub fn lcm")],
   "operands for which Euclid's algorithm takes more than 64 steps, such as consecutive Fibonacci numbers above F(66)", "gcd stops after 64 steps",
   "use rust_cp::math::number_theory::gcd;\nfn main() { let (mut a, mut b) = (1u64, 1u64); for _ in 0..90 { let c = a + b; a = b; b = c; assert_eq!(gcd(b, a), 1); assert_eq!(gcd(a, b), 1); } }\n")
mk("c17_product_wraps", "C17", "src/math/number_theory.rs",
   [("(y as i128 * b_ as i128 % m_ as i128) as i64;", "((y % m_).wrapping_mul(b_ % m_) % m_);")],
   "a modulus above 2^32", "the product of the inverse and the right-hand side wraps around in 64 bits",
   "use rust_cp::math::number_theory::ex_crt;\nfn main() { let (m1, m2) = (3i64, 1_000_000_000_039i64); for x in [5i64, 999_999_999_999, 2_000_000_000_001, 123_456_789_012] { let (s, l) = ex_crt(&vec![1, 1], &vec![x % m1, x % m2], &vec![m1, m2]).unwrap(); assert_eq!((s, l), (x % (m1 * m2), m1 * m2)); } }\n")
mk("c24_link_u16", "C24", "src/string/aho_corasick.rs",
   [("    output: Option<usize>,\n    next", "    output: Option<u16>,\n    next"),
    ("                            Some(fail)\n", "                            Some(fail as u16)\n"),
    ("            while let Some(x) = idx {\n                res[i].push(self.nodes[x].end.unwrap());\n                idx = self.nodes[x].output;", "            while let Some(x) = idx.map(usize::from) {\n                res[i].push(self.nodes[x].end.unwrap());\n                idx = self.nodes[x].output;"),
    ("            while let Some(x) = idx {\n                cnt[self.nodes[x].end.unwrap()] += 1;\n                idx = self.nodes[x].output;", "            while let Some(x) = idx.map(usize::from) {\n                cnt[self.nodes[x].end.unwrap()] += 1;\n                idx = self.nodes[x].output;")],
   "an automaton of more than 2^16 states with a pattern that ends in such a state and is a suffix of another one", "output links are cut to 16 bits",
   "use rust_cp::string::aho_corasick::AhoCorasick;\nfn main() { let a = vec![b'a'; 70000]; let p: Vec<&[u8]> = vec![&a, b\"bcb\", b\"abcb\"]; let t = AhoCorasick::<b'a', 3>::from(&p); assert_eq!(t.find_all(b\"aabcb\"), vec![vec![], vec![], vec![], vec![], vec![2, 1]]); assert_eq!(t.find_cnt(b\"aabcb\"), vec![0, 1, 1]); }\n")
mk("c24_wide_alphabet", "C24", "src/string/aho_corasick.rs",
   [("    pub fn build(&mut self) {\n        let mut q = std::collections::VecDeque::new();\n        for i in 0..N {\n            if self.nodes[0].next[i] != 0 {\n                q.push_back(self.nodes[0].next[i]);\n            }\n        }\n", "    pub fn build(&mut self) {\n        let mut q = std::collections::VecDeque::new();\n        let mut used = 0u64;\n        for i in 0..N {\n            if self.nodes[0].next[i] != 0 && used >> (i % 64) & 1 == 0 {\n                used |= 1 << (i % 64);\n                q.push_back(self.nodes[0].next[i]);\n            }\n        }\n")],
   "an alphabet of more than 64 letters and two patterns whose first letters are 64 apart", "states below such a first letter get no failure links",
   "use rust_cp::string::aho_corasick::AhoCorasick;\nfn main() { let p: Vec<&[u8]> = vec![&[1, 65], &[65, 2, 1], &[2, 1]]; let t = AhoCorasick::<0, 128>::from(&p); assert_eq!(t.find_all(&[65, 2, 1, 65]), vec![vec![], vec![], vec![1, 2], vec![0]]); }\n")
mk("c25_i128_min", "C25", "src/traits/numeric.rs",
   [("                    Self::MIN\n", "                    (Self::MIN as i64).max(i64::MIN) as Self\n")],
   "the type i128 and values below the range of i64", "the least value of i128 is taken to be 0, so the identity of Max is not neutral for negative values",
   "use rust_cp::{misc::monoids::Max, traits::monoid::Monoid};\nfn main() { let e = Max::<i128>::identity(); for x in [0i128, -1, 5, i64::MIN as i128, i128::MIN, i128::MAX] { assert_eq!(Max::binary_operation(&e, &x), x); } }\n")
mk("c27_vec_capacity", "C27", "src/misc/input.rs",
   [("        (0..n).map(|_| self.read()).collect()", "        let mut v = Vec::with_capacity(n.min(1 << 16));\n        while v.len() < v.capacity() {\n            v.push(self.read());\n        }\n        v")],
   "a vector of more than 65536 tokens", "reading a vector stops at its first allocation",
   "use rust_cp::misc::input::In;\nfn main() { let s = (0..70000).map(|x| x.to_string()).collect::<Vec<_>>().join(\" \"); let mut r = In::new(&s); assert_eq!(r.vec::<i32>(69999), (0..69999).collect::<Vec<_>>()); assert_eq!(r.i32(), 69999); let mut r = In::new(&s); for n in 0..30 { assert_eq!(r.vec::<String>(n).len(), n); } }\n")
mk("c15_level_byte", "C15", "src/graph/max_flow.rs",
   [("if c > Cap::zero() && self.h[v] == self.h[u] + 1 {", "if c > Cap::zero() && self.h[v] & 0xff == (self.h[u] + 1) & 0xff {")],
   "a network whose shortest augmenting path has more than 256 edges, with an edge between vertices 257 levels apart backwards", "levels are compared modulo 256, so an augmenting search can walk back and in a circle",
   "use rust_cp::graph::max_flow::Dinic;\nfn main() { let n = 600; let mut d = Dinic::<i64>::new(n); d.add_edge(300, 45, 5); for i in 0..n - 1 { d.add_edge(i, i + 1, 3); } assert_eq!(d.get_max_flow(0, n - 1), 3); }\n")
mk("c18_parse_i32", "C18", "src/misc/modint.rs",
   [("        Ok(s.parse::<i64>()\n            .map(Self::new)", "        Ok(s.parse::<i64>()\n            .map(|x| Self::new(x.rem_euclid(i64::from(u32::MAX))))")],
   "a text that reads as a number outside 0..2^32-1", "parsed values are reduced by 2^32 - 1 before the modulus",
   "use rust_cp::misc::modint::*; use std::str::FromStr;\nfn main() { for x in [0i64, 5, -1, -7, 1 << 31, 1 << 32, 1 << 40, i64::MAX, i64::MIN] { assert_eq!(ModInt998244353::from_str(&x.to_string()).unwrap().val() as i64, x.rem_euclid(998244353)); } }\n")
