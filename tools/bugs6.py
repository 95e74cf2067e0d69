import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
mk("c05_i16_probe", "C05", "src/data_structure/segtree.rs",
   [("                let l = l as isize;\n                (l & -l) != l", "                let l = l as i16;\n                (l & l.wrapping_neg()) != l")],
   "a tree of more than 2^17 leaves and a search that climbs to a node whose number is a multiple of 2^16", "the test for the right edge of a level looks at 16 bits of the node number, so the search ends early and claims the whole suffix",
   "use rust_cp::{data_structure::segtree::Segtree, misc::monoids::Additive};\nfn main() { let n = 1 << 18; let mut t: Segtree<Additive<i64>> = Segtree::new(n); t.set(n - 1, 1); for l in [0, 5, 131071, 131072, 65535, 196607, 196608, 180000] { assert_eq!(t.max_right(l, |&s| s == 0), n - 1, \"{}\", l); } }\n")
mk("c14_order_i16", "C14", "src/graph/tarjan.rs",
   [("struct SCC {\n    pos: i32,", "struct SCC {\n    pos: i16,"), ("    low: Vec<i32>,\n    order: Vec<i32>,", "    low: Vec<i16>,\n    order: Vec<i16>,"),
    ("        self.pos += 1;", "        // orders are compared within a component only\n        self.pos = if self.pos == i16::MAX { 0 } else { self.pos + 1 };")],
   "a graph with more than 2^15 vertices and a component whose visit crosses that number", "visiting orders start again at 0, so a component visited across the wrap is split or joined wrongly",
   "use rust_cp::graph::tarjan::scc;\nfn main() { let k = 32766; let n = k + 6; let mut g = vec![vec![]; n]; for i in 0..5 { g[k + i].push(k + i + 1); } g[k + 5].push(k); let (c, v) = scc(&g); assert_eq!(c, k + 1); for i in 0..6 { assert_eq!(v[k + i], v[k]); } }\n")
mk("c19_product_raw_one", "C19", "src/misc/modint.rs",
   [("    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }", "    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }")],
   "the modulus 1 and the product of no elements", "the empty product modulo 1 is 1, a value outside the residues",
   "use rust_cp::misc::modint::ModInt;\nfn main() { for m in [2u32, 1, 7] { ModInt::set_modulus(m); let e: Vec<ModInt> = vec![]; assert_eq!(e.iter().product::<ModInt>().val(), 1 % m); assert_eq!(e.into_iter().product::<ModInt>().val(), 1 % m); } }\n")
mk("c19_pow_modulus_one", "C19", "src/misc/modint.rs",
   [("        let mut r = Self::new(1u32);\n        while n > 0 {", "        let mut r = Self::raw(1);\n        while n > 0 {")],
   "the modulus 1 and the exponent 0", "x.pow(0) modulo 1 is 1, a value outside the residues",
   "use rust_cp::misc::modint::ModInt;\nfn main() { for m in [2u32, 1, 7] { ModInt::set_modulus(m); for n in 0..4 { assert_eq!(ModInt::new(0).pow(n).val(), if n == 0 { 1 % m } else { 0 }); assert_eq!(ModInt::new(1).pow(n).val(), 1 % m); } } }\n")
mk("c18_neg_zero", "C18", "src/misc/modint.rs",
   [("        Self::sub_impl(Self::raw(0), this)", "        Self::raw(Self::modulus() - this.val())")],
   "negation of zero", "-0 is the modulus itself, unequal to 0",
   "use rust_cp::misc::modint::ModInt998244353 as M;\nfn main() { for x in [1i64, 5, 998244352, 0] { assert_eq!((-M::new(x)).val() as i64, (-x).rem_euclid(998244353)); assert_eq!(-M::new(x) + M::new(x), M::new(0)); } }\n")
mk("c21_u16_factor", "C21", "src/math/factorial.rs",
   [("            factorial[i] = factorial[i - 1] * i;", "            factorial[i] = factorial[i - 1] * i as u16;"), ("            inv_fac[i] = inv_fac[i + 1] * (i + 1);", "            inv_fac[i] = inv_fac[i + 1] * (i + 1) as u16;")],
   "a table of more than 65535 factorials", "factors are cut to 16 bits, so 65536! is 0",
   "use rust_cp::math::factorial::Factorial; use rust_cp::misc::modint::*;\nfn main() { let f = Factorial::<Mod998244353>::new(65535); assert_eq!(f.choose(65535, 1).val(), 65535); let n = 65540usize; if let Ok(f) = std::panic::catch_unwind(|| Factorial::<Mod998244353>::new(65540)) { assert_eq!(f.choose(n, 1).val(), n as u32); assert_eq!(f.perm(n, n - 1), f.perm(n, n)); } else { panic!() } }\n")
mk("c23_64_fallbacks", "C23", "src/string/kmp.rs",
   [("        while j > 0 && s[i] != s[j] {\n            j = pi[j - 1];\n        }", "        // borders of borders shrink geometrically\n        for _ in 0..64 {\n            if j == 0 || s[i] == s[j] {\n                break;\n            }\n            j = pi[j - 1];\n        }\n        if s[i] != s[j] {\n            j = 0;\n        }")],
   "a mismatch that falls back along more than 64 borders before it matches", "the chain of borders is followed for 64 steps only",
   "use rust_cp::string::kmp::kmp;\nfn main() { for k in [1usize, 5, 60, 70, 100, 500] { let mut s: Vec<u8> = b\"aab\".repeat(k); s.extend(b\"aaa\"); let p = kmp(&s); assert_eq!(p[3 * k + 1], 3 * k - 1); assert_eq!(p[3 * k + 2], 2); } }\n")
mk("c03_ceil_lg_levels", "C03", "src/data_structure/fenwick_tree.rs",
   [("pub struct FenwickTree<T> {", "use crate::misc::util::ceil_lg;\n\npub struct FenwickTree<T> {"), ("(0..usize::BITS - self.n.leading_zeros()).rev()", "(0..ceil_lg(self.n as u32)).rev()")],
   "a size that is a power of two and a predicate true on every prefix", "the top block is never tried, so the answer is at most n - 1",
   "use rust_cp::data_structure::fenwick_tree::FenwickTree;\nfn main() { for n in 0..40usize { let t = FenwickTree::<i64>::from(&vec![1; n]); for x in 0..=n as i64 + 1 { assert_eq!(t.partition_point(|s| *s <= x), (x as usize).min(n)); } } }\n")
