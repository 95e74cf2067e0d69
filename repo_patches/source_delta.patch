From 75e8cedc0cda1ce1a324f8b7f12a5d0f12d1fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 1/5] fix: UnionFind::join must link the roots of the two sets,
 not the elements themselves

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From 5b2e803c734d5c63c751ca59844e76e87b299359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 2/5] fix: ex_crt returned a negative modulus and solution when
 ex_gcd yields a negative gcd

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..df50d68 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -40,7 +40,7 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
         b_ /= g;
         m_ /= g;
         x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
-        lcm *= m_;
+        lcm *= m_.abs();
     }
     x = (x + lcm) % lcm;
     Some((x, lcm))
-- 
2.43.0


From 6e86a51306afebf984e0534173d882fa0e052889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 3/5] fix: FenwickTree::partition_point underflowed on an empty
 tree

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..7cd0bb7 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..usize::BITS - self.n.leading_zeros()).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From f1b26cd0a2cf161f49f807544327da4b454be9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 4/5] fix: modint power and product of nothing must be 0, not
 1, when the modulus is 1

---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..74a19e3 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1u32);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 235e34081db920839a243b6d68cc6cf93ccc425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 5/5] fix: ex_crt overflowed in the final reduction when the
 combined modulus exceeds half of i64::MAX

---
 src/math/number_theory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index df50d68..5d12265 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -42,6 +42,8 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
         x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
         lcm *= m_.abs();
     }
-    x = (x + lcm) % lcm;
+    if x < 0 {
+        x += lcm;
+    }
     Some((x, lcm))
 }
-- 
2.43.0

