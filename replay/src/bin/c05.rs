use replay::*; use replay::seg::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::Additive;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(600);
    let mut a: Vec<(u64, u64)> = (0..n).map(|_| (c.u64() | 1, c.u64())).collect();
    let mut t: Segtree<Aff> = a.clone().into();
    note!(c, "n={} a={:?}", n, a);
    for _ in 0..c.below(4) { if n > 0 { let p = c.below(n); let x = (c.u64() | 1, 7); note!(c, "set({},{:?})", p, x); t.set(p, x); a[p] = x; } }
    for _ in 0..4 {
        let k = c.pick(&[2u64, 3, 8, 64, 1 << 40]);
        let salt = c.u64();
        let f = |x: &(u64, u64)| *x == (1, 0) || (x.0.wrapping_mul(31) ^ x.1 ^ salt).wrapping_mul(0x9e3779b97f4a7c15) % k != 0;
        let l = c.below(n + 1);
        let r = t.max_right(l, f);
        note!(c, "max_right({}) = {}", l, r);
        assert!(l <= r && r <= n, "max_right({}) = {} out of range", l, r);
        assert!(f(&fold::<Aff>(&a[l..r])), "max_right({}) = {}: predicate false on [l, r)", l, r);
        assert!(r == n || !f(&fold::<Aff>(&a[l..r + 1])), "max_right({}) = {}: not a boundary", l, r);
        let r = c.below(n + 1);
        let l = t.min_left(r, f);
        assert!(l <= r, "min_left({}) = {} out of range", r, l);
        assert!(f(&fold::<Aff>(&a[l..r])), "min_left({}) = {}: predicate false on [l, r)", r, l);
        assert!(l == 0 || !f(&fold::<Aff>(&a[l - 1..r])), "min_left({}) = {}: not a boundary", r, l);
    }
    // monotone: thresholds on sums
    let b: Vec<u64> = (0..n).map(|_| c.below(4) as u64).collect();
    let t: Segtree<Additive<u64>> = b.clone().into();
    for _ in 0..4 {
        let x = c.below(2 * n + 2) as u64;
        let l = c.below(n + 1);
        let e = (l..=n).filter(|&r| b[l..r].iter().sum::<u64>() <= x).max().unwrap();
        assert_eq!(t.max_right(l, |s| *s <= x), e, "max_right({}, sum <= {}) on {:?}", l, x, b);
        let e = (0..=l).filter(|&q| b[q..l].iter().sum::<u64>() <= x).min().unwrap();
        assert_eq!(t.min_left(l, |s| *s <= x), e, "min_left({}, sum <= {}) on {:?}", l, x, b);
    }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let b: Vec<u64> = (0..n).map(|_| c.below(4) as u64).collect();
    let mut ps = vec![0u64; n + 1];
    for i in 0..n { ps[i + 1] = ps[i] + b[i]; }
    let t: Segtree<Additive<u64>> = b.into();
    for _ in 0..300 {
        let x = if c.coin() { c.below(2 * n + 2) } else { c.below(20) } as u64;
        let l = c.below(n + 1);
        assert_eq!(t.max_right(l, |s| *s <= x), ps.partition_point(|y| *y <= ps[l] + x) - 1, "max_right({}, sum <= {})", l, x);
        assert_eq!(t.min_left(l, |s| *s <= x), ps.partition_point(|y| *y + x < ps[l]), "min_left({}, sum <= {})", l, x);
    }
}
fn main() { replay::main(case) }
