use replay::*; use replay::seg::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::MapMonoid;
fn case(c: &mut C) {
    let n = if c.one_in(4000) { c.big_size() } else { c.size(400) };
    let mut a: Vec<(u64, u64, u64)> = (0..n).map(|_| h1(c.u64())).collect();
    note!(c, "from {:?}", a);
    let mut t: LazySegtree<HashAff> = a.clone().into();
    for _ in 0..c.below(14) {
        if n > 3000 && c.one_in(3) { continue; }
        let l = c.below(n + 1); let r = if c.one_in(4) { n } else { l + c.below(n - l + 1) };
        match c.below(6) {
            0..=1 => { let f = (c.u64(), c.u64()); note!(c, "apply_range({}, {}, {:?})", l, r, f); t.apply_range(l, r, f); for x in a[l..r].iter_mut() { *x = HashAff::mapping(&f, x); } }
            2 if n > 0 => { let (p, x) = (c.below(n), h1(c.u64())); note!(c, "set({}, {:?})", p, x); t.set(p, x); a[p] = x; }
            k => {
                let m = if n > 3000 { c.pick(&[64u64, 1 << 12, 1 << 17, 1 << 40]) } else { c.pick(&[2u64, 3, 8, 64, 1 << 40]) };
                let salt = c.u64();
                let f = |x: (u64, u64, u64)| x == (0, 1, 0) || (x.0.wrapping_mul(31) ^ salt).wrapping_mul(0x9e3779b97f4a7c15) % m != 0;
                if k % 2 == 0 {
                    let r = t.max_right(l, f);
                    note!(c, "max_right({}) = {}", l, r);
                    assert!(l <= r && r <= n, "max_right({}) = {} out of range", l, r);
                    assert!(f(fold::<Hash>(&a[l..r])), "max_right({}) = {}: predicate false on [l, r)", l, r);
                    assert!(r == n || !f(fold::<Hash>(&a[l..r + 1])), "max_right({}) = {}: not a boundary", l, r);
                } else {
                    let l = t.min_left(r, f);
                    note!(c, "min_left({}) = {}", r, l);
                    assert!(l <= r, "min_left({}) = {} out of range", r, l);
                    assert!(f(fold::<Hash>(&a[l..r])), "min_left({}) = {}: predicate false on [l, r)", r, l);
                    assert!(l == 0 || !f(fold::<Hash>(&a[l - 1..r])), "min_left({}) = {}: not a boundary", r, l);
                }
                if c.one_in(4) { assert_eq!(t.all_prod(), fold::<Hash>(&a), "contents changed by a search"); for p in 0..n { assert_eq!(t.get(p), a[p], "contents changed by a search (get({}))", p); } }
            }
        }
    }
    if c.coin() { assert_eq!(t.prod(0, n), fold::<Hash>(&a), "contents after searches"); }
}
fn main() { replay::main(case) }
