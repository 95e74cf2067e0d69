use replay::*; use replay::seg::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::MapMonoid;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(600);
    let mut a: Vec<(u64, u64, u64)> = (0..n).map(|_| h1(c.u64())).collect();
    let mut t: LazySegtree<HashAff> = if c.one_in(6) { a = vec![(0, 1, 0); n]; note!(c, "new({})", n); if n == 0 && c.coin() { LazySegtree::default() } else { LazySegtree::new(n) } } else { note!(c, "from {:?}", a); a.clone().into() };
    let ops = if n < 12 { c.below(40) } else { c.below(25) };
    for _ in 0..ops {
        let l = c.below(n + 1); let r = match c.below(5) { 0 => n, 1 => l, _ => l + c.below(n - l + 1) };
        let p = c.below(n);
        let f = if c.one_in(6) { (1, 0) } else { (c.u64(), c.u64()) };
        match c.below(10) {
            0..=3 => { note!(c, "apply_range({}, {}, {:?})", l, r, f); t.apply_range(l, r, f); for x in a[l..r].iter_mut() { *x = HashAff::mapping(&f, x); } }
            4 if n > 0 => { note!(c, "apply({}, {:?})", p, f); t.apply(p, f); a[p] = HashAff::mapping(&f, &a[p]); }
            5 if n > 0 => { let x = h1(c.u64()); note!(c, "set({}, {:?})", p, x); t.set(p, x); a[p] = x; }
            6 if n > 0 => { note!(c, "get({})", p); assert_eq!(t.get(p), a[p], "get({})", p); }
            7 => { note!(c, "all_prod"); assert_eq!(t.all_prod(), fold::<Hash>(&a), "all_prod"); }
            _ => { note!(c, "prod({}, {})", l, r); assert_eq!(t.prod(l, r), fold::<Hash>(&a[l..r]), "prod({}, {})", l, r); }
        }
    }
    assert_eq!(t.all_prod(), fold::<Hash>(&a), "final all_prod");
    if c.coin() { for p in 0..n { assert_eq!(t.get(p), a[p], "final get({})", p); } }
    if n <= 9 { for l in 0..=n { for r in l..=n { assert_eq!(t.prod(l, r), fold::<Hash>(&a[l..r]), "final prod({}, {})", l, r); } } }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let mut a: Vec<(u64, u64, u64)> = (0..n).map(|_| h1(c.u64())).collect();
    let mut t: LazySegtree<HashAff> = a.clone().into();
    for _ in 0..12 {
        let l = c.below(n + 1); let r = match c.below(5) { 0 => n, 1 => l, _ => l + c.below(n - l + 1) };
        let p = c.below(n);
        let f = (c.u64(), c.u64());
        match c.below(6) {
            0..=1 => { note!(c, "apply_range({}, {}, {:?})", l, r, f); t.apply_range(l, r, f); for x in a[l..r].iter_mut() { *x = HashAff::mapping(&f, x); } }
            2 => { note!(c, "apply({}, {:?})", p, f); t.apply(p, f); a[p] = HashAff::mapping(&f, &a[p]); }
            3 => { let x = h1(c.u64()); note!(c, "set({}, {:?})", p, x); t.set(p, x); a[p] = x; }
            _ => { note!(c, "prod({}, {})", l, r); assert_eq!(t.prod(l, r), fold::<Hash>(&a[l..r]), "prod({}, {})", l, r); }
        }
    }
    assert_eq!(t.all_prod(), fold::<Hash>(&a), "final all_prod");
    for _ in 0..500 { let p = c.below(n); assert_eq!(t.get(p), a[p], "final get({})", p); }
}
fn main() { replay::main(case) }
