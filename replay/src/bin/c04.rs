use replay::*; use replay::seg::*;
use rust_cp::data_structure::segtree::Segtree;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(1100);
    let mut a: Vec<(u64, u64)> = (0..n).map(|_| (c.u64() | 1, c.u64())).collect();
    let mut t: Segtree<Aff> = if c.one_in(5) { a = vec![(1, 0); n]; note!(c, "new({})", n); if n == 0 && c.coin() { Segtree::default() } else { Segtree::new(n) } } else { note!(c, "from {} elements {:?}", n, a); a.clone().into() };
    q(c, &t, &a);
    for _ in 0..c.below(12) {
        if n == 0 { break; }
        let p = if c.one_in(3) { n - 1 } else { c.below(n) };
        let x = (c.u64() | 1, c.u64());
        note!(c, "set({}, {:?})", p, x);
        t.set(p, x); a[p] = x;
        q(c, &t, &a);
    }
}
fn q(c: &mut C, t: &Segtree<Aff>, a: &Vec<(u64, u64)>) {
    let n = a.len();
    assert_eq!(t.all_prod(), fold::<Aff>(a), "all_prod");
    if n <= 12 {
        for l in 0..=n { for r in l..=n { assert_eq!(t.prod(l, r), fold::<Aff>(&a[l..r]), "prod({}, {})", l, r); } if l < n { assert_eq!(t.get(l), a[l], "get({})", l); } }
    } else {
        for _ in 0..12 {
            let l = c.below(n + 1); let r = if c.one_in(4) { n } else { l + c.below(n - l + 1) };
            assert_eq!(t.prod(l, r), fold::<Aff>(&a[l..r]), "prod({}, {})", l, r);
            let p = c.below(n); assert_eq!(t.get(p), a[p], "get({})", p);
        }
    }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let mut a: Vec<(u64, u64)> = (0..n).map(|_| (c.u64() | 1, c.u64())).collect();
    let mut t: Segtree<Aff> = a.clone().into();
    for _ in 0..3 {
        assert_eq!(t.all_prod(), fold::<Aff>(&a), "all_prod");
        for _ in 0..4 { let l = c.below(n + 1); let r = if c.one_in(4) { n } else { l + c.below(n - l + 1) }; assert_eq!(t.prod(l, r), fold::<Aff>(&a[l..r]), "prod({}, {})", l, r); }
        for _ in 0..10 { let p = c.below(n); let x = (c.u64() | 1, c.u64()); note!(c, "set({}, {:?})", p, x); t.set(p, x); a[p] = x; }
        for _ in 0..50 { let p = c.below(n); assert_eq!(t.get(p), a[p], "get({})", p); }
    }
}
fn main() { replay::main(case) }
