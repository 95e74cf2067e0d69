use replay::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(1200);
    let a: Vec<i64> = (0..n).map(|_| c.int(-50, 50)).collect();
    let mut a = a;
    note!(c, "n={} a={:?}", n, a);
    let mut t = if c.coin() { FenwickTree::<i64>::from(&a) } else { a = vec![0; n]; note!(c, "new(n)"); FenwickTree::<i64>::new(n) };
    if c.one_in(3) {
        note!(c, "from(a) versus n adds");
        let mut u = FenwickTree::<i64>::new(n);
        for i in 0..n { u.add(i, a[i]); }
        for i in 0..=n { assert_eq!(u.pref(i), t.pref(i), "pref({})", i); }
    }
    check(c, &t, &a);
    let ops = if n == 0 { 0 } else { c.below(12) };
    for _ in 0..ops {
        let (i, v) = (c.below(n), c.int(-1000, 1000));
        note!(c, "add({}, {})", i, v);
        t.add(i, v);
        a[i] += v;
        check(c, &t, &a);
    }
    // sums up to the end of a narrow type
    let mut left = 255;
    let b: Vec<u8> = (0..n.min(40)).map(|_| { let x = if c.one_in(3) { left } else { c.below(left + 1) }; left -= x; x as u8 }).collect();
    let mut t = if c.coin() { FenwickTree::<u8>::from(&b) } else { let mut t = FenwickTree::<u8>::new(b.len()); for i in 0..b.len() { t.add(i, b[i]); } t };
    let mut b = b;
    if !b.is_empty() { let i = c.below(b.len()); let x = c.below(left + 1) as u8; t.add(i, x); b[i] += x; }
    note!(c, "u8: {:?}", b);
    for i in 0..=b.len() { assert_eq!(t.pref(i), b[..i].iter().sum::<u8>(), "u8 pref({})", i); assert_eq!(t.sum(i, b.len()), b[i..].iter().sum::<u8>(), "u8 sum({}, n)", i); }
    // a second element type
    let b: Vec<u32> = (0..n).map(|_| c.below(100) as u32).collect();
    let t = FenwickTree::<u32>::from(&b);
    let l = c.below(n + 1); let r = l + c.below(n - l + 1);
    assert_eq!(t.sum(l, r), b[l..r].iter().sum::<u32>(), "u32 sum({}, {}) of {:?}", l, r, b);
}
fn check(c: &mut C, t: &FenwickTree<i64>, a: &Vec<i64>) {
    let n = a.len();
    let all = n < 20;
    let mut s = 0;
    for i in 0..=n {
        if all || c.one_in(4) { assert_eq!(t.pref(i), s, "pref({})", i); }
        if i < n { s += a[i]; }
    }
    for _ in 0..10 {
        let l = c.below(n + 1); let r = l + c.below(n - l + 1);
        assert_eq!(t.sum(l, r), a[l..r].iter().sum::<i64>(), "sum({}, {})", l, r);
    }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let mut a: Vec<i64> = (0..n).map(|_| c.int(-50, 50)).collect();
    let mut t = FenwickTree::<i64>::from(&a);
    for k in 0..4 {
        let mut s = 0;
        for i in 0..=n { if k == 0 || i % 61 == 0 || n - i < 3 { assert_eq!(t.pref(i), s, "pref({})", i); } if i < n { s += a[i]; } }
        for _ in 0..3 { let l = c.below(n + 1); let r = l + c.below(n - l + 1); assert_eq!(t.sum(l, r), a[l..r].iter().sum::<i64>(), "sum({}, {})", l, r); }
        for _ in 0..20 { let (i, v) = (c.below(n), c.int(-1000, 1000)); note!(c, "add({}, {})", i, v); t.add(i, v); a[i] += v; }
    }
}
fn main() { replay::main(case) }
