use replay::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(1100);
    let hi = c.pick(&[1i64, 2, 10, 1000]);
    let lo = if c.coin() { 0 } else { -3 };
    let mut a: Vec<i64> = (0..n).map(|_| c.int(0.max(lo), hi)).collect();
    note!(c, "n={} a={:?}", n, a);
    let mut t = FenwickTree::<i64>::from(&a);
    for _ in 0..c.below(3) { if n > 0 { let i = c.below(n); note!(c, "add({}, 5)", i); t.add(i, 5); a[i] += 5; } }
    let mut ps = vec![]; let mut s = 0;
    for i in 0..n { s += a[i]; ps.push(s); }
    let m = s;
    for k in 0..14 {
        let x = match k { 0 => 0, 1 => m, 2 => m + 1, 3 => -1, 4 => 1, _ => if n > 0 && c.coin() { ps[c.below(n)] + c.int(-1, 1) } else { c.int(-1, m + 1) } };
        assert_eq!(t.search(&x), ps.partition_point(|y| *y < x), "search({})", x);
        assert_eq!(t.partition_point(|y| *y <= x), ps.partition_point(|y| *y <= x), "partition_point(<= {})", x);
    }
    assert_eq!(t.partition_point(|_| true), n, "always true");
    assert_eq!(t.partition_point(|_| false), 0, "always false");
    // arbitrary data with a predicate monotone in the number of elements: the state is carried by the sum of ones
    let neg: Vec<i64> = (0..n).map(|_| -c.int(0, 3)).collect();
    let t = FenwickTree::<i64>::from(&neg);
    let mut s = 0; let p2: Vec<i64> = neg.iter().map(|x| { s += x; s }).collect();
    let x = -(c.below(2 * n + 2) as i64);
    assert_eq!(t.partition_point(|y| *y > x), p2.partition_point(|y| *y > x), "partition_point(> {}) on {:?}", x, neg);
    if n > 0 {
        let b: Vec<f64> = a.iter().map(|x| *x as f64).collect();
        let t = FenwickTree::<f64>::from(&b);
        let x = c.int(-1, m + 1) as f64 + 0.5;
        assert_eq!(t.search(&x), ps.partition_point(|y| (*y as f64) < x), "f64 search({})", x);
    }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let hi = c.pick(&[1i64, 3, 1 << 30]);
    let mut a: Vec<i64> = (0..n).map(|_| c.int(0, hi)).collect();
    let mut t = FenwickTree::<i64>::from(&a);
    for _ in 0..5 { let i = c.below(n); t.add(i, 5); a[i] += 5; }
    let mut s = 0;
    let ps: Vec<i64> = a.iter().map(|x| { s += x; s }).collect();
    for k in 0..300 {
        let x = match k { 0 => 0, 1 => s, 2 => s + 1, 3 => 1, _ => ps[c.below(n)] + c.int(-1, 1) };
        assert_eq!(t.search(&x), ps.partition_point(|y| *y < x), "search({})", x);
        assert_eq!(t.partition_point(|y| *y <= x), ps.partition_point(|y| *y <= x), "partition_point(<= {})", x);
    }
}
fn main() { replay::main(case) }
