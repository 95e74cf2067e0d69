use replay::*;
use rust_cp::data_structure::sparse_table::SparseTable;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(700).max(1);
    let v: Vec<i64> = (0..n).map(|_| c.int(-100, 100)).collect();
    let init = c.int(-1000, 1000);
    note!(c, "v={:?} init={}", v, init);
    let t = SparseTable::from(&v, init, |a: i64, b: i64| a.min(b));
    each(c, n, |l, r| assert_eq!(t.get(l, r), *v[l..r].iter().min().unwrap(), "min get({}, {})", l, r));
    let t = SparseTable::from(&v, init, |a: i64, b: i64| a.max(b));
    each(c, n, |l, r| assert_eq!(t.get(l, r), *v[l..r].iter().max().unwrap(), "max get({}, {})", l, r));
    // left-zero band: op(a, b) = a is associative and idempotent but not commutative; likewise right-zero
    let t = SparseTable::from(&v, init, |a: i64, _b: i64| a);
    each(c, n, |l, r| assert_eq!(t.get(l, r), v[l], "first get({}, {})", l, r));
    let t = SparseTable::from(&v, init, |_a: i64, b: i64| b);
    each(c, n, |l, r| assert_eq!(t.get(l, r), v[r - 1], "last get({}, {})", l, r));
    let w: Vec<u64> = (0..n).map(|i| 1u64 << (i % 64)).collect();
    let t = SparseTable::from(&w, u64::MAX, |a: u64, b: u64| a | b);
    each(c, n, |l, r| assert_eq!(t.get(l, r), w[l..r].iter().fold(0, |a, b| a | b), "or get({}, {})", l, r));
}
fn each(c: &mut C, n: usize, f: impl Fn(usize, usize)) {
    if n <= 20 { for l in 0..n { for r in l + 1..=n { f(l, r); } } }
    else { for _ in 0..30 { let l = c.below(n); let r = if c.one_in(4) { n } else { l + 1 + c.below(n - l) }; f(l, r); } }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let v: Vec<i64> = (0..n).map(|_| (c.u64() >> 20) as i64).collect();
    let t = SparseTable::from(&v, i64::MAX, |a: i64, b: i64| a.min(b));
    for _ in 0..30 { let l = c.below(n); let r = if c.one_in(4) { n } else { l + 1 + c.below(n - l) }; assert_eq!(t.get(l, r), *v[l..r].iter().min().unwrap(), "min get({}, {})", l, r); }
    let t = SparseTable::from(&v, 0, |_a: i64, b: i64| b);
    for _ in 0..300 { let l = c.below(n); let r = if c.one_in(4) { n } else { l + 1 + c.below(n - l) }; assert_eq!(t.get(l, r), v[r - 1], "last get({}, {})", l, r); }
    let t = SparseTable::from(&v, 0, |a: i64, _b: i64| a);
    for _ in 0..300 { let l = c.below(n); let r = if c.one_in(4) { n } else { l + 1 + c.below(n - l) }; assert_eq!(t.get(l, r), v[l], "first get({}, {})", l, r); }
}
fn main() { replay::main(case) }
