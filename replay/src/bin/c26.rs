use replay::*; use rust_cp::misc::util::*;
fn case(c: &mut C) {
    let i = (c.edge_u64() as usize).max(1);
    note!(c, "lg({})", i);
    let r = lg(i);
    assert!(r < 64 && (1u128 << r) <= i as u128 && (i as u128) < (1u128 << (r + 1)), "lg({}) = {}", i, r);
    let n = if c.case < 3000 { c.case as u32 } else { c.edge_u64() as u32 };
    note!(c, "ceil_lg({})", n);
    let r = ceil_lg(n);
    let e = (0..=32).find(|&k| n as u64 <= 1u64 << k).unwrap();
    assert_eq!(r, e, "ceil_lg({})", n);
}
fn main() { replay::main(case) }
