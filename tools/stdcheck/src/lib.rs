//! The contracts assumed on small std integer functions (units/lib/stdspec.vx, units/lib/modint_lemmas.vx), checked by
//! Kani on the installed std, for every argument: `cargo kani` in this directory
//! (`-Z unstable-options --harness rem_euclid_i64 --cbmc-args --smt2 --z3` for the last one).
#![cfg(kani)]

#[kani::proof]
fn leading_zeros() {
    // the defining equation vstd gives u64_leading_zeros: 64 at 0, one more than at i / 2 less ... i.e. the highest set bit
    let i: usize = kani::any();
    let r = i.leading_zeros();
    if i == 0 {
        assert!(r == 64);
    } else {
        assert!(r < 64);
        assert!(i >> (63 - r) == 1);
    }
}
#[kani::proof]
fn wrapping_neg() {
    let i: usize = kani::any();
    assert!(i.wrapping_neg() == if i == 0 { 0 } else { usize::MAX - i + 1 });
}
#[kani::proof]
fn abs() {
    let x: i64 = kani::any();
    kani::assume(x != i64::MIN);
    assert!(x.abs() as i128 == if x >= 0 { x as i128 } else { -(x as i128) });
}
#[kani::proof]
fn from_u32() {
    let x: u32 = kani::any();
    assert!(i64::from(x) == x as i64 && i64::from(x) >= 0 && i64::from(x) as u32 == x);
    assert!(i128::from(x) == x as i128 && i128::from(x) >= 0 && i128::from(x) as u32 == x);
}
/// the Euclidean remainder, given the truncated one: what Rust's `%` gives is in vstd
#[kani::proof]
fn rem_euclid_i64() {
    let (a, b): (i64, i64) = (kani::any(), kani::any());
    kani::assume(b > 0);
    let t = a % b;
    assert!(a.rem_euclid(b) == if t < 0 { t + b } else { t });
}
