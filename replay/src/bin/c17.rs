use replay::*;
use rust_cp::math::number_theory::ex_crt;
fn g(mut a: i128, mut b: i128) -> i128 { a = a.abs(); b = b.abs(); while b != 0 { let t = a % b; a = b; b = t; } a }
fn case(c: &mut C) {
    let big = c.one_in(3);
    let k = if c.one_in(20) { 0 } else { 1 + c.below(4) };
    let (mut a, mut b, mut m) = (vec![], vec![], vec![]);
    let mut prod: i128 = 1;
    let hidden = c.u64() as i128 >> 1;
    let solvable = c.coin();
    for _ in 0..k {
        let mm = if big { 1 + c.below(1 << 20) as i64 } else { 1 + c.below(12) as i64 };
        let aa = match c.below(5) { 0 => 1, 1 => -1, 2 => 0, _ => c.int(-15, 15) };
        if prod * mm as i128 > (1i128 << 55) { break; }
        prod *= mm as i128;
        let bb = if solvable || big { (((aa as i128 * hidden) % mm as i128) as i64) + mm * c.int(-2, 2) } else { c.int(-30, 30) };
        a.push(aa); b.push(bb); m.push(mm);
    }
    if c.one_in(8) {
        // one congruence with a modulus near the end of the type
        let mm = i64::MAX - c.below(5) as i64;
        let aa = if c.coin() { 1 } else { -1 };
        a = vec![aa]; m = vec![mm];
        b = vec![((aa as i128 * hidden) % mm as i128) as i64];
        note!(c, "a={:?} b={:?} m={:?}", a, b, m);
        let (s, l) = ex_crt(&a, &b, &m).expect("None although a solution exists");
        assert_eq!(l, mm, "returned modulus");
        assert!(0 <= s && s < l && (aa as i128 * s as i128 - b[0] as i128) % mm as i128 == 0, "({}, {}) is not the solution", s, l);
        return;
    }
    if c.one_in(8) {
        // two congruences whose moduli multiply to nearly the whole range
        let m1 = match c.below(4) { 0 => 1 << (1 + c.below(60)), 1 => 2 + c.below(1 << 31) as i64, 2 => 1 + c.below(1000) as i64, _ => (c.u64() >> (2 + c.below(60))) as i64 + 1 };
        let m2 = match c.below(3) { 0 => i64::MAX / m1, 1 => 1 + c.below((i64::MAX / m1) as usize) as i64, _ => (i64::MAX / m1 - c.below(50) as i64).max(1) };
        let (m1, m2) = if c.coin() { (m1, m2) } else { (m2, m1) };
        let (a1, a2) = (if c.coin() { 1i64 } else { -1 }, if c.coin() { 1i64 } else { -1 });
        let (h1, h2) = (hidden, if c.one_in(4) { c.u64() as i128 >> 1 } else { hidden });
        let (a, b, m) = (vec![a1, a2], vec![((a1 as i128 * h1) % m1 as i128) as i64, ((a2 as i128 * h2) % m2 as i128) as i64], vec![m1, m2]);
        // b - a * x must be representable
        if (b[1] as i128).abs() + m1 as i128 > i64::MAX as i128 { return; }
        note!(c, "a={:?} b={:?} m={:?}", a, b, m);
        let g0 = g(m1 as i128, m2 as i128);
        let some = (a1 as i128 * b[0] as i128 - a2 as i128 * b[1] as i128) % g0 == 0;
        match ex_crt(&a, &b, &m) {
            None => assert!(!some, "None although a solution exists"),
            Some((s, l)) => {
                assert!(some, "({}, {}) although there is no solution", s, l);
                assert_eq!(l as i128, m1 as i128 / g0 * m2 as i128, "returned modulus");
                assert!(0 <= s && s < l && (0..2).all(|i| (a[i] as i128 * s as i128 - b[i] as i128) % m[i] as i128 == 0), "({}, {}) is not the solution", s, l);
            }
        }
        return;
    }
    note!(c, "a={:?} b={:?} m={:?}", a, b, m);
    let r = ex_crt(&a, &b, &m);
    let mut l: i128 = 1;
    for i in 0..a.len() { let q = m[i] as i128 / g(a[i] as i128, m[i] as i128); l = l / g(l, q) * q; }
    let ok = |x: i128| (0..a.len()).all(|i| (a[i] as i128 * x - b[i] as i128) % m[i] as i128 == 0);
    match r {
        Some((s, ll)) => {
            assert_eq!(ll as i128, l, "returned modulus");
            assert!(0 <= s && s < ll, "solution {} not in 0..{}", s, ll);
            assert!(ok(s as i128), "{} is not a solution", s);
        }
        None => {
            assert!(!(solvable || big), "None although {} is a solution", hidden);
            assert!(!(0..l).any(|x| ok(x)), "None although a solution exists");
        }
    }
}
fn main() { replay::main(case) }
