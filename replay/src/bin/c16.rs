use replay::*;
use rust_cp::math::number_theory::*;
fn g(mut a: u128, mut b: u128) -> u128 { while b != 0 { let t = a % b; a = b; b = t; } a }
fn case(c: &mut C) {
    let big = c.coin();
    macro_rules! t { ($t:ty, $w:expr) => { {
        let m = <$t>::MAX as u128;
        let wide = c.coin();
        let mut v = |c: &mut C| -> u128 { let x = if big { if wide { (c.edge_u64() as u128) << 64 | c.edge_u64() as u128 } else { c.edge_u64() as u128 } } else { c.below(60) as u128 }; if m == u128::MAX { x } else { x % (m + 1) } };
        let (mut a, mut b) = (v(c), v(c));
        match c.below(8) {
            0 if a > 0 => b = m / a - (c.below(2) as u128).min(m / a),
            1 => b = a,
            2 => { let (mut x, mut y) = (1u128, 1u128); for _ in 0..c.below(90) { let z = x + y; if z > m { break; } x = y; y = z; } a = x; b = y; if c.coin() { std::mem::swap(&mut a, &mut b); } }
            _ => {}
        }
        if c.one_in(4) { let k = 1 + c.below(50) as u128; if a.checked_mul(k).map_or(false, |z| z <= m) && b.checked_mul(k).map_or(false, |z| z <= m) { a *= k; b *= k; } }
        note!(c, "{}: a={} b={}", stringify!($t), a, b);
        assert_eq!(gcd(a as $t, b as $t), g(a, b) as $t, "gcd");
        if (a != 0 || b != 0) && a.checked_mul(b).map_or(false, |p| p <= m) { assert_eq!(lcm(a as $t, b as $t), (a / g(a, b) * b) as $t, "lcm"); }
    } } }
    match c.below(12) { 0 => t!(u8, 8), 1 => t!(i32, 31), 2 => t!(u64, 64), 3 => t!(usize, 64), 4 => t!(i64, 63), 5 => t!(i8, 7), 6 => t!(i16, 15), 7 => t!(u16, 16), 8 => t!(isize, 63), 9 => t!(u128, 128), 10 => t!(i128, 127), _ => t!(u32, 32) }
    macro_rules! e { ($t:ty) => { {
        let (mut a, mut b) = if big { (c.edge_u64() as $t, c.edge_u64() as $t) } else { (c.int(-40, 40) as $t, c.int(-40, 40) as $t) };
        if a == <$t>::MIN { a += 1; } if b == <$t>::MIN { b += 1; }
        note!(c, "ex_gcd::<{}>({}, {})", stringify!($t), a, b);
        let (x, y, d) = ex_gcd(a, b);
        let w = if d == 0 { a == 0 && b == 0 } else { (a as i128) % (d as i128) == 0 && (b as i128) % (d as i128) == 0 };
        assert!(w, "ex_gcd: {} does not divide both", d);
        assert_eq!(a as i128 * x as i128 + b as i128 * y as i128, d as i128, "ex_gcd identity");
        assert_eq!((d as i128).unsigned_abs(), g((a as i128).unsigned_abs(), (b as i128).unsigned_abs()), "ex_gcd g");
        if a >= 0 && b >= 0 { assert!(d >= 0, "ex_gcd sign"); }
    } } }
    match c.below(5) { 0 => e!(i8), 1 => e!(i32), 2 => e!(i64), 3 => e!(isize), _ => e!(i16) }
}
fn main() { replay::main(case) }
