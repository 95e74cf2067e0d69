use replay::*; use rust_cp::misc::monoids::*; use rust_cp::traits::monoid::Monoid; use rust_cp::traits::numeric::*;
macro_rules! t { ($c:expr, $t:ty) => { {
    let c = $c;
    let v = |c: &mut C| -> $t { let q = c.edge_u64(); if std::mem::size_of::<$t>() == 16 { ((q as u128) << (c.below(2) * 64) | c.edge_u64() as u128) as $t } else { q as $t } };
    let (a, b, d) = (v(c), v(c), v(c));
    note!(c, "{}: {} {} {}", stringify!($t), a, b, d);
    assert_eq!((<$t as Zero>::zero(), <$t as One>::one(), <$t as BoundedBelow>::min_value(), <$t as BoundedAbove>::max_value()), (0, 1, <$t>::MIN, <$t>::MAX), "constants");
    assert_eq!((Max::<$t>::binary_operation(&a, &b), Min::<$t>::binary_operation(&a, &b)), (if a > b { a } else { b }, if a < b { a } else { b }), "max/min");
    macro_rules! unit { ($m:ident) => { let e = $m::<$t>::identity(); assert_eq!(($m::<$t>::binary_operation(&e, &a), $m::<$t>::binary_operation(&a, &e)), (a, a), "identity of {}", stringify!($m)); } }
    unit!(Max); unit!(Min); unit!(Additive); unit!(Multiplicative);
    assert_eq!(Max::<$t>::binary_operation(&Max::<$t>::binary_operation(&a, &b), &d), Max::<$t>::binary_operation(&a, &Max::<$t>::binary_operation(&b, &d)), "assoc");
    if let Some(s) = a.checked_add(b) { assert_eq!(Additive::<$t>::binary_operation(&a, &b), s, "sum"); }
    if let Some(s) = a.checked_mul(b) { assert_eq!(Multiplicative::<$t>::binary_operation(&a, &b), s, "product"); }
    let (x, y) = (a % 5, b % 7);
    if let Some(s) = x.checked_add(y) { assert_eq!(Additive::<$t>::binary_operation(&x, &y), s, "sum"); }
    if let Some(s) = x.checked_mul(y) { assert_eq!(Multiplicative::<$t>::binary_operation(&x, &y), s, "product"); }
} } }
fn case(c: &mut C) { match c.below(12) { 0 => t!(c, i8), 1 => t!(c, u8), 2 => t!(c, i16), 3 => t!(c, u16), 4 => t!(c, i32), 5 => t!(c, u32), 6 => t!(c, i64), 7 => t!(c, u64), 8 => t!(c, isize), 9 => t!(c, usize), 10 => t!(c, i128), _ => t!(c, u128) } }
fn main() { replay::main(case) }
