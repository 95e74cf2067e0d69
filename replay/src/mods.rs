//! static moduli for the modint checks
use rust_cp::misc::modint::*;
use std::cell::RefCell;
use std::thread::LocalKey;
macro_rules! moduli { ($($n:ident $v:expr, $p:expr;)*) => { $(
    #[derive(Copy, Clone, Eq, PartialEq)] pub enum $n {}
    impl Modulus for $n {
        const VALUE: u32 = $v; const HINT_VALUE_IS_PRIME: bool = $p;
        fn butterfly_cache() -> &'static LocalKey<RefCell<Option<ButterflyCache<Self>>>> { thread_local! { static B: RefCell<Option<ButterflyCache<$n>>> = RefCell::default(); } &B }
    } )* } }
moduli! { M1 1, false; M2 2, true; M2n 2, false; M3 3, true; M4 4, false; M5 5, true; M6 6, false; M7 7, true; M10 10, false; M61 61, true; M101 101, true; M101n 101, false; M256 256, false; M65536 65536, false; M65537 65537, true;
  MB30 1 << 30, false; MB31 1 << 31, false; MB31m 2147483647, true; MB31n 2147483647, false; MC 2147483646, false; ME7 1000000007, true; ME7n 1000000007, false; MN 998244353, true; ME 1000000000, false; M641 2147483629, true; M997 997, true; M11 11, true; M13 13, true; }
#[macro_export]
macro_rules! with_mod { ($c:expr, $f:ident) => { match $c.below(28) { 0 => $f::<M1>($c), 1 => $f::<M2>($c), 2 => $f::<M2n>($c), 3 => $f::<M3>($c), 4 => $f::<M4>($c), 5 => $f::<M5>($c), 6 => $f::<M6>($c), 7 => $f::<M7>($c), 8 => $f::<M10>($c), 9 => $f::<M61>($c), 10 => $f::<M101>($c), 11 => $f::<M101n>($c), 12 => $f::<M256>($c), 13 => $f::<M65536>($c), 14 => $f::<M65537>($c), 15 => $f::<MB30>($c), 16 => $f::<MB31>($c), 17 => $f::<MB31m>($c), 18 => $f::<MB31n>($c), 19 => $f::<MC>($c), 20 => $f::<ME7>($c), 21 => $f::<ME7n>($c), 22 => $f::<MN>($c), 23 => $f::<ME>($c), 24 => $f::<M641>($c), 25 => $f::<M11>($c), 26 => $f::<M13>($c), _ => $f::<M997>($c) } } }
pub fn rem(x: i128, m: u32) -> u32 { x.rem_euclid(m as i128) as u32 }
pub fn powm(mut x: u128, mut e: u64, m: u32) -> u32 { let m = m as u128; let mut r = 1 % m; x %= m; while e > 0 { if e & 1 == 1 { r = r * x % m; } x = x * x % m; e >>= 1; } r as u32 }
pub fn g(mut a: u64, mut b: u64) -> u64 { while b != 0 { let t = a % b; a = b; b = t; } a }
/// shared arithmetic check through any modint type
#[macro_export]
macro_rules! modint_case { ($c:expr, $T:ty, $m:expr) => { {
    use std::str::FromStr;
    let c = $c; let m: u32 = $m;
    let near = |c: &mut C| -> u32 { match c.below(5) { 0 => (c.below(3) as u32) % m, 1 => m - 1 - (c.below(3) as u32 % m), 2 => (m / 2 + c.below(2) as u32) % m, _ => c.u64() as u32 % m } };
    let (x, y) = (near(c), near(c));
    let e = c.edge_u64();
    note!(c, "modulus {} x={} y={} e={}", m, x, y, e);
    assert_eq!(<$T>::modulus(), m, "modulus()");
    let (a, b) = (<$T>::raw(x), <$T>::raw(y));
    let (xi, yi) = (x as i128, y as i128);
    assert_eq!((a + b).val(), rem(xi + yi, m), "+"); assert_eq!((a - b).val(), rem(xi - yi, m), "-"); assert_eq!((a * b).val(), rem(xi * yi, m), "*");
    assert_eq!((-a).val(), rem(-xi, m), "neg"); assert_eq!((-&a).val(), rem(-xi, m), "neg ref");
    assert_eq!((a + &b).val(), rem(xi + yi, m), "+ ref"); assert_eq!((&a - b).val(), rem(xi - yi, m), "ref -"); assert_eq!((&a * &b).val(), rem(xi * yi, m), "ref * ref");
    assert_eq!((&a + b).val(), rem(xi + yi, m), "ref +"); assert_eq!((a - &b).val(), rem(xi - yi, m), "- ref"); assert_eq!((&a + &b).val(), rem(xi + yi, m), "ref + ref"); assert_eq!((&a - &b).val(), rem(xi - yi, m), "ref - ref"); assert_eq!((a * &b).val(), rem(xi * yi, m), "* ref"); assert_eq!((&a * b).val(), rem(xi * yi, m), "ref *");
    let mut z = a; z += b; assert_eq!(z, a + b, "+="); z = a; z -= b; assert_eq!(z, a - b, "-="); z = a; z *= b; assert_eq!(z, a * b, "*=");
    z = a; z += &b; assert_eq!(z, a + b, "+= ref"); z = a; z -= &b; assert_eq!(z, a - b, "-= ref"); z = a; z *= &b; assert_eq!(z, a * b, "*= ref");
    assert_eq!(a.pow(e).val(), powm(x as u128, e, m), "pow({})", e);
    assert_eq!(ModIntBase::pow(a, e).val(), powm(x as u128, e, m), "ModIntBase::pow({})", e);
    assert_eq!(<$T>::default().val(), 0, "default");
    if c.one_in(12) {
        let k = c.below(400);
        let u: Vec<u32> = (0..k).map(|_| near(c)).collect();
        let v: Vec<$T> = u.iter().map(|x| <$T>::raw(*x)).collect();
        note!(c, "sum and product of {:?}", u);
        assert_eq!(v.iter().sum::<$T>().val(), u.iter().fold(0, |s, t| rem(s as i128 + *t as i128, m)), "sum of {}", k);
        assert_eq!(v.iter().copied().sum::<$T>().val(), u.iter().fold(0, |s, t| rem(s as i128 + *t as i128, m)), "sum of {}", k);
        assert_eq!(v.iter().product::<$T>().val(), u.iter().fold(1 % m, |s, t| rem(s as i128 * *t as i128, m)), "product of {}", k);
        assert_eq!(v.iter().copied().product::<$T>().val(), u.iter().fold(1 % m, |s, t| rem(s as i128 * *t as i128, m)), "product of {}", k);
    }
    let v = [a, b, a + b, a];
    let k = c.below(5);
    assert_eq!(v[..k].iter().sum::<$T>().val(), [x, y, (a + b).val(), x][..k].iter().fold(0, |s, t| rem(s as i128 + *t as i128, m)), "sum of {}", k);
    assert_eq!(v[..k].iter().copied().product::<$T>().val(), [x, y, (a + b).val(), x][..k].iter().fold(1 % m, |s, t| rem(s as i128 * *t as i128, m)), "product of {}", k);
    assert_eq!(v[..k].iter().copied().sum::<$T>(), v[..k].iter().sum::<$T>(), "sum forms"); assert_eq!(v[..k].iter().copied().product::<$T>(), v[..k].iter().product::<$T>(), "product forms");
    macro_rules! conv { ($t:ty) => { { let q = c.edge_u64(); let q = if std::mem::size_of::<$t>() == 16 { ((q as u128) << (c.below(2) * 64) | c.edge_u64() as u128) as $t } else { q as $t };
        let ex = { let mm = m as u128; #[allow(unused_comparisons)] if q < 0 { let w = ((q as i128).unsigned_abs() % mm) as u32; (m - w) % m } else { (q as u128 % mm) as u32 } };
        assert_eq!(<$T>::new(q).val(), ex, "new({} as {})", q, stringify!($t)); assert_eq!(<$T>::from(q).val(), ex, "from({} as {})", q, stringify!($t)); assert_eq!(<$T as ModIntBase>::new(q).val(), ex, "ModIntBase::new({})", q);
        assert_eq!((a + q).val(), rem(xi + ex as i128, m), "+ {} as {}", q, stringify!($t)); assert_eq!((a - q).val(), rem(xi - ex as i128, m), "- int"); assert_eq!((a * q).val(), rem(xi * ex as i128, m), "* int");
        let mut z = a; z += q; assert_eq!(z, a + q, "+= int"); z = a; z -= q; assert_eq!(z, a - q, "-= int"); z = a; z *= q; assert_eq!(z, a * q, "*= int"); } } }
    match c.below(12) { 0 => conv!(i8), 1 => conv!(u8), 2 => conv!(i16), 3 => conv!(u16), 4 => conv!(i32), 5 => conv!(u32), 6 => conv!(i64), 7 => conv!(u64), 8 => conv!(isize), 9 => conv!(usize), 10 => conv!(i128), _ => conv!(u128) }
    let q = c.edge_u64() as i64;
    assert_eq!(<$T>::from_str(&q.to_string()).unwrap().val(), rem(q as i128, m), "parse {}", q);
    assert_eq!(format!("{}", a), x.to_string(), "display");
} } }
/// inverse and division
#[macro_export]
macro_rules! inv_case { ($c:expr, $T:ty, $m:expr) => { {
    let c = $c; let m: u32 = $m;
    let x = match c.below(4) { 0 => c.below(40) as u32 % m, 1 => m - 1 - (c.below(40) as u32 % m), _ => c.u64() as u32 % m };
    let y = c.u64() as u32 % m;
    note!(c, "modulus {} x={} y={}", m, x, y);
    let a = <$T>::raw(x);
    if g(x as u64, m as u64) == 1 {
        let i = a.inv();
        assert!(i.val() < m, "inv out of range");
        assert_eq!((x as u64 * i.val() as u64) % m as u64, 1 % m as u64, "inv({}) = {}", x, i.val());
        let e = (y as u64 * i.val() as u64 % m as u64) as u32;
        let b = <$T>::raw(y);
        assert_eq!((b / a).val(), e, "/"); assert_eq!((b / &a).val(), e, "/ ref"); assert_eq!((&b / a).val(), e, "ref /"); assert_eq!((&b / &a).val(), e, "ref / ref");
        let mut z = b; z /= a; assert_eq!(z.val(), e, "/="); z = b; z /= &a; assert_eq!(z.val(), e, "/= ref");
        assert_eq!((b / x).val(), e, "/ int"); z = b; z /= x; assert_eq!(z.val(), e, "/= int");
        assert_eq!(ModIntBase::inv(a).val(), i.val(), "ModIntBase::inv");
    } else {
        assert!(panics(|| a.inv()).is_none(), "inv({}) returned although no inverse exists", x);
        assert!(panics(|| <$T>::raw(y) / a).is_none(), "division by {} returned although no inverse exists", x);
    }
} } }
pub fn dyn_modulus(c: &mut crate::C) -> u32 {
    match c.below(8) { 0 => 1 + c.below(12) as u32, 1 => (1u32 << 31) - c.below(12) as u32, 2 => 1u32 << c.below(32), 3 => { let k = 1 + c.below(30); (1u32 << k) + 1 }, 4 => 1 + c.below(1000) as u32, _ => 1 + (c.u64() as u32 >> (1 + c.below(31))) }
}
