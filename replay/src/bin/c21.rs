use replay::*; use replay::mods::*; use rust_cp::misc::modint::*; use rust_cp::math::factorial::Factorial;
fn go<M: Modulus>(c: &mut C) {
    let p = M::VALUE;
    let n = c.size(300).min(p as usize - 1);
    note!(c, "modulus {} Factorial::new({})", p, n);
    let f = Factorial::<M>::new(n);
    let mut row = vec![1u64 % p as u64];
    for a in 0..=n {
        if n < 12 || c.one_in(20) || a == n {
            let mut perm = 1u64 % p as u64;
            for b in 0..=a {
                assert_eq!(f.choose(a, b).val() as u64, row[b], "choose({}, {})", a, b);
                assert_eq!(f.perm(a, b).val() as u64, perm, "perm({}, {})", a, b);
                perm = perm * ((a - b) as u64) % p as u64;
            }
        }
        let mut nx = vec![1u64 % p as u64; a + 2];
        for b in 1..=a { nx[b] = (row[b - 1] + row[b]) % p as u64; }
        row = nx;
    }
}
fn case(c: &mut C) { if c.is_big() { return big(c); } match c.below(10) { 0 => go::<M2>(c), 1 => go::<M3>(c), 2 => go::<M5>(c), 3 => go::<M7>(c), 4 => go::<M101>(c), 5 => go::<M101n>(c), 6 => go::<Mod998244353>(c), 7 => go::<M997>(c), 8 => go::<ME7>(c), _ => go::<MB31m>(c) } }
fn big(c: &mut C) {
    let n = c.big_size();
    let p = Mod998244353::VALUE as u64;
    note!(c, "modulus {} Factorial::new({})", p, n);
    let f = Factorial::<Mod998244353>::new(n);
    let mut fa = vec![1u64];
    for i in 1..=n as u64 { fa.push(fa[i as usize - 1] * i % p); }
    let pw = |mut b: u64, mut e: u64| { let mut r = 1; while e > 0 { if e & 1 == 1 { r = r * b % p; } b = b * b % p; e >>= 1; } r };
    for k in 0..200 {
        let a = if k < 3 { n - k } else { c.below(n + 1) };
        let b = c.below(a + 1);
        assert_eq!(f.choose(a, b).val() as u64, fa[a] * pw(fa[b] * fa[a - b] % p, p - 2) % p, "choose({}, {})", a, b);
        assert_eq!(f.perm(a, b).val() as u64, fa[a] * pw(fa[a - b], p - 2) % p, "perm({}, {})", a, b);
    }
}
fn main() { replay::main(case) }
