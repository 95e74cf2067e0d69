// The two moduli the library supplies are primes below 2^31 (by trial division, computed in the verifier).
pub open spec fn nodiv(n: int, lo: int, hi: int) -> bool
    decreases hi - lo,
{
    if hi <= lo { true } else if hi == lo + 1 { n % lo != 0 } else {
        let m = (lo + hi) / 2;
        nodiv(n, lo, m) && nodiv(n, m, hi)
    }
}
pub proof fn lemma_nodiv(n: int, lo: int, hi: int, d: int)
    requires nodiv(n, lo, hi), lo <= d < hi,
    ensures n % d != 0,
    decreases hi - lo,
{
    if hi != lo + 1 {
        let m = (lo + hi) / 2;
        if d < m { lemma_nodiv(n, lo, m, d) } else { lemma_nodiv(n, m, hi, d) }
    }
}
pub proof fn lemma_prime_by(n: int, s: int)
    requires nodiv(n, 2, s), s >= 2, s * s > n, n >= 2,
    ensures is_prime_spec(n),
{
    assert forall|d: int| 2 <= d < n implies #[trigger] (n % d) != 0 by {
        if n % d == 0 {
            lemma_fundamental_div_mod(n, d);
            let e = n / d;
            assert(e >= 2) by (nonlinear_arith) requires n == d * e, 2 <= d < n;
            if d < s { lemma_nodiv(n, 2, s, d); } else {
                assert(e < s) by (nonlinear_arith) requires n == d * e, d >= s, s * s > n, s >= 2, e >= 2;
                lemma_nodiv(n, 2, s, e);
                assert(n % e == 0) by { lemma_mod_multiples_basic(d, e); }
            }
        }
    }
}
#[derive(Copy, Clone)]
pub struct Mod1000000007 {}
impl Modulus for Mod1000000007 {
//@const misc/modint.rs | Mod1000000007@Modulus::VALUE
//@const misc/modint.rs | Mod1000000007@Modulus::HINT_VALUE_IS_PRIME
    proof fn law_m() {
        assert(nodiv(1_000_000_007, 2, 31624)) by (compute_only);
        lemma_prime_by(1_000_000_007, 31624);
    }
}
#[derive(Copy, Clone)]
pub struct Mod998244353 {}
impl Modulus for Mod998244353 {
//@const misc/modint.rs | Mod998244353@Modulus::VALUE
//@const misc/modint.rs | Mod998244353@Modulus::HINT_VALUE_IS_PRIME
    proof fn law_m() {
        assert(nodiv(998_244_353, 2, 31596)) by (compute_only);
        lemma_prime_by(998_244_353, 31596);
    }
}
