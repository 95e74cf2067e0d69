// Modular arithmetic used by the modint contracts.
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64)
    requires b > 0,
    ensures r == (a as int) % (b as int);
pub assume_specification [i128::rem_euclid] (a: i128, b: i128) -> (r: i128)
    requires b > 0,
    ensures r == (a as int) % (b as int);
pub assume_specification [<i64 as core::convert::From<u32>>::from] (a: u32) -> (r: i64)
    ensures r == a as int;
pub assume_specification [<i128 as core::convert::From<u32>>::from] (a: u32) -> (r: i128)
    ensures r == a as int;

pub open spec fn is_prime_spec(p: int) -> bool {
    p >= 2 && forall|d: int| 2 <= d < p ==> #[trigger] (p % d) != 0
}

pub proof fn lemma_add_reduce(a: int, b: int, m: int)
    requires 0 <= a < m, 0 <= b < m,
    ensures (a + b) % m == if a + b < m { a + b } else { a + b - m },
{
    if a + b < m {
        lemma_small_mod((a + b) as nat, m as nat);
    } else {
        lemma_small_mod((a + b - m) as nat, m as nat);
        lemma_mod_add_multiples_vanish(a + b - m, m);
    }
}
pub proof fn lemma_sub_reduce(a: int, b: int, m: int)
    requires 0 <= a < m, 0 <= b < m,
    ensures (a - b) % m == if a >= b { a - b } else { a - b + m },
{
    if a >= b {
        lemma_small_mod((a - b) as nat, m as nat);
    } else {
        lemma_small_mod((a - b + m) as nat, m as nat);
        lemma_mod_add_multiples_vanish(a - b, m);
    }
}

// exponentiation by squaring
#[verifier::opaque]
pub open spec fn pow_inv(r: int, x: int, n: nat, a: int, n0: nat, m: int) -> bool {
    (r * pow(x, n)) % m == pow(a, n0) % m
}
pub proof fn lemma_pow0_all()
    ensures forall|a: int| #[trigger] pow(a, 0) == 1,
{
    assert forall|a: int| #[trigger] pow(a, 0) == 1 by { lemma_pow0(a); }
}
pub proof fn lemma_pow_start(r: int, x: int, n: nat, a: int, m: int)
    requires r == 1int % m, x == a, m > 0,
    ensures pow_inv(r, x, n, a, n, m),
{
    reveal(pow_inv);
    lemma_mul_mod_noop_left(1, pow(a, n), m);
}
pub proof fn lemma_pow_step(r: int, x: int, n: nat, a: int, n0: nat, m: int)
    requires pow_inv(r, x, n, a, n0, m), n > 0, m > 0,
    ensures
        n % 2 == 1 ==> pow_inv((r * x) % m, (x * x) % m, n / 2, a, n0, m),
        n % 2 == 0 ==> pow_inv(r, (x * x) % m, n / 2, a, n0, m),
{
    reveal(pow_inv);
    let h = n / 2;
    let y = (x * x) % m;
    lemma_pow_mod_noop(x * x, h, m);
    assert(pow(y, h) % m == pow(x * x, h) % m);
    lemma_pow_distributes(x, x, h);
    lemma_pow_adds(x, h, h);
    assert(pow(x * x, h) == pow(x, h + h));
    if n % 2 == 1 {
        assert(n == h + h + 1);
        lemma_pow_adds(x, 1, h + h);
        lemma_pow1(x);
        assert(pow(x, n) == x * pow(x, h + h));
        let q = pow(x, h + h);
        assert(r * (x * q) == (r * x) * q) by (nonlinear_arith);
        let s = (r * x) % m;
        lemma_mul_mod_noop_left(r * x, q, m);
        assert((s * q) % m == pow(a, n0) % m);
        lemma_mul_mod_noop_right(s, pow(y, h), m);
        lemma_mul_mod_noop_right(s, q, m);
    } else {
        assert(n == h + h);
        let q = pow(x, h + h);
        lemma_mul_mod_noop_right(r, pow(y, h), m);
        lemma_mul_mod_noop_right(r, q, m);
    }
}
pub proof fn lemma_pow_end(r: int, x: int, a: int, n0: nat, m: int)
    requires pow_inv(r, x, 0, a, n0, m), 0 <= r < m,
    ensures r == pow(a, n0) % m,
{
    reveal(pow_inv);
    lemma_pow0(x);
    lemma_small_mod(r as nat, m as nat);
}
pub proof fn lemma_add_mod_left(a: int, b: int, m: int)
    requires m > 0,
    ensures (a % m + b) % m == (a + b) % m,
{
    lemma_add_mod_noop_right(b, a, m);
}
//@fn misc/modint.rs | apply | ret=r
//@spec
    requires f.requires((x,)),
    ensures f.ensures((x,), r),
//@end
