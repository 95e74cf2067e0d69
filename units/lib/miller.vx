// Modular power and the primality test behind the debug assertion of `StaticModInt::inv`: no prime is ever rejected.
//@fn math/internal_math.rs | pow_mod | ret=r | divassign
//@spec
    requires n >= 0, m >= 1,
    ensures 0 <= r < m, r == pow(x as int, n as nat) % (m as int),
//@entry
    let ghost n0 = n as nat;
    let ghost b = (x as int) % (m as int);
    proof {
        lemma_mod_bound(x as int, m as int);
        lemma_mod_bound(pow(x as int, n0), m as int);
        if m == 1 { lemma_mod_one(pow(x as int, n0)); }
        else {
            lemma_small_mod(1, m as nat);
            lemma_pow_start(1, b, n0, b, m as int);
        }
        lemma_pow_mod_noop(x as int, n0, m as int);
    }
//@loop 0
    invariant
        m >= 2, n >= 0, _m == m, 0 <= r < m, 0 <= y < m,
        pow_inv(r as int, y as int, n as nat, b, n0, m as int),
        pow(b, n0) % (m as int) == pow(x as int, n0) % (m as int),
    decreases n,
//@at loop0.head
    proof {
        lemma_pow_step(r as int, y as int, n as nat, b, n0, m as int);
        lemma_bits_i64(n);
        let (rr, yy, mm) = (r as int, y as int, m as int);
        assert(0 <= rr * yy < 0x4000_0000_0000_0000) by (nonlinear_arith) requires 0 <= rr < mm, 0 <= yy < mm, mm <= 0x7fff_ffff;
        assert(0 <= yy * yy < 0x4000_0000_0000_0000) by (nonlinear_arith) requires 0 <= yy < mm, mm <= 0x7fff_ffff;
        lemma_mod_bound(rr * yy, mm);
        lemma_mod_bound(yy * yy, mm);
    }
//@at loop0.after
    proof { lemma_pow_end(r as int, y as int, b, n0, m as int); }
//@end
pub proof fn lemma_mod_one(x: int)
    ensures x % 1 == 0,
{
    lemma_mod_bound(x, 1);
}
pub proof fn lemma_bits_i64(n: i64)
    requires n >= 0,
    ensures n & 1 == n % 2, n >> 1 == n / 2,
{
    assert(n & 1 == n % 2) by (bit_vector) requires n >= 0;
    assert(n >> 1 == n / 2) by (bit_vector) requires n >= 0;
}
/// modulo a prime only 1 and -1 square to 1
pub proof fn lemma_sqrt_one(y: int, p: int)
    requires is_prime_spec(p), 0 <= y < p, (y * y) % p == 1,
    ensures y == 1 || y == p - 1,
{
    lemma_fundamental_div_mod(y * y, p);
    let q = (y * y) / p;
    assert((y - 1) * (y + 1) == q * p) by (nonlinear_arith) requires y * y == p * q + 1;
    lemma_mod_multiples_basic(q, p);
    if y == 0 {
        lemma_small_mod(0, p as nat);
    } else if y != 1 && y != p - 1 {
        lemma_small_mod((y - 1) as nat, p as nat);
        lemma_small_mod((y + 1) as nat, p as nat);
        lemma_euclid_prime(p, y - 1, y + 1);
    }
}
pub open spec fn mr_witness(a: int) -> bool {
    a == 2 || a == 7 || a == 61
}
pub proof fn lemma_witness(a: int, p: int)
    requires is_prime_spec(p), mr_witness(a), a != p,
    ensures a % p != 0,
{
    if a < p {
        lemma_small_mod(a as nat, p as nat);
    } else {
        assert(nodiv(61, 2, 61)) by (compute_only);
        assert(nodiv(7, 2, 7)) by (compute_only);
        lemma_nodiv(a, 2, a, p);
    }
}
/// t == d * 2^k
pub open spec fn mr_chain(t: int, k: nat, top: int) -> bool {
    t > 0 && t * pow2(k) == top
}
pub proof fn lemma_chain_halve(d: int, k: nat, top: int)
    requires mr_chain(d, k, top), d % 2 == 0,
    ensures mr_chain(d / 2, k + 1, top),
{
    lemma_pow2_unfold(k + 1);
    let (h, w) = (d / 2, pow2(k) as int);
    assert(h * (2 * w) == d * w) by (nonlinear_arith) requires d == 2 * h;
}
pub proof fn lemma_chain_double(t: int, k: nat, top: int)
    requires mr_chain(t, k, top), t != top,
    ensures k > 0, mr_chain(2 * t, (k - 1) as nat, top), 2 * t <= top,
{
    lemma2_to64();
    if k == 0 { assert(t * 1 == t); }
    lemma_pow2_unfold(k);
    lemma_pow2_pos((k - 1) as nat);
    let w = pow2((k - 1) as nat) as int;
    assert((2 * t) * w == t * (2 * w)) by (nonlinear_arith);
    assert(2 * t <= (2 * t) * w) by (nonlinear_arith) requires w >= 1, t > 0;
}
pub proof fn lemma_mr_step(a: int, t: int, y: int, p: int)
    requires p >= 2, t > 0, y == pow(a, t as nat) % p,
    ensures (y * y) % p == pow(a, (2 * t) as nat) % p,
{
    lemma_pow_adds(a, t as nat, t as nat);
    lemma_mul_mod_noop(pow(a, t as nat), pow(a, t as nat), p);
}
//@fn math/internal_math.rs | is_prime | ret=r | divassign
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures is_prime_spec(n as int) ==> r,
//@entry
    let ghost p: int = n as int;
    let ghost mut k: nat = 0;
    proof { if p > 2 && p % 2 == 0 { assert(!is_prime_spec(p)); } lemma2_to64(); }
//@loop 0
    invariant n == p, p > 2, p % 2 == 1, p <= 0x7fff_ffff, mr_chain(d as int, k, p - 1), 0 < d < p,
    decreases d,
//@at loop0.head
    proof { lemma_chain_halve(d as int, k, p - 1); k = k + 1; }
//@at loop0.after
    proof {}
//@loop 1
    invariant
        n == p, p > 2, p % 2 == 1, p <= 0x7fff_ffff, p != 7, p != 61, d % 2 == 1, mr_chain(d as int, k, p - 1), 0 < d < p,
        vx_s0@ =~= seq![2i64, 7, 61], vx_k0 <= 3,
    decreases 3 - vx_k0,
//@at loop2.before
    let ghost mut j = k;
    proof {
        assert(mr_witness(a as int));
        if is_prime_spec(p) {
            lemma_witness(a as int, p);
            lemma_fermat(a as int, p);
        }
    }
//@loop 2
    invariant
        n == p, p > 2, p % 2 == 1, p <= 0x7fff_ffff, mr_chain(t as int, j, p - 1), 0 < t < p, 0 <= y < p,
        y == pow(a as int, t as nat) % p,
        is_prime_spec(p) && t % 2 == 0 ==> y != 1,
    decreases j,
//@at loop2.head
    proof {
        lemma_chain_double(t as int, j, p - 1);
        lemma_mr_step(a as int, t as int, y as int, p);
        let yy = y as int;
        assert(0 <= yy * yy < 0x4000_0000_0000_0000) by (nonlinear_arith) requires 0 <= yy < p, p <= 0x7fff_ffff;
        lemma_mod_bound(yy * yy, p);
        lemma_trunc(yy * yy, p);
        if is_prime_spec(p) && (yy * yy) % p == 1 { lemma_sqrt_one(yy, p); }
        assert(t << 1 == 2 * t) by (bit_vector) requires 0 < t, t < 0x7fff_ffff;
        j = (j - 1) as nat;
    }
//@at loop2.after
    proof {
        lemma_trunc(t as int, 2);
        if is_prime_spec(p) && t == p - 1 { assert(y == 1); assert(t % 2 == 0); }
        if is_prime_spec(p) { assert(y == p - 1 || y == 1); }
    }
//@end

/// u32 -> i32 by TryFrom: the documented meaning of the std conversion
pub fn vx_try_i32(x: u32) -> (r: Result<i32, ()>)
    ensures x <= 0x7fff_ffff ==> r == Ok::<i32, ()>(x as i32), x > 0x7fff_ffff ==> r.is_err(),
{
    if x <= 0x7fff_ffff { Ok(x as i32) } else { Err(()) }
}
