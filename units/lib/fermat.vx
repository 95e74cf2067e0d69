// Modular inverses: existence, uniqueness, Fermat's little theorem.
pub uninterp spec fn may_panic() -> bool;

/// panics; reachable only where may_panic() holds (so a caller that knows an inverse exists never reaches it)
#[verifier::external_body]
pub fn vx_may_panic() -> !
    requires may_panic(),
    ensures false,
{
    panic!()
}

pub open spec fn is_inv(a: int, r: int, m: int) -> bool {
    0 <= r < m && (a * r) % m == 1int % m
}
pub open spec fn inv_exists(a: int, m: int) -> bool {
    exists|r: int| is_inv(a, r, m)
}
pub open spec fn inv_of(a: int, m: int) -> int {
    inv_raw(a % m, m)
}
pub open spec fn inv_raw(a: int, m: int) -> int {
    choose|r: int| is_inv(a, r, m)
}
pub open spec fn inv_ok(a: int, m: int) -> bool {
    inv_exists(a, m) || may_panic()
}

pub proof fn lemma_is_inv_mod(a: int, r: int, m: int)
    requires m > 0,
    ensures is_inv(a, r, m) <==> is_inv(a % m, r, m),
{
    lemma_mul_mod_noop_left(a, r, m);
}

pub proof fn lemma_inv_unique(a: int, r: int, m: int)
    requires is_inv(a, r, m), m > 0,
    ensures inv_exists(a, m), inv_of(a, m) == r, is_inv(a, inv_of(a, m), m), inv_of(a, m) % m == r,
{
    lemma_is_inv_mod(a, r, m);
    let s = inv_of(a, m);
    assert(is_inv(a % m, s, m));
    lemma_is_inv_mod(a, s, m);
    // s == s*(a*r) == (s*a)*r == r (mod m)
    lemma_mul_mod_noop_right(s, a * r, m);
    lemma_mul_mod_noop_right(s, 1, m);
    lemma_mul_mod_noop_left(a * s, r, m);
    lemma_mul_mod_noop_left(1, r, m);
    assert(s * (a * r) == (a * s) * r) by (nonlinear_arith);
    lemma_small_mod(s as nat, m as nat);
    lemma_small_mod(r as nat, m as nat);
}

pub proof fn lemma_inv_res(a: int, m: int)
    requires m > 0,
    ensures inv_exists(a, m) ==> is_inv(a, inv_of(a, m), m) && inv_of(a, m) % m == inv_of(a, m),
{
    if inv_exists(a, m) {
        let r = choose|r: int| is_inv(a, r, m);
        lemma_inv_unique(a, r, m);
    }
}

/// the inverse depends on the residue only
pub proof fn lemma_inv_mod(a: int, m: int)
    requires m > 0,
    ensures inv_exists(a, m) <==> inv_exists(a % m, m), inv_of(a, m) == inv_of(a % m, m),
        inv_ok(a, m) <==> inv_ok(a % m, m),
{
    lemma_mod_twice(a, m);
    if inv_exists(a, m) {
        let r = choose|r: int| is_inv(a, r, m);
        lemma_is_inv_mod(a, r, m);
    }
    let b = a % m;
    if inv_exists(b, m) {
        let r = choose|r: int| is_inv(b, r, m);
        lemma_is_inv_mod(a, r, m);
    }
}

/// an inverse exists exactly when a and m are coprime
pub proof fn lemma_inv_coprime(a: int, m: int)
    requires m > 0, a >= 0,
    ensures inv_exists(a, m) <==> is_gcd(1, a, m),
{
    if inv_exists(a, m) {
        let r = choose|r: int| is_inv(a, r, m);
        lemma_fundamental_div_mod(a * r, m);
        lemma_fundamental_div_mod(1, m);
        let k = (a * r) / m - 1int / m;
        assert(a * r + m * (-k) == 1) by (nonlinear_arith)
            requires a * r == m * ((a * r) / m) + (a * r) % m, 1 == m * (1int / m) + 1int % m, (a * r) % m == 1int % m, k == (a * r) / m - 1int / m;
        lemma_divides_refl(a);
        lemma_divides_refl(m);
        lemma_bezout_gcd(r, -k, 1, a, m);
    }
    if is_gcd(1, a, m) {
        let (x, y, g) = exg(a, m);
        lemma_exg(a, m);
        lemma_bezout_gcd(x, y, g, a, m);
        lemma_gcd_unique(1, g, a, m);
        lemma_comb_inv(a, x, y, m);
    }
}

pub proof fn lemma_comb_inv(a: int, x: int, y: int, m: int)
    requires m > 0, a * x + m * y == 1,
    ensures is_inv(a, x % m, m), inv_exists(a, m),
{
    lemma_mod_bound(x, m);
    lemma_mul_mod_noop_right(a, x, m);
    assert(a * x == 1 + (-y) * m) by (nonlinear_arith) requires a * x + m * y == 1;
    lemma_mod_multiples_vanish(-y, 1, m);
    assert(m * (-y) + 1 == a * x) by (nonlinear_arith) requires a * x + m * y == 1;
    assert(is_inv(a, x % m, m));
}

/// what inv_gcd returns is used as the inverse
pub open spec fn inv_gcd_post(g: int, x: int, a: int, b: int) -> bool {
    is_gcd(g, a, b) && divides(b, g - x * a) && g > 0
}
pub proof fn lemma_inv_gcd_use(a: int, m: int)
    requires m > 0, a >= 0,
    ensures
        forall|g: int, x: int| #[trigger] inv_gcd_post(g, x, a, m) ==>
            (g == 1 ==> is_inv(a, x % m, m)) && (g != 1 ==> !inv_exists(a, m)),
{
    assert forall|g: int, x: int| #[trigger] inv_gcd_post(g, x, a, m) implies
            (g == 1 ==> is_inv(a, x % m, m)) && (g != 1 ==> !inv_exists(a, m)) by {
        if g == 1 {
            lemma_quot(m, g - x * a);
            let q = quot(m, g - x * a);
            assert(a * x + m * q == 1) by (nonlinear_arith) requires 1 - x * a == m * q;
            lemma_comb_inv(a, x, q, m);
        } else if inv_exists(a, m) {
            lemma_inv_coprime(a, m);
            lemma_gcd_unique(1, g, a, m);
        }
    }
}

// ---- primes
pub proof fn lemma_prime_coprime(p: int, x: int)
    requires is_prime_spec(p), x % p != 0,
    ensures exists|u: int, v: int| #[trigger] (p * u) + #[trigger] (x * v) == 1,
{
    let y = x % p;
    lemma_mod_bound(x, p);
    let (u, v, g) = exg(p, y);
    lemma_exg(p, y);
    lemma_divides_le(g, y);
    lemma_divides_le(g, p);
    assert(1 <= g < p);
    if g >= 2 {
        lemma_divides_mod(g, p);
        assert(p % g == 0);
    }
    assert(g == 1);
    lemma_fundamental_div_mod(x, p);
    let k = x / p;
    assert(p * (u - k * v) + x * v == 1) by (nonlinear_arith) requires p * u + y * v == 1, x == p * k + y;
}

pub proof fn lemma_euclid_prime(p: int, x: int, y: int)
    requires is_prime_spec(p), (x * y) % p == 0, x % p != 0,
    ensures y % p == 0,
{
    lemma_prime_coprime(p, x);
    let (u, v) = choose|u: int, v: int| #[trigger] (p * u) + #[trigger] (x * v) == 1;
    lemma_fundamental_div_mod(x * y, p);
    let k = (x * y) / p;
    assert(y == p * (u * y + k * v)) by (nonlinear_arith) requires p * u + x * v == 1, x * y == p * k;
    lemma_mod_multiples_basic(u * y + k * v, p);
    assert(p * (u * y + k * v) == (u * y + k * v) * p) by (nonlinear_arith);
}

pub open spec fn fact(n: nat) -> int
    decreases n,
{
    if n == 0 { 1 } else { fact((n - 1) as nat) * n }
}

pub proof fn lemma_fact_coprime(p: int, n: nat)
    requires is_prime_spec(p), n < p,
    ensures fact(n) % p != 0,
    decreases n,
{
    if n == 0 {
        lemma_small_mod(1, p as nat);
    } else {
        lemma_fact_coprime(p, (n - 1) as nat);
        lemma_small_mod(n, p as nat);
        if fact(n) % p == 0 {
            lemma_euclid_prime(p, fact((n - 1) as nat), n as int);
        }
    }
}

pub open spec fn mul_f() -> spec_fn(int, int) -> int {
    |x: int, acc: int| x * acc
}
pub open spec fn seq_prod(s: Seq<int>) -> int {
    s.fold_right(mul_f(), 1)
}
pub open spec fn upto(n: nat) -> Seq<int> {
    Seq::new(n, |i: int| i + 1)
}
pub open spec fn scaled(a: int, p: int, n: nat) -> Seq<int> {
    Seq::new(n, |i: int| (a * (i + 1)) % p)
}

pub proof fn lemma_foldr_push(s: Seq<int>, e: int, b: int)
    ensures s.fold_right(mul_f(), b * e) == s.fold_right(mul_f(), b) * e,
    decreases s.len(),
{
    if s.len() > 0 {
        let f = mul_f();
        // fold_right(s, b) = fold_right(s.drop_last(), f(s.last(), b))
        reveal_with_fuel(Seq::fold_right, 2);
        assert(s.last() * (b * e) == (s.last() * b) * e) by (nonlinear_arith);
        lemma_foldr_push(s.drop_last(), e, s.last() * b);
    }
}
pub proof fn lemma_prod_push(s: Seq<int>, e: int)
    ensures seq_prod(s.push(e)) == seq_prod(s) * e,
{
    reveal_with_fuel(Seq::fold_right, 2);
    assert(s.push(e).drop_last() =~= s);
    assert(s.push(e).last() == e);
    assert(mul_f()(e, 1) == 1 * e);
    lemma_foldr_push(s, e, 1);
}
pub proof fn lemma_prod_upto(n: nat)
    ensures seq_prod(upto(n)) == fact(n),
    decreases n,
{
    if n == 0 {
        assert(upto(0).len() == 0);
        reveal_with_fuel(Seq::fold_right, 1);
    } else {
        lemma_prod_upto((n - 1) as nat);
        assert(upto(n) =~= upto((n - 1) as nat).push(n as int));
        lemma_prod_push(upto((n - 1) as nat), n as int);
    }
}
pub proof fn lemma_prod_scaled(a: int, p: int, n: nat)
    requires p > 0,
    ensures seq_prod(scaled(a, p, n)) % p == (pow(a, n) * fact(n)) % p,
    decreases n,
{
    if n == 0 {
        assert(scaled(a, p, 0).len() == 0);
        reveal_with_fuel(Seq::fold_right, 1);
        lemma_pow0(a);
    } else {
        let k = (n - 1) as nat;
        lemma_prod_scaled(a, p, k);
        let e = (a * n) % p;
        assert(scaled(a, p, n) =~= scaled(a, p, k).push(e));
        lemma_prod_push(scaled(a, p, k), e);
        let q = seq_prod(scaled(a, p, k));
        let w = pow(a, k) * fact(k);
        lemma_mul_mod_noop(q, a * n, p);
        lemma_mul_mod_noop_right(q, a * n, p);
        lemma_mul_mod_noop(w, a * n, p);
        lemma_pow_adds(a, 1, k);
        lemma_pow1(a);
        assert(pow(a, n) == a * pow(a, k));
        let (pk, fk) = (pow(a, k), fact(k));
        assert((pk * fk) * (a * n) == (a * pk) * (fk * n)) by (nonlinear_arith);
    }
}

pub proof fn lemma_scaled_perm(a: int, p: int)
    requires is_prime_spec(p), a % p != 0,
    ensures scaled(a, p, (p - 1) as nat).to_multiset() =~= upto((p - 1) as nat).to_multiset(),
{
    let n = (p - 1) as nat;
    let s = scaled(a, p, n);
    let t = upto(n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies s[i] != s[j] by {
        if s[i] == s[j] {
            lemma_fundamental_div_mod(a * (i + 1), p);
            lemma_fundamental_div_mod(a * (j + 1), p);
            let q = (a * (i + 1)) / p - (a * (j + 1)) / p;
            assert(a * (i - j) == q * p) by (nonlinear_arith)
                requires a * (i + 1) == p * ((a * (i + 1)) / p) + s[i], a * (j + 1) == p * ((a * (j + 1)) / p) + s[j], s[i] == s[j], q == (a * (i + 1)) / p - (a * (j + 1)) / p;
            lemma_mod_multiples_basic(q, p);
            lemma_euclid_prime(p, a, i - j);
            let d = i - j;
            if d > 0 {
                lemma_small_mod(d as nat, p as nat);
            } else {
                lemma_mod_add_multiples_vanish(d, p);
                lemma_small_mod((d + p) as nat, p as nat);
            }
        }
    }
    assert(s.no_duplicates());
    assert(t.no_duplicates());
    assert forall|i: int| 0 <= i < n implies 1 <= #[trigger] s[i] <= n by {
        lemma_mod_bound(a * (i + 1), p);
        if s[i] == 0 {
            lemma_euclid_prime(p, a, i + 1);
            lemma_small_mod((i + 1) as nat, p as nat);
        }
    }
    let ss = s.to_set();
    let ts = t.to_set();
    s.unique_seq_to_set();
    t.unique_seq_to_set();
    assert forall|x: int| ss.contains(x) implies ts.contains(x) by {
        let i = choose|i: int| 0 <= i < n && s[i] == x;
        assert(t[x - 1] == x);
    }
    assert(ss.subset_of(ts));
    vstd::set_lib::lemma_subset_equality(ss, ts);
    assert(ss =~= ts);
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates();
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    assert forall|x: int| s.to_multiset().count(x) == t.to_multiset().count(x) by {
        assert(s.contains(x) <==> ss.contains(x));
        assert(t.contains(x) <==> ts.contains(x));
        assert(s.to_multiset().contains(x) <==> s.contains(x));
        assert(t.to_multiset().contains(x) <==> t.contains(x));
    }
}

/// Fermat's little theorem
pub proof fn lemma_fermat(a: int, p: int)
    requires is_prime_spec(p), a % p != 0,
    ensures pow(a, (p - 1) as nat) % p == 1,
{
    let n = (p - 1) as nat;
    lemma_scaled_perm(a, p);
    let (s, t) = (scaled(a, p, n), upto(n));
    assert(commutative_foldr(mul_f())) by {
        assert forall|x: int, y: int, v: int| #[trigger] mul_f()(x, mul_f()(y, v)) == mul_f()(y, mul_f()(x, v)) by {
            assert(x * (y * v) == y * (x * v)) by (nonlinear_arith);
        }
    }
    vstd::seq_lib::lemma_fold_right_permutation(s, t, mul_f(), 1);
    lemma_prod_upto(n);
    lemma_prod_scaled(a, p, n);
    let f = fact(n);
    let w = pow(a, n);
    assert((w * f) % p == f % p);
    lemma_fundamental_div_mod(w * f, p);
    lemma_fundamental_div_mod(f, p);
    let q = (w * f) / p - f / p;
    assert(f * (w - 1) == q * p) by (nonlinear_arith)
        requires w * f == p * ((w * f) / p) + (w * f) % p, f == p * (f / p) + f % p, (w * f) % p == f % p, q == (w * f) / p - f / p;
    lemma_mod_multiples_basic(q, p);
    lemma_fact_coprime(p, n);
    lemma_euclid_prime(p, f, w - 1);
    lemma_add_mod_left(w - 1, 1, p);
    lemma_small_mod(1, p as nat);
}

pub proof fn lemma_prime_inv(a: int, p: int)
    requires is_prime_spec(p), 0 <= a < p,
    ensures
        a == 0 ==> !inv_exists(a, p),
        a != 0 ==> is_inv(a, pow(a, (p - 2) as nat) % p, p) && inv_exists(a, p),
{
    lemma_small_mod(1, p as nat);
    if a == 0 {
        assert forall|r: int| !is_inv(a, r, p) by {
            lemma_small_mod(0, p as nat);
            assert(0 * r == 0);
        }
    } else {
        lemma_small_mod(a as nat, p as nat);
        lemma_fermat(a, p);
        let k = (p - 2) as nat;
        lemma_pow_adds(a, 1, k);
        lemma_pow1(a);
        lemma_mul_mod_noop_right(a, pow(a, k), p);
        lemma_mod_bound(pow(a, k), p);
        assert(is_inv(a, pow(a, k) % p, p));
    }
}

//@fn math/internal_math.rs | safe_mod | ret=r | divassign
//@spec
    requires m > 0,
    ensures r == (x as int) % (m as int), 0 <= r < m,
//@entry
    let ghost x0 = x as int;
    proof {
        lemma_trunc(x0, m as int);
        lemma_mod_bound(x0, m as int);
        <i64 as Integral>::law_div(x, m);
        lemma_rem_mod(x0, m as int);
    }
//@end

pub proof fn lemma_rem_mod(x: int, m: int)
    requires m > 0,
    ensures x % m == if rust_rem(x, m) >= 0 { rust_rem(x, m) } else { rust_rem(x, m) + m },
{
    lemma_trunc(x, m);
    let r = rust_rem(x, m);
    let q = rust_div(x, m);
    if r >= 0 {
        lemma_fundamental_div_mod_converse(x, m, q, r);
    } else {
        assert(x == (q - 1) * m + (r + m)) by (nonlinear_arith) requires x == q * m + r;
        lemma_fundamental_div_mod_converse(x, m, q - 1, r + m);
    }
}

#[verifier::opaque]
pub open spec fn ig_inv(s: int, t: int, m0: int, m1: int, a: int, b: int) -> bool {
    &&& same_divisors(a, b, s, t)
    &&& divides(b, s - m0 * a)
    &&& divides(b, t - m1 * a)
    &&& s * abs(m1) + t * abs(m0) <= b
    &&& s > t >= 0
    &&& abs(m0) <= b
    &&& abs(m1) <= b
}
pub proof fn lemma_ig_start(a: int, b: int)
    requires 0 < a < b,
    ensures ig_inv(b, a, 0, 1, a, b),
{
    reveal(ig_inv);
    reveal(same_divisors);
    lemma_divides_refl(b);
    assert(b - 0 * a == b);
    assert(a - 1 * a == 0);
    assert(b * abs(1) + a * abs(0) <= b) by (nonlinear_arith);
}
pub proof fn lemma_ig_step(s: int, t: int, m0: int, m1: int, a: int, b: int)
    requires ig_inv(s, t, m0, m1, a, b), t > 0, 0 < a < b,
    ensures
        ig_inv(t, s - t * (s / t), m1, m0 - m1 * (s / t), a, b),
        s - t * (s / t) >= 0, abs(m1 * (s / t)) <= b, 0 <= t * (s / t) <= s, abs(m0 - m1 * (s / t)) <= b,
        1 <= s / t,
{
    reveal(ig_inv);
    lemma_gcd_step(a, b, s, t);
    lemma_trunc(s, t);
    lemma_fundamental_div_mod(s, t);
    lemma_mod_bound(s, t);
    let u = s / t;
    let s2 = s - t * u;
    let n1 = m0 - m1 * u;
    assert(s2 == s % t);
    assert(u >= 1) by (nonlinear_arith) requires s == t * u + s % t, s > t, t > 0, s % t < t;
    assert(t * u >= 0) by (nonlinear_arith) requires t > 0, u >= 1;
    assert(abs(m1 * u) == abs(m1) * u) by (nonlinear_arith) requires u >= 1;
    assert(u <= s) by (nonlinear_arith) requires s == t * u + s2, t >= 1, s2 >= 0, u >= 1;
    let bm1 = abs(m1);
    assert(bm1 * u <= s * bm1) by (nonlinear_arith) requires u <= s, bm1 >= 0;
    assert(s * abs(m1) <= b) by (nonlinear_arith) requires s * abs(m1) + t * abs(m0) <= b, t >= 0, abs(m0) >= 0;
    let am1 = abs(m1);
    let am0 = abs(m0);
    let an1 = abs(n1);
    assert(an1 <= am0 + am1 * u);
    assert(t * an1 <= t * (am0 + am1 * u)) by (nonlinear_arith) requires an1 <= am0 + am1 * u, t > 0;
    assert(s2 * am1 + t * (am0 + am1 * u) == s * am1 + t * am0) by (nonlinear_arith) requires s2 == s - t * u;
    assert(t * an1 + s2 * am1 <= b);
    assert(an1 <= t * an1) by (nonlinear_arith) requires t >= 1, an1 >= 0;
    assert(s2 * am1 >= 0) by (nonlinear_arith) requires s2 >= 0, am1 >= 0;
    // congruences
    lemma_quot(b, s - m0 * a);
    lemma_quot(b, t - m1 * a);
    let k = quot(b, s - m0 * a);
    let l = quot(b, t - m1 * a);
    assert(s2 - n1 * a == b * (k - l * u)) by (nonlinear_arith)
        requires s - m0 * a == b * k, t - m1 * a == b * l, s2 == s - t * u, n1 == m0 - m1 * u;
    lemma_divides(b, k - l * u);
}
pub proof fn lemma_ig_end(s: int, m0: int, m1: int, a: int, b: int)
    requires ig_inv(s, 0, m0, m1, a, b), 0 < a < b,
    ensures
        s > 0, 0 <= b / s <= b,
        inv_gcd_post(s, m0, a, b), inv_gcd_post(s, m0 + b / s, a, b),
{
    reveal(ig_inv);
    lemma_gcd_end(a, b, s);
    lemma_quot(s, a);
    lemma_quot(s, b);
    let p = quot(s, a);
    let q = quot(s, b);
    lemma_div_multiples_vanish(q, s);
    assert(b / s == q) by { assert(b == s * q); }
    lemma_quot(b, s - m0 * a);
    let k = quot(b, s - m0 * a);
    assert(s - (m0 + q) * a == b * (k - p)) by (nonlinear_arith) requires s - m0 * a == b * k, a == s * p, b == s * q;
    lemma_divides(b, k - p);
    assert(0 <= q <= b) by (nonlinear_arith) requires b == s * q, s >= 1, b > 0;
}

pub proof fn lemma_post_mod(g: int, x: int, a: int, b: int)
    requires inv_gcd_post(g, x, a % b, b), b > 0,
    ensures inv_gcd_post(g, x, a, b),
{
    lemma_fundamental_div_mod(a, b);
    let k = a / b;
    let r = a % b;
    lemma_quot(b, g - x * r);
    let q = quot(b, g - x * r);
    assert(g - x * a == b * (q - x * k)) by (nonlinear_arith) requires g - x * r == b * q, a == b * k + r;
    lemma_divides(b, q - x * k);
    assert(a == k * b + r) by (nonlinear_arith) requires a == b * k + r;
    lemma_divides_lin(g, b, r, k, 1);
    assert forall|d: int| #[trigger] divides(d, a) && divides(d, b) implies divides(d, g) by {
        lemma_divides_lin(d, b, a, -k, 1);
        assert(-k * b + 1 * a == r) by (nonlinear_arith) requires a == b * k + r;
    }
}

//@fn math/internal_math.rs | inv_gcd | ret=r | divassign
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires b > 0, b < 0x4000_0000_0000_0000,
    ensures inv_gcd_post(r.0 as int, r.1 as int, a as int, b as int),
//@entry
    let ghost a0 = a as int;
    let ghost ar = (a as int) % (b as int);
    proof {
        lemma_mod_bound(a0, b as int);
        lemma_divides_refl(b as int);
        assert forall|d: int| #[trigger] divides(d, ar) && divides(d, b as int) implies divides(d, b as int) by {}
        assert(b - 0 * ar == b as int);
        if ar == 0 { lemma_post_mod(b as int, 0, a0, b as int); } else { lemma_ig_start(ar, b as int); }
    }
//@loop 0
    invariant ig_inv(s as int, t as int, m0 as int, m1 as int, ar, b as int), s > t >= 0,
    decreases t as int,
//@at loop0.before
    proof { reveal(ig_inv); }
//@at loop0.head
    proof {
        lemma_ig_step(s as int, t as int, m0 as int, m1 as int, ar, b as int);
        lemma_trunc(s as int, t as int);
        <i64 as Integral>::law_div(s, t);
        lemma_mod_bound(s as int, t as int);
        lemma_fundamental_div_mod(s as int, t as int);
    }
//@at loop0.after
    proof {
        reveal(ig_inv);
        lemma_ig_end(s as int, m0 as int, m1 as int, ar, b as int);
        lemma_trunc(b as int, s as int);
        <i64 as Integral>::law_div(b, s);
        lemma_post_mod(s as int, m0 as int, a0, b as int);
        lemma_post_mod(s as int, m0 + b as int / s as int, a0, b as int);
    }
//@end
