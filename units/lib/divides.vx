use vstd::arithmetic::div_mod::{rust_div, rust_rem};

pub open spec fn abs(a: int) -> int { if a >= 0 { a } else { -a } }

/// d divides n
#[verifier::opaque]
pub open spec fn divides(d: int, n: int) -> bool {
    exists|k: int| n == #[trigger] (d * k)
}

pub open spec fn quot(d: int, n: int) -> int {
    choose|k: int| n == #[trigger] (d * k)
}

pub proof fn lemma_divides(d: int, k: int)
    ensures divides(d, d * k),
{
    reveal(divides);
}

pub proof fn lemma_quot(d: int, n: int)
    requires divides(d, n),
    ensures n == d * quot(d, n),
{
    reveal(divides);
}

/// d divides x*a + y*b when it divides a and b
pub proof fn lemma_divides_lin(d: int, a: int, b: int, x: int, y: int)
    requires divides(d, a), divides(d, b),
    ensures divides(d, x * a + y * b),
{
    reveal(divides);
    lemma_quot(d, a);
    let p = quot(d, a);
    lemma_quot(d, b);
    let q = quot(d, b);
    assert(d * (x * p + y * q) == x * a + y * b) by (nonlinear_arith) requires a == d * p, b == d * q;
}

pub proof fn lemma_divides_refl(d: int)
    ensures divides(d, d), divides(d, 0), divides(1, d),
{
    reveal(divides);
    assert(d == d * 1);
    assert(0 == d * 0);
    assert(d == 1 * d);
}

pub proof fn lemma_divides_trans(a: int, b: int, c: int)
    requires divides(a, b), divides(b, c),
    ensures divides(a, c),
{
    reveal(divides);
    lemma_quot(a, b);
    let p = quot(a, b);
    lemma_quot(b, c);
    let q = quot(b, c);
    assert(a * (p * q) == c) by (nonlinear_arith) requires b == a * p, c == b * q;
}

pub proof fn lemma_divides_le(d: int, n: int)
    requires divides(d, n), n != 0,
    ensures d != 0, abs(d) <= abs(n),
{
    lemma_quot(d, n);
    let k = quot(d, n);
    assert(d != 0 && k != 0) by (nonlinear_arith) requires n == d * k, n != 0;
    assert(abs(d * k) >= abs(d)) by (nonlinear_arith) requires k != 0, d != 0;
}

pub proof fn lemma_divides_neg(d: int, n: int)
    ensures divides(d, n) ==> divides(d, -n), divides(d, n) ==> divides(-d, n),
{
    reveal(divides);
    if divides(d, n) {
        lemma_quot(d, n);
        let k = quot(d, n);
        assert(d * (-k) == -n && (-d) * (-k) == n) by (nonlinear_arith) requires n == d * k;
    }
}

/// mutual divisibility
pub proof fn lemma_divides_antisym(a: int, b: int)
    requires a >= 0, b >= 0, divides(a, b), divides(b, a),
    ensures a == b,
{
    if a != 0 { lemma_divides_le(b, a); }
    if b != 0 { lemma_divides_le(a, b); }
}

pub proof fn lemma_divides_mod(d: int, n: int)
    requires d > 0,
    ensures divides(d, n) <==> n % d == 0,
{
    reveal(divides);
    lemma_fundamental_div_mod(n, d);
    if n % d == 0 { assert(n == d * (n / d)); }
    if divides(d, n) {
        lemma_quot(d, n);
        let k = quot(d, n);
        lemma_mod_multiples_basic(k, d);
        assert(d * k == k * d) by (nonlinear_arith);
    }
}

/// g is the greatest common divisor (0 when a and b are 0)
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    &&& g >= 0
    &&& divides(g, a)
    &&& divides(g, b)
    &&& forall|d: int| #[trigger] divides(d, a) && divides(d, b) ==> divides(d, g)
}

/// l is the least common multiple (0 when a or b is 0)
pub open spec fn is_lcm(l: int, a: int, b: int) -> bool {
    &&& l >= 0
    &&& divides(a, l)
    &&& divides(b, l)
    &&& forall|m: int| #[trigger] divides(a, m) && divides(b, m) ==> divides(l, m)
}

/// quotient and remainder of Rust's integer division
pub proof fn lemma_trunc(a: int, b: int)
    requires b != 0,
    ensures
        a == rust_div(a, b) * b + rust_rem(a, b),
        abs(rust_rem(a, b)) < abs(b),
        abs(a) == abs(rust_div(a, b)) * abs(b) + abs(rust_rem(a, b)),
        a >= 0 ==> rust_rem(a, b) >= 0,
        a <= 0 ==> rust_rem(a, b) <= 0,
        a >= 0 && b > 0 ==> rust_div(a, b) == a / b && rust_rem(a, b) == a % b && rust_div(a, b) >= 0,
{
    let q = rust_div(a, b);
    let r = rust_rem(a, b);
    let m = abs(a);
    lemma_euclid(m, b);
    let q1 = m / b;
    let r1 = m % b;
    if a == 0 {
        lemma_euclid(0, b);
        assert(0 * b == 0) by (nonlinear_arith);
        assert(0 * abs(b) == 0) by (nonlinear_arith);
        assert(0int / b == 0 && 0int % b == 0) by {
            let x = 0int / b; let y = 0int % b;
            assert(x * b + y == 0 && 0 <= y < abs(b));
            assert(x == 0) by (nonlinear_arith) requires x * b + y == 0, 0 <= y, y < b || y < -b;
        }
    } else {
        assert(q == q1 || q == -q1);
        assert((-q1) * b == -(q1 * b)) by (nonlinear_arith);
        assert(a == q * b + r);
        assert(m == q1 * b + r1);
        assert(abs(q1) * abs(b) == q1 * b) by {
            assert(q1 * b >= 0) by (nonlinear_arith) requires m == q1 * b + r1, m >= 0, 0 <= r1, r1 < b || r1 < -b;
            assert(abs(q1) * abs(b) == q1 * b || abs(q1) * abs(b) == -(q1 * b)) by (nonlinear_arith);
            assert(abs(q1) * abs(b) >= 0) by (nonlinear_arith);
        }
        if a > 0 && b > 0 { assert(q1 >= 0) by (nonlinear_arith) requires m == q1 * b + r1, m >= 0, r1 < b, b > 0; }
    }
}

/// Euclidean division by a divisor of any sign
pub proof fn lemma_euclid(a: int, b: int)
    requires b != 0,
    ensures a == (a / b) * b + a % b, 0 <= a % b < abs(b),
{
    assert(a == (a / b) * b + a % b && 0 <= a % b && (a % b < b || a % b < -b)) by (nonlinear_arith) requires b != 0;
    assert(a % b < abs(b)) by (nonlinear_arith) requires b != 0;
}

/// the coefficients and divisor computed by Euclid's algorithm with truncating division
pub open spec fn exg(a: int, b: int) -> (int, int, int)
    decreases abs(b),
    via exg_decreases
{
    if b == 0 {
        (1, 0, a)
    } else {
        let t = exg(b, rust_rem(a, b));
        (t.1, t.0 - rust_div(a, b) * t.1, t.2)
    }
}

#[via_fn]
proof fn exg_decreases(a: int, b: int) {
    if b != 0 { lemma_trunc(a, b); }
}

/// a common divisor that is a combination
pub open spec fn bezout(x: int, y: int, g: int, a: int, b: int) -> bool {
    &&& a * x + b * y == g
    &&& divides(g, a)
    &&& divides(g, b)
}

pub proof fn lemma_exg(a: int, b: int)
    ensures
        bezout(exg(a, b).0, exg(a, b).1, exg(a, b).2, a, b),
        a >= 0 && b >= 0 ==> exg(a, b).2 >= 0,
        b != 0 ==> abs(exg(a, b).0) <= abs(b) && (abs(exg(a, b).1) <= abs(a) || abs(exg(a, b).1) <= 1),
    decreases abs(b),
{
    let (x, y, g) = exg(a, b);
    if b == 0 {
        lemma_divides_refl(a);
        assert(a * 1 + b * 0 == a);
    } else {
        lemma_trunc(a, b);
        let q = rust_div(a, b);
        let r = rust_rem(a, b);
        lemma_exg(b, r);
        let t = exg(b, r);
        assert(a * t.1 + b * (t.0 - q * t.1) == b * t.0 + r * t.1) by (nonlinear_arith) requires a == q * b + r;
        lemma_divides_lin(g, b, r, q, 1);
        if r == 0 {
            assert(t == (1int, 0int, b));
            assert(q * 0 == 0);
        } else {
            assert(abs(q * t.1) <= abs(q) * abs(b)) by (nonlinear_arith) requires abs(t.1) <= abs(b);
        }
    }
}

pub proof fn lemma_bezout_gcd(x: int, y: int, g: int, a: int, b: int)
    requires bezout(x, y, g, a, b), g >= 0,
    ensures is_gcd(g, a, b),
{
    assert forall|d: int| #[trigger] divides(d, a) && divides(d, b) implies divides(d, g) by {
        lemma_divides_lin(d, a, b, x, y);
        assert(x * a + y * b == g) by (nonlinear_arith) requires a * x + b * y == g;
    }
}

pub proof fn lemma_gcd_unique(g: int, h: int, a: int, b: int)
    requires is_gcd(g, a, b), is_gcd(h, a, b),
    ensures g == h,
{
    lemma_divides_antisym(g, h);
}

/// product over gcd is the least common multiple
pub proof fn lemma_lcm(g: int, a: int, b: int)
    requires is_gcd(g, a, b), a >= 0, b >= 0, g > 0,
    ensures is_lcm((a * b) / g, a, b), divides(g, a * b), a * b >= 0,
{
    reveal(divides);
    let p = a * b;
    let (x, y, h) = exg(a, b);
    lemma_exg(a, b);
    lemma_bezout_gcd(x, y, h, a, b);
    lemma_gcd_unique(g, h, a, b);
    lemma_quot(g, a);
    let a1 = quot(g, a);
    lemma_quot(g, b);
    let b1 = quot(g, b);
    assert(p == g * (a * b1) && a * b1 == b * a1 && p >= 0) by (nonlinear_arith) requires a == g * a1, b == g * b1, p == a * b, a >= 0, b >= 0;
    let l = a * b1;
    lemma_divides(g, l);
    assert(p / g == l) by { lemma_div_multiples_vanish(l, g); }
    assert(l >= 0) by (nonlinear_arith) requires g * l >= 0, g > 0;
    assert forall|m: int| #[trigger] divides(a, m) && divides(b, m) implies divides(l, m) by {
        lemma_quot(a, m);
        lemma_quot(b, m);
        let s = quot(a, m);
        let t = quot(b, m);
        // m g = m (a x + b y) = a b (t x + s y) = g l (t x + s y)
        assert(g * m == (a * x) * m + (b * y) * m) by (nonlinear_arith) requires a * x + b * y == g;
        assert((a * x) * m == (a * b) * (t * x)) by (nonlinear_arith) requires m == b * t;
        assert((b * y) * m == (a * b) * (s * y)) by (nonlinear_arith) requires m == a * s;
        assert((g * l) * (t * x) + (g * l) * (s * y) == g * (l * (t * x + s * y))) by (nonlinear_arith);
        assert(m == l * (t * x + s * y)) by (nonlinear_arith) requires g > 0, g * m == g * (l * (t * x + s * y));
    }
    assert(divides(a, l));
    assert(l == b * a1);
    assert(divides(b, l));
}

/// (a, b) and (c, d) have the same common divisors
#[verifier::opaque]
pub open spec fn same_divisors(a: int, b: int, c: int, d: int) -> bool {
    forall|x: int| (#[trigger] divides(x, a) && divides(x, b)) <==> (divides(x, c) && divides(x, d))
}

proof fn lemma_gcd_step1(x: int, c: int, d: int)
    requires d != 0,
    ensures divides(x, c) && divides(x, d) <==> divides(x, d) && divides(x, rust_rem(c, d)),
{
    lemma_trunc(c, d);
    let q = rust_div(c, d);
    let r = rust_rem(c, d);
    if divides(x, c) && divides(x, d) {
        lemma_divides_lin(x, c, d, 1, -q);
        assert(1 * c + (-q) * d == r) by (nonlinear_arith) requires c == q * d + r;
    }
    if divides(x, d) && divides(x, r) {
        lemma_divides_lin(x, d, r, q, 1);
    }
}

proof fn lemma_sd_at(x: int, a: int, b: int, c: int, d: int)
    requires same_divisors(a, b, c, d),
    ensures divides(x, a) && divides(x, b) <==> divides(x, c) && divides(x, d),
{
    reveal(same_divisors);
    assert(divides(x, a) || !divides(x, a));
}

/// one step of Euclid's algorithm
pub proof fn lemma_gcd_step(a: int, b: int, c: int, d: int)
    requires same_divisors(a, b, c, d), d != 0,
    ensures same_divisors(a, b, d, rust_rem(c, d)),
{
    reveal(same_divisors);
    assert forall|x: int| (#[trigger] divides(x, a) && divides(x, b)) <==> (divides(x, d) && divides(x, rust_rem(c, d))) by {
        lemma_gcd_step1(x, c, d);
        lemma_sd_at(x, a, b, c, d);
    }
}

pub proof fn lemma_gcd_start(a: int, b: int)
    ensures same_divisors(a, b, a, b),
{
    reveal(same_divisors);
}

pub proof fn lemma_gcd_end(a: int, b: int, g: int)
    requires same_divisors(a, b, g, 0), g >= 0,
    ensures is_gcd(g, a, b),
{
    reveal(same_divisors);
    lemma_divides_refl(g);
    assert(divides(g, a) && divides(g, b));
    assert forall|x: int| #[trigger] divides(x, a) && divides(x, b) implies divides(x, g) by {}
}
