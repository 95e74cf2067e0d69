/// t satisfies the first n congruences a[k] t = b[k] (mod m[k])
pub open spec fn solves(a: Seq<i64>, b: Seq<i64>, m: Seq<i64>, n: int, t: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] cong(a[k] as int, b[k] as int, m[k] as int, t)
}

/// a t = b (mod m)
pub open spec fn cong(a: int, b: int, m: int, t: int) -> bool {
    divides(m, a * t - b)
}

pub open spec fn fits(x: int) -> bool {
    -0x7fff_ffff_ffff_ffff <= x <= 0x7fff_ffff_ffff_ffff
}

/// the values ex_crt computes from congruence i on, starting from solution x modulo l, fit in i64
pub open spec fn crt_fits(a: Seq<i64>, b: Seq<i64>, m: Seq<i64>, i: int, x: int, l: int) -> bool
    decreases a.len() - i,
{
    i >= a.len() || {
        let aa = a[i] * l;
        let bb = b[i] - a[i] * x;
        let e = exg(aa, m[i] as int);
        let m1 = rust_div(m[i] as int, e.2);
        let x1 = x + l * rust_rem(e.0 * rust_div(bb, e.2), m1);
        let l1 = l * abs(m1);
        &&& fits(aa) && fits(a[i] * x) && fits(bb)
        &&& rust_rem(bb, e.2) == 0 ==> fits(l1) && crt_fits(a, b, m, i + 1, x1, l1)
    }
}

/// t = x (mod l) is exactly the solution set
#[verifier::opaque]
pub open spec fn sol_set(a: Seq<i64>, b: Seq<i64>, m: Seq<i64>, n: int, x: int, l: int) -> bool {
    forall|t: int| #[trigger] solves(a, b, m, n, t) <==> divides(l, t - x)
}

pub proof fn lemma_rem_cong(p: int, m: int)
    requires m != 0,
    ensures divides(m, p - rust_rem(p, m)),
{
    lemma_trunc(p, m);
    let q = rust_div(p, m);
    lemma_divides(m, q);
    assert(m * q == p - rust_rem(p, m)) by (nonlinear_arith) requires p == q * m + rust_rem(p, m);
}

/// exact division
pub proof fn lemma_div_exact(p: int, g: int)
    requires g != 0, rust_rem(p, g) == 0,
    ensures p == g * rust_div(p, g), divides(g, p),
{
    lemma_trunc(p, g);
    let q = rust_div(p, g);
    lemma_divides(g, q);
    assert(p == g * q) by (nonlinear_arith) requires p == q * g;
}

pub proof fn lemma_divides_rem(p: int, g: int)
    requires g != 0, divides(g, p),
    ensures rust_rem(p, g) == 0,
{
    lemma_trunc(p, g);
    let r = rust_rem(p, g);
    let q = rust_div(p, g);
    lemma_divides_refl(g);
    lemma_divides_lin(g, p, g, 1, -q);
    assert(1 * p + (-q) * g == r) by (nonlinear_arith) requires p == q * g + r;
    if r != 0 { lemma_divides_le(g, r); }
}

/// (A u = B mod m) for A = g A1, B = g B1, m = g m1 and A y + m z = g is u = c (mod m1) where c = y B1 (mod m1)
pub proof fn lemma_lin_cong(aa: int, bb: int, m: int, y: int, z: int, g: int, b1: int, m1: int, c: int, u: int)
    requires g != 0, bezout(y, z, g, aa, m), bb == g * b1, m == g * m1, m1 != 0, divides(m1, y * b1 - c),
    ensures divides(m, aa * u - bb) <==> divides(m1, u - c),
{
    lemma_quot(g, aa);
    let a1 = quot(g, aa);
    assert(a1 * y + m1 * z == 1) by (nonlinear_arith) requires aa == g * a1, m == g * m1, aa * y + m * z == g, g != 0;
    let d = u - c;
    lemma_quot(m1, y * b1 - c);
    let k = quot(m1, y * b1 - c);
    assert(aa * u - bb == g * (a1 * u - b1)) by (nonlinear_arith) requires aa == g * a1, bb == g * b1;
    if divides(m, aa * u - bb) {
        lemma_quot(m, aa * u - bb);
        let w = quot(m, aa * u - bb);
        assert(a1 * u - b1 == m1 * w) by (nonlinear_arith) requires g * (a1 * u - b1) == m * w, m == g * m1, g != 0;
        // u - y b1 = y (a1 u - b1) + m1 z u
        assert(y * (a1 * u - b1) == (a1 * y) * u - y * b1) by (nonlinear_arith);
        assert((1 - m1 * z) * u == u - m1 * (z * u)) by (nonlinear_arith);
        assert(u - y * b1 == y * (m1 * w) + m1 * (z * u));
        assert(y * (m1 * w) + m1 * (z * u) + m1 * k == m1 * (y * w + z * u + k)) by (nonlinear_arith);
        lemma_divides(m1, y * w + z * u + k);
    }
    if divides(m1, d) {
        lemma_quot(m1, d);
        let w = quot(m1, d);
        // a1 u - b1 = a1 (c + m1 w) - b1 with c = y b1 - m1 k
        assert(a1 * u == a1 * (y * b1 - m1 * k + m1 * w)) by { assert(u == y * b1 - m1 * k + m1 * w); }
        assert(a1 * (y * b1 - m1 * k + m1 * w) == (a1 * y) * b1 + m1 * (a1 * (w - k))) by (nonlinear_arith);
        assert((1 - m1 * z) * b1 == b1 - m1 * (z * b1)) by (nonlinear_arith);
        assert(m1 * (a1 * (w - k)) - m1 * (z * b1) == m1 * (a1 * (w - k) - z * b1)) by (nonlinear_arith);
        let v = a1 * (w - k) - z * b1;
        assert(a1 * u - b1 == m1 * v);
        assert(g * (m1 * v) == m * v) by (nonlinear_arith) requires m == g * m1;
        lemma_divides(m, v);
    }
}

/// one more congruence
pub proof fn lemma_crt_step(a: Seq<i64>, b: Seq<i64>, m: Seq<i64>, i: int, x: int, l: int)
    requires 0 <= i, sol_set(a, b, m, i, x, l), l >= 1, m[i] > 0,
    ensures
        ({
            let aa = a[i] * l;
            let bb = b[i] - a[i] * x;
            let e = exg(aa, m[i] as int);
            let m1 = rust_div(m[i] as int, e.2);
            let c = rust_rem(e.0 * rust_div(bb, e.2), m1);
            &&& e.2 != 0 && abs(e.2) <= m[i] && m1 != 0 && abs(m1) <= m[i] && abs(c) < abs(m1)
            &&& rust_rem(m[i] as int, e.2) == 0
            &&& abs(e.0) <= m[i]
            &&& rust_rem(bb, e.2) != 0 ==> forall|t: int| !#[trigger] solves(a, b, m, i + 1, t)
            &&& rust_rem(bb, e.2) == 0 ==> sol_set(a, b, m, i + 1, x + l * c, l * abs(m1)) && l * abs(m1) >= 1 && abs(l * c) + l <= l * abs(m1)
        }),
{
    reveal(sol_set);
    let (ai, bi, mi) = (a[i] as int, b[i] as int, m[i] as int);
    let aa = ai * l;
    let bb = bi - ai * x;
    let e = exg(aa, mi);
    lemma_exg(aa, mi);
    let (y, z, g) = e;
    lemma_divides_le(g, mi);
    lemma_divides_rem(mi, g);
    lemma_div_exact(mi, g);
    let m1 = rust_div(mi, g);
    assert(m1 != 0) by (nonlinear_arith) requires mi == g * m1, mi > 0;
    lemma_divides(m1, g);
    assert(m1 * g == mi) by (nonlinear_arith) requires mi == g * m1;
    lemma_divides_le(m1, mi);
    let b1 = rust_div(bb, g);
    let c = rust_rem(y * b1, m1);
    lemma_trunc(y * b1, m1);
    assert forall|t: int| #[trigger] solves(a, b, m, i + 1, t) <==> solves(a, b, m, i, t) && cong(ai, bi, mi, t) by {
        if solves(a, b, m, i + 1, t) { assert(cong(a[i] as int, b[i] as int, m[i] as int, t)); }
    }
    if rust_rem(bb, g) != 0 {
        assert forall|t: int| !#[trigger] solves(a, b, m, i + 1, t) by {
            if solves(a, b, m, i + 1, t) {
                lemma_quot(l, t - x);
                let u = quot(l, t - x);
                assert(ai * t - bi == aa * u - bb) by (nonlinear_arith) requires t - x == l * u, aa == ai * l, bb == bi - ai * x;
                lemma_divides_trans(g, mi, aa * u - bb);
                lemma_divides_lin(g, aa, aa * u - bb, u, -1);
                assert(u * aa + (-1) * (aa * u - bb) == bb) by (nonlinear_arith);
                lemma_divides_rem(bb, g);
            }
        }
    } else {
        lemma_div_exact(bb, g);
        lemma_rem_cong(y * b1, m1);
        let x1 = x + l * c;
        let l1 = l * abs(m1);
        assert(l1 >= 1) by (nonlinear_arith) requires l1 == l * abs(m1), l >= 1, abs(m1) >= 1;
        assert(abs(l * c) == l * abs(c)) by (nonlinear_arith) requires l >= 1;
        assert(l * abs(c) + l <= l * abs(m1)) by (nonlinear_arith) requires abs(c) + 1 <= abs(m1), l >= 1;
        assert forall|t: int| #[trigger] solves(a, b, m, i + 1, t) <==> divides(l1, t - x1) by {
            if divides(l, t - x) {
                lemma_quot(l, t - x);
                let u = quot(l, t - x);
                assert(ai * t - bi == aa * u - bb) by (nonlinear_arith) requires t - x == l * u, aa == ai * l, bb == bi - ai * x;
                lemma_lin_cong(aa, bb, mi, y, z, g, b1, m1, c, u);
                assert(t - x1 == l * (u - c)) by (nonlinear_arith) requires t - x == l * u, x1 == x + l * c;
                lemma_scale(l, m1, u - c);
                assert(cong(ai, bi, mi, t) <==> divides(m1, u - c));
            } else if divides(l1, t - x1) {
                lemma_divides(l, abs(m1));
                lemma_divides_trans(l, l1, t - x1);
                lemma_divides(l, c);
                lemma_divides_lin(l, t - x1, l * c, 1, 1);
                assert(1 * (t - x1) + 1 * (l * c) == t - x);
            }
        }
    }
}

pub proof fn lemma_scale(l: int, m: int, d: int)
    requires l >= 1,
    ensures divides(m, d) <==> divides(l * abs(m), l * d),
{
    if divides(m, d) {
        lemma_divides_neg(m, d);
        lemma_quot(abs(m), d);
        let k = quot(abs(m), d);
        let am = abs(m);
        lemma_divides(l * am, k);
        assert((l * am) * k == l * d) by (nonlinear_arith) requires d == am * k;
    }
    if divides(l * abs(m), l * d) {
        lemma_quot(l * abs(m), l * d);
        let k = quot(l * abs(m), l * d);
        let am = abs(m);
        assert(d == am * k) by (nonlinear_arith) requires l * d == (l * am) * k, l >= 1;
        lemma_divides(am, k);
        lemma_divides_neg(am, d);
    }
}

/// y * b % m in i128
pub proof fn lemma_wide_rem(y: int, b: int, m: int)
    requires m != 0, fits(m), fits(y), fits(b),
    ensures
        (y as i128) == y, (b as i128) == b, (m as i128) == m,
        i128::MIN <= y * b <= i128::MAX,
        <i128 as RemSpec<i128>>::obeys_rem_spec(), RemSpec::rem_req((y * b) as i128, m as i128), RemSpec::rem_spec((y * b) as i128, m as i128) == rust_rem(y * b, m),
{
    let p = y * b;
    assert(abs(p) <= 0x4000_0000_0000_0000_0000_0000_0000_0000) by (nonlinear_arith)
        requires abs(y) <= 0x8000_0000_0000_0000, abs(b) <= 0x8000_0000_0000_0000, p == y * b;
    lemma_abs_div(p, m);
    let d = rust_div(p, m);
    assert(i128::MIN <= d <= i128::MAX);
    assert((p as i128).v() == p);
    <i128 as Integral>::law_div(p as i128, m as i128);
}

//@fn math/number_theory.rs | ex_crt | ret=ret | divassign
//@spec
    requires
        a@.len() == b@.len() == m@.len(),
        forall|k: int| 0 <= k < m@.len() ==> #[trigger] m@[k] > 0,
        crt_fits(a@, b@, m@, 0, 0, 1),
    ensures
        match ret {
            None => forall|t: int| !#[trigger] solves(a@, b@, m@, a@.len() as int, t),
            Some((s, l)) => l > 0 && 0 <= s < l && forall|t: int| #[trigger] solves(a@, b@, m@, a@.len() as int, t) <==> divides(l as int, t - s),
        },
//@at loop0.before
    proof {
        reveal(sol_set);
        assert forall|t: int| #[trigger] solves(a@, b@, m@, 0, t) <==> divides(1, t - 0) by { lemma_divides_refl(t); }
    }
//@loop 0
    invariant
        n == a@.len(), a@.len() == b@.len() == m@.len(), 0 <= i <= n,
        forall|k: int| 0 <= k < m@.len() ==> #[trigger] m@[k] > 0,
        crt_fits(a@, b@, m@, i as int, x as int, lcm as int),
        lcm >= 1, -lcm < x < lcm,
        sol_set(a@, b@, m@, i as int, x as int, lcm as int),
    decreases n - i,
//@at loop0.head
    proof {
        let (ai, bi, mi, l) = (a@[i as int] as int, b@[i as int] as int, m@[i as int] as int, lcm as int);
        lemma_crt_step(a@, b@, m@, i as int, x as int, l);
        let bb = bi - ai * x;
        let e = exg(ai * l, mi);
        lemma_exg_ok::<i64>(ai * l, mi);
        let m1 = rust_div(mi, e.2);
        let b1 = rust_div(bb, e.2);
        lemma_trunc(bb, e.2);
        lemma_trunc(mi, e.2);
        lemma_abs_div(bb, e.2);
        lemma_abs_div(mi, e.2);
        <i64 as Integral>::law_div(bb as i64, e.2 as i64);
        <i64 as Integral>::law_div(mi as i64, e.2 as i64);
        assert forall|t: int| #[trigger] solves(a@, b@, m@, n as int, t) implies solves(a@, b@, m@, i + 1, t) by {}
        lemma_wide_rem(e.0, b1, m1);
    }
//@at loop0.after
    proof {
        let (x0, l) = (x as int, lcm as int);
        assert forall|t: int| divides(l, t - x0) <==> #[trigger] divides(l, t - (x0 + l)) by {
            lemma_divides_refl(l);
            if divides(l, t - x0) { lemma_divides_lin(l, t - x0, l, 1, -1); assert(1 * (t - x0) + (-1) * l == t - (x0 + l)); }
            if divides(l, t - (x0 + l)) { lemma_divides_lin(l, t - (x0 + l), l, 1, 1); assert(1 * (t - (x0 + l)) + 1 * l == t - x0); }
        }
        reveal(sol_set);
    }
//@end

pub proof fn lemma_abs_div(a: int, b: int)
    requires b != 0,
    ensures abs(rust_div(a, b)) <= abs(a),
{
    lemma_trunc(a, b);
    let q = rust_div(a, b);
    assert(abs(q) <= abs(q) * abs(b)) by (nonlinear_arith) requires abs(b) >= 1;
}
