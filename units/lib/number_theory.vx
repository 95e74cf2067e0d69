//@fn math/number_theory.rs | gcd | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires a.v() >= 0, b.v() >= 0,
    ensures is_gcd(ret.v(), a.v(), b.v()),
//@entry
    let ghost a0 = a.v();
    let ghost b0 = b.v();
    proof {
        law_all::<T>();
        lemma_gcd_start(a0, b0);
    }
//@loop 0
    invariant
        a.v() >= 0, b.v() >= 0,
        same_divisors(a0, b0, a.v(), b.v()),
    decreases b.v(),
//@at loop0.head
    proof {
        law_div_nn::<T>(a, b);
        lemma_trunc(a.v(), b.v());
        lemma_gcd_step(a0, b0, a.v(), b.v());
    }
//@at loop0.after
    proof { lemma_gcd_end(a0, b0, a.v()); }
//@end

pub proof fn law_all<T: Integral>()
    ensures
        <T as PartialEqSpec<T>>::obeys_eq_spec(),
        forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.v() == b.v()),
        T::zero_val().v() == 0, T::one_val().v() == 1,
        forall|a: T| T::lo() <= #[trigger] a.v() <= T::hi(),
        T::lo() <= 0,
{
    assert forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.v() == b.v()) by { T::law_eq(a, b); }
    assert forall|a: T| T::lo() <= #[trigger] a.v() <= T::hi() by { T::law_range(a); }
    let z = T::zero_val();
    T::law_range(z);
    T::law_eq(z, z);
}

/// division of non-negative values by positive ones
pub proof fn law_div_nn<T: Integral>(a: T, b: T)
    requires a.v() >= 0, b.v() > 0,
    ensures
        <T as DivSpec<T>>::obeys_div_spec(), a.div_req(b), a.div_spec(b).v() == a.v() / b.v(),
        <T as RemSpec<T>>::obeys_rem_spec(), a.rem_req(b), a.rem_spec(b).v() == a.v() % b.v(),
        a.v() % b.v() == rust_rem(a.v(), b.v()),
        a.v() / b.v() == rust_div(a.v(), b.v()),
{
    T::law_range(a);
    lemma_trunc(a.v(), b.v());
    let q = rust_div(a.v(), b.v());
    let y = b.v();
    assert(abs(q) <= abs(q) * abs(y)) by (nonlinear_arith) requires y >= 1;
    T::law_div(a, b);
}

//@fn math/number_theory.rs | lcm | ret=ret
//@spec
    requires a.v() >= 0, b.v() >= 0, a.v() != 0 || b.v() != 0, a.v() * b.v() <= T::hi(),
    ensures is_lcm(ret.v(), a.v(), b.v()),
//@entry
    proof {
        law_all::<T>();
        let x = a.v();
        let y = b.v();
        assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
        T::law_mul(a, b);
        let p = a.mul_spec(b);
        let pv = p.v();
        assert(pv == x * y);
        assert forall|g: T| #[trigger] is_gcd(g.v(), a.v(), b.v()) implies g.v() > 0 && is_lcm(pv / g.v(), x, y)
            && <T as DivSpec<T>>::obeys_div_spec() && p.div_req(g) && p.div_spec(g).v() == pv / g.v() by {
            assert(g.v() != 0) by { if g.v() == 0 { if x != 0 { lemma_divides_le(g.v(), x); } else { lemma_divides_le(g.v(), y); } } }
            lemma_lcm(g.v(), x, y);
            law_div_nn::<T>(p, g);
        }
    }
//@end

/// all values computed by ex_gcd(a, b) are representable
pub open spec fn exg_ok<T: Integral>(a: int, b: int) -> bool
    decreases abs(b),
    via exg_ok_decreases::<T>
{
    b == 0 || {
        let t = exg(b, rust_rem(a, b));
        &&& T::lo() <= rust_div(a, b) <= T::hi()
        &&& exg_ok::<T>(b, rust_rem(a, b))
        &&& T::lo() <= rust_div(a, b) * t.1 <= T::hi()
        &&& T::lo() <= t.0 - rust_div(a, b) * t.1 <= T::hi()
    }
}

#[via_fn]
proof fn exg_ok_decreases<T: Integral>(a: int, b: int) {
    if b != 0 { lemma_trunc(a, b); }
}

/// in a type whose negatives are representable, ex_gcd is defined on all inputs except the least value
pub proof fn lemma_exg_ok<T: Integral>(a: int, b: int)
    requires T::lo() <= -T::hi(), T::hi() >= 1, abs(a) <= T::hi(), abs(b) <= T::hi(),
    ensures exg_ok::<T>(a, b),
    decreases abs(b),
{
    if b != 0 {
        lemma_trunc(a, b);
        let q = rust_div(a, b);
        let r = rust_rem(a, b);
        lemma_exg_ok::<T>(b, r);
        lemma_exg(b, r);
        let t = exg(b, r);
        assert(abs(q) <= abs(q) * abs(b)) by (nonlinear_arith) requires abs(b) >= 1;
        if r == 0 {
            assert(t == (1int, 0int, b));
            assert(q * 0 == 0);
        } else {
            assert(abs(q * t.1) <= abs(q) * abs(b)) by (nonlinear_arith) requires abs(t.1) <= abs(b);
        }
    }
}

proof fn lemma_ex_gcd_mul<T: Integral>(q: T, t: int)
    requires T::lo() <= q.v() * t <= T::hi(),
    ensures
        <T as MulSpec<T>>::obeys_mul_spec(),
        forall|y: T| #![trigger q.mul_req(y)] #![trigger q.mul_spec(y)] y.v() == t ==> q.mul_req(y) && q.mul_spec(y).v() == q.v() * t,
{
    let z = T::zero_val();
    T::law_range(z);
    T::law_mul(z, z);
    assert forall|y: T| #![trigger q.mul_req(y)] #![trigger q.mul_spec(y)] y.v() == t implies q.mul_req(y) && q.mul_spec(y).v() == q.v() * t by { T::law_mul(q, y); }
}
proof fn lemma_ex_gcd_sub<T: Integral>(t: int, u: int)
    requires T::lo() <= t - u <= T::hi(),
    ensures
        <T as SubSpec<T>>::obeys_sub_spec(),
        forall|x: T, z: T| #![trigger x.sub_req(z)] #![trigger x.sub_spec(z)] x.v() == t && z.v() == u ==> x.sub_req(z) && x.sub_spec(z).v() == t - u,
{
    let z = T::zero_val();
    T::law_range(z);
    T::law_sub(z, z);
    assert forall|x: T, z: T| #![trigger x.sub_req(z)] #![trigger x.sub_spec(z)] x.v() == t && z.v() == u implies x.sub_req(z) && x.sub_spec(z).v() == t - u by { T::law_sub(x, z); }
}

//@fn math/number_theory.rs | ex_gcd | ret=ret
//@spec
    requires exg_ok::<T>(a.v(), b.v()),
    ensures
        (ret.0.v(), ret.1.v(), ret.2.v()) == exg(a.v(), b.v()),
        bezout(ret.0.v(), ret.1.v(), ret.2.v(), a.v(), b.v()),
        a.v() >= 0 && b.v() >= 0 ==> is_gcd(ret.2.v(), a.v(), b.v()),
    decreases abs(b.v()),
//@entry
    proof {
        law_all::<T>();
        let (xa, xb) = (a.v(), b.v());
        lemma_exg(xa, xb);
        let e = exg(xa, xb);
        if xa >= 0 && xb >= 0 { lemma_bezout_gcd(e.0, e.1, e.2, xa, xb); }
        if xb != 0 {
            T::law_div(a, b);
            lemma_trunc(xa, xb);
            let q = a.div_spec(b);
            let t = exg(xb, rust_rem(xa, xb));
            lemma_ex_gcd_mul::<T>(q, t.1);
            lemma_ex_gcd_sub::<T>(t.0, q.v() * t.1);
        }
    }
//@end
