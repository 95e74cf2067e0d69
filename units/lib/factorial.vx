//@struct math/factorial.rs | Factorial
/// binomial coefficient by Pascal's rule
pub open spec fn binom(n: nat, k: nat) -> nat
    decreases n,
{
    if k > n { 0 } else if k == 0 || k == n { 1 } else { binom((n - 1) as nat, (k - 1) as nat) + binom((n - 1) as nat, k) }
}
/// falling factorial n (n-1) ... (n-k+1)
pub open spec fn falling(n: nat, k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else if k > n { 0 } else { n * falling((n - 1) as nat, (k - 1) as nat) }
}
pub proof fn lemma_falling(n: nat, k: nat)
    requires k <= n,
    ensures falling(n, k) * fact((n - k) as nat) == fact(n),
    decreases k,
{
    if k > 0 {
        lemma_falling((n - 1) as nat, (k - 1) as nat);
        let (a, b, c) = (falling((n - 1) as nat, (k - 1) as nat) as int, fact((n - k) as nat) as int, n as int);
        assert(falling(n, k) == c * a);
        assert(fact(n) == fact((n - 1) as nat) * c);
        assert((n - 1) as nat - (k - 1) as nat == n - k);
        assert(a * b == fact((n - 1) as nat));
        assert((c * a) * b == (a * b) * c) by (nonlinear_arith);
    } else {
        assert(falling(n, k) == 1);
        assert(1 * fact(n) == fact(n));
    }
}
pub proof fn lemma_binom_step(a: int, b: int, f: int, k: int, g: int, d: int)
    ensures (a + b) * ((f * k) * (g * d)) == (a * (f * (g * d))) * k + (b * ((f * k) * g)) * d,
{
    let x = f * k;
    let y = g * d;
    lemma_mul_is_distributive_add_other_way(x * y, a, b);
    assert(a * (x * y) == (a * (f * y)) * k) by {
        assert(x * y == (f * y) * k) by (nonlinear_arith) requires x == f * k;
        lemma_mul_is_associative(a, f * y, k);
    }
    assert(b * (x * y) == (b * (x * g)) * d) by {
        lemma_mul_is_associative(x, g, d);
        lemma_mul_is_associative(b, x * g, d);
    }
}
pub proof fn lemma_binom(n: nat, k: nat)
    requires k <= n,
    ensures binom(n, k) * (fact(k) * fact((n - k) as nat)) == fact(n),
    decreases n,
{
    if k == 0 {
        assert(fact(0) == 1);
    } else if k == n {
        assert(fact(0) == 1);
    } else {
        let m = (n - 1) as nat;
        lemma_binom(m, (k - 1) as nat);
        lemma_binom(m, k);
        let (a, b) = (binom(m, (k - 1) as nat) as int, binom(m, k) as int);
        let (fk1, fd) = (fact((k - 1) as nat) as int, fact((n - k - 1) as nat) as int);
        let (kk, d, f) = (k as int, (n - k) as int, fact(m) as int);
        assert(fact(k) == fk1 * kk);
        assert(fact((n - k) as nat) == fd * d);
        assert((m - (k - 1)) as nat == (n - k) as nat);
        assert((m - k) as nat == (n - k - 1) as nat);
        assert(fact(n) == f * (kk + d));
        let (u, w) = (a * (fk1 * (fd * d)), b * ((fk1 * kk) * fd));
        lemma_binom_step(a, b, fk1, kk, fd, d);
        assert(u == f && w == f);
        assert(f * kk + f * d == f * (kk + d)) by (nonlinear_arith);
    }
}
/// x = c u, i u = 1 (mod p) give x i = c (mod p)
pub proof fn lemma_cancel(x: int, c: int, u: int, i: int, p: int)
    requires p > 0, x % p == (c * u) % p, (i * u) % p == 1int % p,
    ensures (x * i) % p == c % p,
{
    lemma_mul_mod_noop_left(x, i, p);
    lemma_mul_mod_noop_left(c * u, i, p);
    assert((c * u) * i == c * (i * u)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(c, i * u, p);
    lemma_mul_mod_noop_right(c, 1, p);
    assert(c * 1 == c);
}
impl<T: Modulus> Factorial<T> {
    pub open spec fn n(self) -> int { self.factorial@.len() - 1 }
    /// tables of i! and 1/i! modulo p, for i = 0 ..= n
    pub open spec fn wf(self) -> bool {
        &&& is_prime_spec(T::VALUE as int)
        &&& 0 <= self.n() < T::VALUE
        &&& self.inv_fac@.len() == self.factorial@.len()
        &&& forall|i: int| 0 <= i < self.factorial@.len() ==> #[trigger] Self::fac_at(self.factorial@[i], i)
        &&& forall|i: int| 0 <= i < self.factorial@.len() ==> #[trigger] Self::inv_at(self.inv_fac@[i], i)
    }
    pub open spec fn fac_at(x: StaticModInt<T>, i: int) -> bool {
        x.wf() && x.v() == (fact(i as nat) as int) % (T::VALUE as int)
    }
    pub open spec fn inv_at(x: StaticModInt<T>, i: int) -> bool {
        x.wf() && (x.v() * (fact(i as nat) as int)) % (T::VALUE as int) == 1
    }
    pub proof fn lemma_fac_step(x: StaticModInt<T>, y: StaticModInt<T>, i: int)
        requires Self::fac_at(x, i - 1), y == StaticModInt::<T>::res(x.v() * i), i >= 1,
        ensures Self::fac_at(y, i),
    {
        let p = T::VALUE as int;
        T::law_m();
        StaticModInt::<T>::lemma_res(x.v() * i);
        lemma_mul_mod_noop_left(fact((i - 1) as nat) as int, i, p);
    }
    pub proof fn lemma_inv_step(x: StaticModInt<T>, y: StaticModInt<T>, i: int)
        requires Self::inv_at(x, i + 1), y == StaticModInt::<T>::res(x.v() * (i + 1)), i >= 0,
        ensures Self::inv_at(y, i),
    {
        let p = T::VALUE as int;
        T::law_m();
        let f = fact(i as nat) as int;
        StaticModInt::<T>::lemma_res(x.v() * (i + 1));
        lemma_mul_mod_noop_left(x.v() * (i + 1), f, p);
        assert(fact((i + 1) as nat) == f * (i + 1));
        let v = x.v();
        assert((v * (i + 1)) * f == v * (f * (i + 1))) by (nonlinear_arith);
    }

    /// the product of the table entries n!, 1/(n-k)! and 1/k!, reduced at each step, is the binomial coefficient
    pub proof fn lemma_choose(self, n: int, k: int)
        requires self.wf(), 0 <= k <= n <= self.n(),
        ensures ({
            let x = StaticModInt::<T>::res(self.factorial@[n].v() * self.inv_fac@[n - k].v());
            let y = StaticModInt::<T>::res(x.v() * self.inv_fac@[k].v());
            x.wf() && y.wf() && y.v() == binom(n as nat, k as nat) as int % (T::VALUE as int)
        }),
    {
        let p = T::VALUE as int;
        T::law_m();
        lemma_small_mod(1, p as nat);
        let (a, b, c) = (self.factorial@[n].v(), self.inv_fac@[n - k].v(), self.inv_fac@[k].v());
        assert(Self::fac_at(self.factorial@[n], n) && Self::inv_at(self.inv_fac@[n - k], n - k) && Self::inv_at(self.inv_fac@[k], k));
        let x = StaticModInt::<T>::res(a * b);
        StaticModInt::<T>::lemma_res(a * b);
        StaticModInt::<T>::lemma_res(x.v() * c);
        let (q, fk, fd) = (binom(n as nat, k as nat) as int, fact(k as nat) as int, fact((n - k) as nat) as int);
        lemma_binom(n as nat, k as nat);
        assert((q * fk) * fd == q * (fk * fd)) by (nonlinear_arith);
        lemma_mod_twice(fact(n as nat) as int, p);
        lemma_cancel(a, q * fk, fd, b, p);
        lemma_mod_twice(a * b, p);
        lemma_cancel(x.v(), q, fk, c, p);
    }
    pub proof fn lemma_perm(self, n: int, k: int)
        requires self.wf(), 0 <= k <= n <= self.n(),
        ensures ({
            let x = StaticModInt::<T>::res(self.factorial@[n].v() * self.inv_fac@[n - k].v());
            x.wf() && x.v() == falling(n as nat, k as nat) as int % (T::VALUE as int)
        }),
    {
        let p = T::VALUE as int;
        T::law_m();
        lemma_small_mod(1, p as nat);
        let (a, b) = (self.factorial@[n].v(), self.inv_fac@[n - k].v());
        assert(Self::fac_at(self.factorial@[n], n) && Self::inv_at(self.inv_fac@[n - k], n - k));
        StaticModInt::<T>::lemma_res(a * b);
        let (q, fd) = (falling(n as nat, k as nat) as int, fact((n - k) as nat) as int);
        lemma_falling(n as nat, k as nat);
        lemma_mod_twice(fact(n as nat) as int, p);
        lemma_cancel(a, q, fd, b, p);
    }

    /// three factors may be multiplied in any order
    pub proof fn lemma_orders(a: int, b: int, c: int)
        ensures ({
            let w = StaticModInt::<T>::res(StaticModInt::<T>::res(a * b).v() * c).v();
            &&& StaticModInt::<T>::res(StaticModInt::<T>::res(b * a).v() * c).v() == w && StaticModInt::<T>::res(a * StaticModInt::<T>::res(b * c).v()).v() == w
            &&& StaticModInt::<T>::res(StaticModInt::<T>::res(a * c).v() * b).v() == w && StaticModInt::<T>::res(a * StaticModInt::<T>::res(c * b).v()).v() == w
            &&& StaticModInt::<T>::res(StaticModInt::<T>::res(c * a).v() * b).v() == w && StaticModInt::<T>::res(b * StaticModInt::<T>::res(a * c).v()).v() == w
            &&& StaticModInt::<T>::res(StaticModInt::<T>::res(b * c).v() * a).v() == w && StaticModInt::<T>::res(b * StaticModInt::<T>::res(c * a).v()).v() == w
            &&& StaticModInt::<T>::res(StaticModInt::<T>::res(c * b).v() * a).v() == w && StaticModInt::<T>::res(c * StaticModInt::<T>::res(a * b).v()).v() == w
            &&& StaticModInt::<T>::res(c * StaticModInt::<T>::res(b * a).v()).v() == w
        }),
    {
        let t = a * b * c;
        Self::lemma_three(a, b, c);
        Self::lemma_three(b, a, c);
        Self::lemma_three(a, c, b);
        Self::lemma_three(c, a, b);
        Self::lemma_three(b, c, a);
        Self::lemma_three(c, b, a);
        assert(b * a * c == t && a * c * b == t && c * a * b == t && b * c * a == t && c * b * a == t) by (nonlinear_arith) requires t == a * b * c;
    }
    pub proof fn lemma_three(x: int, y: int, z: int)
        ensures
            StaticModInt::<T>::res(StaticModInt::<T>::res(x * y).v() * z).v() == (x * y * z) % (T::VALUE as int),
            StaticModInt::<T>::res(x * StaticModInt::<T>::res(y * z).v()).v() == (x * y * z) % (T::VALUE as int),
    {
        let p = T::VALUE as int;
        T::law_m();
        StaticModInt::<T>::lemma_res(x * y);
        StaticModInt::<T>::lemma_res(y * z);
        StaticModInt::<T>::lemma_res((x * y) % p * z);
        StaticModInt::<T>::lemma_res(x * ((y * z) % p));
        lemma_mul_mod_noop_left(x * y, z, p);
        lemma_mul_mod_noop_right(x, y * z, p);
        assert(x * (y * z) == x * y * z) by (nonlinear_arith);
    }
    /// a product of a number of permutations and an inverse factorial
    pub proof fn lemma_choose_perm(self, n: int, k: int, x: int)
        requires self.wf(), 0 <= k <= n <= self.n(), x == falling(n as nat, k as nat) as int % (T::VALUE as int),
        ensures ({
            let (y, z) = (StaticModInt::<T>::res(x * self.inv_fac@[k].v()), StaticModInt::<T>::res(self.inv_fac@[k].v() * x));
            y.wf() && y.v() == binom(n as nat, k as nat) as int % (T::VALUE as int) && z == y
        }),
    {
        self.lemma_choose(n, k);
        self.lemma_perm(n, k);
        assert(x * self.inv_fac@[k].v() == self.inv_fac@[k].v() * x) by (nonlinear_arith);
    }

//@fn math/factorial.rs | Factorial::new | ret=r
//@attr #[verifier::loop_isolation(false)]
//@subst StaticModInt::from ==> StaticModInt::from_prim
//@spec
    requires is_prime_spec(T::VALUE as int), n < T::VALUE,
    ensures r.wf(), r.n() == n,
//@entry
    proof {
        T::law_m();
        let p = T::VALUE as int;
        lemma_small_mod(1, p as nat);
        lemma_small_mod(0, p as nat);
        lemma_fact_coprime(p, n as nat);
        assert forall|x: StaticModInt<T>, i: int| i >= 1 && Self::fac_at(x, i - 1) implies Self::fac_at(#[trigger] StaticModInt::<T>::res(x.v() * i), i) by {
            Self::lemma_fac_step(x, StaticModInt::<T>::res(x.v() * i), i);
        }
        assert forall|x: StaticModInt<T>, i: int| i >= 0 && Self::inv_at(x, i + 1) implies Self::inv_at(#[trigger] StaticModInt::<T>::res(x.v() * (i + 1)), i) by {
            Self::lemma_inv_step(x, StaticModInt::<T>::res(x.v() * (i + 1)), i);
        }
        assert forall|x: StaticModInt<T>| Self::fac_at(x, n as int) implies #[trigger] x.wf() && inv_ok(x.v(), p) by {
            let f = fact(n as nat) as int;
            lemma_small_mod(x.v() as nat, p as nat);
            assert(x.v() % p != 0);
            lemma_prime_inv(x.v(), p);
        }
        assert forall|x: StaticModInt<T>, y: StaticModInt<T>| Self::fac_at(x, n as int) && #[trigger] is_inv(x.v(), y.v(), p) && y.wf() implies Self::inv_at(y, n as int) by {
            let f = fact(n as nat) as int;
            lemma_mul_mod_noop_left(f, y.v(), p);
            assert(f * y.v() == y.v() * f) by (nonlinear_arith);
        }
    }
//@loop 0
    invariant factorial@.len() == n + 1, inv_fac@.len() == n + 1, 1 <= i <= n + 1, Self::fac_at(factorial@[i - 1], i - 1),
        forall|k: int| 0 <= k < i ==> #[trigger] Self::fac_at(factorial@[k], k),
    decreases n + 1 - i,
//@loop 1
    invariant factorial@.len() == n + 1, inv_fac@.len() == n + 1, vx_k1 <= n, Self::inv_at(inv_fac@[vx_k1 as int], vx_k1 as int),
        forall|k: int| 0 <= k <= n ==> #[trigger] Self::fac_at(factorial@[k], k),
        forall|k: int| vx_k1 <= k <= n ==> #[trigger] Self::inv_at(inv_fac@[k], k),
    decreases vx_k1,
//@end

//@fn math/factorial.rs | Factorial::choose | ret=r
//@spec
    requires self.wf(), k <= n <= self.n(),
    ensures r.wf(), r.v() == binom(n as nat, k as nat) as int % (T::VALUE as int),
//@entry
    proof {
        let p = T::VALUE as int;
        let d = (n - k) as int;
        assert(Self::fac_at(self.factorial@[n as int], n as int) && Self::inv_at(self.inv_fac@[d], d) && Self::inv_at(self.inv_fac@[k as int], k as int));
        self.lemma_choose(n as int, k as int);
        Self::lemma_orders(self.factorial@[n as int].v(), self.inv_fac@[d].v(), self.inv_fac@[k as int].v());
        self.lemma_choose_perm(n as int, k as int, falling(n as nat, k as nat) as int % p);
    }
//@end

//@fn math/factorial.rs | Factorial::perm | ret=r
//@spec
    requires self.wf(), k <= n <= self.n(),
    ensures r.wf(), r.v() == falling(n as nat, k as nat) as int % (T::VALUE as int),
//@entry
    proof {
        let p = T::VALUE as int;
        let d = (n - k) as int;
        assert(Self::fac_at(self.factorial@[n as int], n as int) && Self::inv_at(self.inv_fac@[d], d) && Self::inv_at(self.inv_fac@[k as int], k as int));
        self.lemma_perm(n as int, k as int);
        assert(self.factorial@[n as int].v() * self.inv_fac@[d].v() == self.inv_fac@[d].v() * self.factorial@[n as int].v()) by (nonlinear_arith);
    }
//@end
}
