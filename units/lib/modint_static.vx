// generated by tools/gen_modint.py
pub trait Modulus: 'static + Sized + Copy {
    const VALUE: u32;
    const HINT_VALUE_IS_PRIME: bool;
    /// required of a modulus (documented: 1 <= m <= 2^31; the hint is only given for primes)
    proof fn law_m()
        ensures 1 <= Self::VALUE <= 0x8000_0000, Self::HINT_VALUE_IS_PRIME ==> is_prime_spec(Self::VALUE as int);
}
//@struct misc/modint.rs | StaticModInt

impl<M> Copy for StaticModInt<M> {}
impl<M> Clone for StaticModInt<M> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}
impl<M: Modulus> StaticModInt<M> {
    pub open spec fn m() -> int { M::VALUE as int }
    pub open spec fn v(self) -> int { self.val as int }
    /// the invariant of the type: the stored value is below the modulus
    pub open spec fn wf(self) -> bool { self.val < M::VALUE as int }
    /// the element whose stored value is the residue of x
    pub open spec fn res(x: int) -> Self { StaticModInt { val: (x % Self::m()) as u32, phantom: PhantomData } }
    pub proof fn lemma_res(x: int)
        ensures Self::res(x).wf(), Self::res(x).v() == x % Self::m(), 1 <= Self::m() <= 0x8000_0000,
    {
        M::law_m();
        lemma_mod_bound(x, Self::m());
    }
    pub proof fn lemma_ops(a: Self, b: Self)
        requires a.wf(), b.wf(),
        ensures
            Self::res(a.v() + b.v()).v() == if a.v() + b.v() < Self::m() { a.v() + b.v() } else { a.v() + b.v() - Self::m() },
            Self::res(a.v() - b.v()).v() == if a.v() >= b.v() { a.v() - b.v() } else { a.v() - b.v() + Self::m() },
            Self::res(a.v() * b.v()).v() == (a.v() * b.v()) % Self::m(), 0 <= a.v() * b.v() <= 0x7fff_ffff * 0x7fff_ffff,
            Self::res(0).v() == 0, 1 <= Self::m() <= 0x8000_0000,
            forall|x: int| #[trigger] Self::res(x).wf(),
    {
        M::law_m();
        lemma_add_reduce(a.v(), b.v(), Self::m());
        lemma_sub_reduce(a.v(), b.v(), Self::m());
        lemma_mod_bound(a.v() * b.v(), Self::m());
        let (x, y) = (a.v(), b.v());
        assert(0 <= x * y <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= x <= 0x7fff_ffff, 0 <= y <= 0x7fff_ffff;
        assert forall|x: int| #[trigger] Self::res(x).wf() by { Self::lemma_res(x); }
        lemma_small_mod(0, Self::m() as nat);
    }
    pub proof fn lemma_same(a: Self)
        requires a.wf(),
        ensures Self::res(a.v()) == a,
    {
        lemma_small_mod(a.v() as nat, Self::m() as nat);
    }
}
impl<M: Modulus> StaticModInt<M> {
//@fn misc/modint.rs | StaticModInt::modulus | ret=r
//@spec
    ensures r as int == Self::m(),
//@end

//@fn misc/modint.rs | StaticModInt::raw | ret=r
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@entry
    proof { lemma_small_mod(val as nat, Self::m() as nat); }
//@end
//@fn misc/modint.rs | StaticModInt::val | ret=r
//@spec
    ensures r as int == self.v(),
//@end
//@fn misc/modint.rs | StaticModInt@ModIntBase::modulus | ret=r | as=base_modulus
//@spec
    ensures r as int == Self::m(),
//@end
//@fn misc/modint.rs | StaticModInt@ModIntBase::raw | ret=r | as=base_raw
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@end
//@fn misc/modint.rs | StaticModInt@ModIntBase::val | ret=r | as=base_val
//@spec
    ensures r as int == self.v(),
//@end

//@fn misc/modint.rs | StaticModInt::new | ret=r
//@spec
    ensures r.wf(), r == Self::res(val.int_val()), r.v() == val.int_val() % Self::m(),
//@entry
    proof {
        Self::lemma_res(val.int_val());
        let x = val.int_val() % Self::m();
        lemma_small_mod(x as nat, Self::m() as nat);
    }
//@end

//@fn misc/modint.rs | trait ModIntBase::new | ret=r | as=base_new
//@spec
    ensures r.wf(), r == Self::res(val.int_val()), r.v() == val.int_val() % Self::m(),
//@entry
    proof {
        Self::lemma_res(val.int_val());
        let x = val.int_val() % Self::m();
        lemma_small_mod(x as nat, Self::m() as nat);
    }
//@end

//@fn misc/modint.rs | trait ModIntBase::pow | ret=r | as=base_pow
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires self.wf(),
    ensures r.wf(), r.v() == pow(self.v(), n as nat) % Self::m(),
//@entry
    let ghost (n0, mm) = (n as nat, Self::m());
    proof {
        Self::lemma_res(1);
        lemma_pow0_all();
    }
//@loop 0
    invariant
        r.wf(), x.wf(),
        pow_inv(r.v(), x.v(), n as nat, self.v(), n0, mm),
    decreases n as int,
//@at loop0.before
    proof { lemma_pow_start(r.v(), x.v(), n as nat, self.v(), mm); }
//@at loop0.head
    proof {
        lemma_pow_step(r.v(), x.v(), n as nat, self.v(), n0, mm);
        Self::lemma_res(r.v() * x.v());
        Self::lemma_res(x.v() * x.v());
        assert(n & 1 == n % 2) by (bit_vector);
        assert(n >> 1 == n / 2) by (bit_vector);
    }
//@at loop0.after
    proof { lemma_pow_end(r.v(), x.v(), self.v(), n0, mm); }
//@end

//@fn misc/modint.rs | StaticModInt::pow | ret=r
//@subst <Self as ModIntBase>::pow ==> Self::base_pow
//@spec
    requires self.wf(),
    ensures r.wf(), r.v() == pow(self.v(), n as nat) % Self::m(),
//@end

//@fn misc/modint.rs | trait InternalImplementations::default_impl | ret=r
//@spec
    ensures r.wf(), r == Self::res(0), r.v() == 0,
//@entry
    proof { Self::lemma_res(0); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::add_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() + rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::sub_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() - rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::neg_impl | ret=r
//@spec
    requires this.wf(),
    ensures r.wf(), r == Self::res(-this.v()),
//@entry
    proof { Self::lemma_ops(this, this); Self::lemma_ops(Self::res(0), this); Self::lemma_same(this); }
//@exit
    proof { Self::lemma_same(r); }
//@end

//@fn misc/modint.rs | StaticModInt@InternalImplementations::mul_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() * rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
}

impl<M: Modulus> StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@From::from | ret=r | as=from_prim | hdr=impl<M: Modulus, V: RemEuclidU32> From<V> for StaticModInt<M>
//@subst fn from(from: V) ==> fn from<V: RemEuclidU32>(from: V)
//@spec
    ensures r.wf(), r == Self::res(from.int_val()), r.v() == from.int_val() % Self::m(),
//@end
}

impl<M: Modulus> NegSpecImpl for StaticModInt<M> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> StaticModInt<M> { StaticModInt::<M>::res(-self.v()) }
}
impl<M: Modulus> Neg for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Neg::neg | ret=r | novis | hdr=impl<M: Modulus> Neg for StaticModInt<M>
//@end
}

impl<M: Modulus> NegSpecImpl for &'_ StaticModInt<M> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> StaticModInt<M> { StaticModInt::<M>::res(-self.v()) }
}
impl<M: Modulus> Neg for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Neg::neg | ret=r | novis | hdr=impl<M: Modulus> Neg for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus> AddSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> Add<StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Add::add#S | ret=r | novis | hdr=impl<M: Modulus> Add<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> AddAssignSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_assign_spec(&self, rhs: StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> AddAssign<StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@AddAssign::add_assign#S | novis | hdr=impl<M: Modulus> AddAssign<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> AddSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> Add<&'_ StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Add::add#& | ret=r | novis | hdr=impl<M: Modulus> Add<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> AddAssignSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_assign_spec(&self, rhs: &'_ StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> AddAssign<&'_ StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@AddAssign::add_assign#& | novis | hdr=impl<M: Modulus> AddAssign<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> AddSpecImpl<StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> Add<StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Add::add#S& | ret=r | novis | hdr=impl<M: Modulus> Add<StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus> AddSpecImpl<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() + rhs.v()) }
}
impl<M: Modulus> Add<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Add::add#&& | ret=r | novis | hdr=impl<M: Modulus> Add<&'_ StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus, T: RemEuclidU32> AddSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: T) -> bool { self.wf() }
    open spec fn add_spec(self, rhs: T) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() + rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> Add<T> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Add::add#T | ret=r | novis | hdr=impl<M: Modulus, T: RemEuclidU32> Add<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_add_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus, T: RemEuclidU32> AddAssignSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn add_assign_spec(&self, rhs: T) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() + rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> AddAssign<T> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@AddAssign::add_assign#T | novis | hdr=impl<M: Modulus, T: RemEuclidU32> AddAssign<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_add_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus> SubSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> Sub<StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Sub::sub#S | ret=r | novis | hdr=impl<M: Modulus> Sub<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> SubAssignSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_assign_spec(&self, rhs: StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> SubAssign<StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@SubAssign::sub_assign#S | novis | hdr=impl<M: Modulus> SubAssign<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> SubSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> Sub<&'_ StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Sub::sub#& | ret=r | novis | hdr=impl<M: Modulus> Sub<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> SubAssignSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_assign_spec(&self, rhs: &'_ StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> SubAssign<&'_ StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@SubAssign::sub_assign#& | novis | hdr=impl<M: Modulus> SubAssign<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> SubSpecImpl<StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> Sub<StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Sub::sub#S& | ret=r | novis | hdr=impl<M: Modulus> Sub<StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus> SubSpecImpl<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() - rhs.v()) }
}
impl<M: Modulus> Sub<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Sub::sub#&& | ret=r | novis | hdr=impl<M: Modulus> Sub<&'_ StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus, T: RemEuclidU32> SubSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: T) -> bool { self.wf() }
    open spec fn sub_spec(self, rhs: T) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() - rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> Sub<T> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Sub::sub#T | ret=r | novis | hdr=impl<M: Modulus, T: RemEuclidU32> Sub<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_sub_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus, T: RemEuclidU32> SubAssignSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn sub_assign_spec(&self, rhs: T) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() - rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> SubAssign<T> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@SubAssign::sub_assign#T | novis | hdr=impl<M: Modulus, T: RemEuclidU32> SubAssign<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_sub_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus> MulSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> Mul<StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Mul::mul#S | ret=r | novis | hdr=impl<M: Modulus> Mul<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> MulAssignSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_assign_spec(&self, rhs: StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> MulAssign<StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@MulAssign::mul_assign#S | novis | hdr=impl<M: Modulus> MulAssign<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> MulSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> Mul<&'_ StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Mul::mul#& | ret=r | novis | hdr=impl<M: Modulus> Mul<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> MulAssignSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_assign_spec(&self, rhs: &'_ StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> MulAssign<&'_ StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@MulAssign::mul_assign#& | novis | hdr=impl<M: Modulus> MulAssign<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> MulSpecImpl<StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> Mul<StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Mul::mul#S& | ret=r | novis | hdr=impl<M: Modulus> Mul<StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus> MulSpecImpl<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * rhs.v()) }
}
impl<M: Modulus> Mul<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Mul::mul#&& | ret=r | novis | hdr=impl<M: Modulus> Mul<&'_ StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus, T: RemEuclidU32> MulSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: T) -> bool { self.wf() }
    open spec fn mul_spec(self, rhs: T) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> Mul<T> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Mul::mul#T | ret=r | novis | hdr=impl<M: Modulus, T: RemEuclidU32> Mul<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_mul_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus, T: RemEuclidU32> MulAssignSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn mul_assign_spec(&self, rhs: T) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * rhs.int_val()) }
}
impl<M: Modulus, T: RemEuclidU32> MulAssign<T> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@MulAssign::mul_assign#T | novis | hdr=impl<M: Modulus, T: RemEuclidU32> MulAssign<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_mul_mod_noop_right(self.v(), rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}
