// generated by tools/gen_modint.py
//@struct misc/modint.rs | DynamicModInt

impl<I> Copy for DynamicModInt<I> {}
impl<I> Clone for DynamicModInt<I> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}
impl<I: Id> DynamicModInt<I> {
    pub open spec fn m() -> int { I::modulus_spec() as int }
    pub open spec fn v(self) -> int { self.val as int }
    /// the invariant of the type: the stored value is below the modulus
    pub open spec fn wf(self) -> bool { self.val < I::modulus_spec() as int }
    /// the element whose stored value is the residue of x
    pub open spec fn res(x: int) -> Self { DynamicModInt { val: (x % Self::m()) as u32, phantom: PhantomData } }
    pub proof fn lemma_res(x: int)
        ensures Self::res(x).wf(), Self::res(x).v() == x % Self::m(), 1 <= Self::m() <= 0x8000_0000,
    {
        I::law_m();
        lemma_mod_bound(x, Self::m());
    }
    pub proof fn lemma_ops(a: Self, b: Self)
        requires a.wf(), b.wf(),
        ensures
            Self::res(a.v() + b.v()).v() == if a.v() + b.v() < Self::m() { a.v() + b.v() } else { a.v() + b.v() - Self::m() },
            Self::res(a.v() - b.v()).v() == if a.v() >= b.v() { a.v() - b.v() } else { a.v() - b.v() + Self::m() },
            Self::res(a.v() * b.v()).v() == (a.v() * b.v()) % Self::m(), 0 <= a.v() * b.v() <= 0x7fff_ffff * 0x7fff_ffff,
            Self::res(0).v() == 0, 1 <= Self::m() <= 0x8000_0000,
            forall|x: int| #[trigger] Self::res(x).wf(),
    {
        I::law_m();
        lemma_add_reduce(a.v(), b.v(), Self::m());
        lemma_sub_reduce(a.v(), b.v(), Self::m());
        lemma_mod_bound(a.v() * b.v(), Self::m());
        let (x, y) = (a.v(), b.v());
        assert(0 <= x * y <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= x <= 0x7fff_ffff, 0 <= y <= 0x7fff_ffff;
        assert forall|x: int| #[trigger] Self::res(x).wf() by { Self::lemma_res(x); }
        lemma_small_mod(0, Self::m() as nat);
    }
    pub proof fn lemma_same(a: Self)
        requires a.wf(),
        ensures Self::res(a.v()) == a,
    {
        lemma_small_mod(a.v() as nat, Self::m() as nat);
    }
}
impl<I: Id> DynamicModInt<I> {
//@fn misc/modint.rs | DynamicModInt::modulus | ret=r
//@spec
    ensures r as int == Self::m(),
//@end

//@fn misc/modint.rs | DynamicModInt::set_modulus
//@subst fn set_modulus(modulus: u32) ==> fn set_modulus(vx_barrett: &mut Barrett, modulus: u32)
//@subst I::companion_barrett() ==> vx_barrett
//@spec
    requires 1 <= modulus <= 0x8000_0000,
    ensures final(vx_barrett).wf(), final(vx_barrett).spec_m() == modulus,
//@end

//@fn misc/modint.rs | DynamicModInt::raw | ret=r
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@entry
    proof { lemma_small_mod(val as nat, Self::m() as nat); }
//@end
//@fn misc/modint.rs | DynamicModInt::val | ret=r
//@spec
    ensures r as int == self.v(),
//@end
//@fn misc/modint.rs | DynamicModInt@ModIntBase::modulus | ret=r | as=base_modulus
//@spec
    ensures r as int == Self::m(),
//@end
//@fn misc/modint.rs | DynamicModInt@ModIntBase::raw | ret=r | as=base_raw
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@end
//@fn misc/modint.rs | DynamicModInt@ModIntBase::val | ret=r | as=base_val
//@spec
    ensures r as int == self.v(),
//@end

//@fn misc/modint.rs | trait ModIntBase::new | ret=r | as=base_new
//@spec
    ensures r.wf(), r == Self::res(val.int_val()), r.v() == val.int_val() % Self::m(),
//@entry
    proof {
        Self::lemma_res(val.int_val());
        let x = val.int_val() % Self::m();
        lemma_small_mod(x as nat, Self::m() as nat);
    }
//@end

//@fn misc/modint.rs | DynamicModInt::new | ret=r
//@subst <Self as ModIntBase>::new ==> Self::base_new
//@spec
    ensures r.wf(), r == Self::res(val.int_val()), r.v() == val.int_val() % Self::m(),
//@entry
    proof {
        Self::lemma_res(val.int_val());
        let x = val.int_val() % Self::m();
        lemma_small_mod(x as nat, Self::m() as nat);
    }
//@end

//@fn misc/modint.rs | trait ModIntBase::pow | ret=r | as=base_pow
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires self.wf(),
    ensures r.wf(), r.v() == pow(self.v(), n as nat) % Self::m(),
//@entry
    let ghost (n0, mm) = (n as nat, Self::m());
    proof {
        Self::lemma_res(1);
        lemma_pow0_all();
    }
//@loop 0
    invariant
        r.wf(), x.wf(),
        pow_inv(r.v(), x.v(), n as nat, self.v(), n0, mm),
    decreases n as int,
//@at loop0.before
    proof { lemma_pow_start(r.v(), x.v(), n as nat, self.v(), mm); }
//@at loop0.head
    proof {
        lemma_pow_step(r.v(), x.v(), n as nat, self.v(), n0, mm);
        Self::lemma_res(r.v() * x.v());
        Self::lemma_res(x.v() * x.v());
        assert(n & 1 == n % 2) by (bit_vector);
        assert(n >> 1 == n / 2) by (bit_vector);
    }
//@at loop0.after
    proof { lemma_pow_end(r.v(), x.v(), self.v(), n0, mm); }
//@end

//@fn misc/modint.rs | DynamicModInt::pow | ret=r
//@subst <Self as ModIntBase>::pow ==> Self::base_pow
//@spec
    requires self.wf(),
    ensures r.wf(), r.v() == pow(self.v(), n as nat) % Self::m(),
//@end

//@fn misc/modint.rs | trait InternalImplementations::default_impl | ret=r
//@spec
    ensures r.wf(), r == Self::res(0), r.v() == 0,
//@entry
    proof { Self::lemma_res(0); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::add_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() + rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::sub_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() - rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::neg_impl | ret=r
//@spec
    requires this.wf(),
    ensures r.wf(), r == Self::res(-this.v()),
//@entry
    proof { Self::lemma_ops(this, this); Self::lemma_ops(Self::res(0), this); Self::lemma_same(this); }
//@exit
    proof { Self::lemma_same(r); }
//@end

//@fn misc/modint.rs | DynamicModInt@InternalImplementations::mul_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() * rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
}

impl<I: Id> DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@From::from | ret=r | as=from_prim | hdr=impl<I: Id, V: RemEuclidU32> From<V> for DynamicModInt<I>
//@subst fn from(from: V) ==> fn from<V: RemEuclidU32>(from: V)
//@spec
    ensures r.wf(), r == Self::res(from.int_val()), r.v() == from.int_val() % Self::m(),
//@end
}

impl<I: Id> NegSpecImpl for DynamicModInt<I> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> DynamicModInt<I> { DynamicModInt::<I>::res(-self.v()) }
}
impl<I: Id> Neg for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Neg::neg | ret=r | novis | hdr=impl<I: Id> Neg for DynamicModInt<I>
//@end
}

impl<I: Id> NegSpecImpl for &'_ DynamicModInt<I> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> DynamicModInt<I> { DynamicModInt::<I>::res(-self.v()) }
}
impl<I: Id> Neg for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Neg::neg | ret=r | novis | hdr=impl<I: Id> Neg for &'_ DynamicModInt<I>
//@end
}

impl<I: Id> AddSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> Add<DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Add::add#D | ret=r | novis | hdr=impl<I: Id> Add<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> AddAssignSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_assign_spec(&self, rhs: DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> AddAssign<DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@AddAssign::add_assign#D | novis | hdr=impl<I: Id> AddAssign<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> AddSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> Add<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Add::add#& | ret=r | novis | hdr=impl<I: Id> Add<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> AddAssignSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_assign_spec(&self, rhs: &'_ DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> AddAssign<&'_ DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@AddAssign::add_assign#& | novis | hdr=impl<I: Id> AddAssign<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> AddSpecImpl<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> Add<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Add::add#D& | ret=r | novis | hdr=impl<I: Id> Add<DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id> AddSpecImpl<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() + rhs.v()) }
}
impl<I: Id> Add<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Add::add#&& | ret=r | novis | hdr=impl<I: Id> Add<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id, T: RemEuclidU32> AddSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: T) -> bool { self.wf() }
    open spec fn add_spec(self, rhs: T) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() + rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> Add<T> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Add::add#T | ret=r | novis | hdr=impl<I: Id, T: RemEuclidU32> Add<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_add_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id, T: RemEuclidU32> AddAssignSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn add_assign_spec(&self, rhs: T) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() + rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> AddAssign<T> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@AddAssign::add_assign#T | novis | hdr=impl<I: Id, T: RemEuclidU32> AddAssign<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_add_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id> SubSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> Sub<DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Sub::sub#D | ret=r | novis | hdr=impl<I: Id> Sub<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> SubAssignSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_assign_spec(&self, rhs: DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> SubAssign<DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@SubAssign::sub_assign#D | novis | hdr=impl<I: Id> SubAssign<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> SubSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> Sub<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Sub::sub#& | ret=r | novis | hdr=impl<I: Id> Sub<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> SubAssignSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_assign_spec(&self, rhs: &'_ DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> SubAssign<&'_ DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@SubAssign::sub_assign#& | novis | hdr=impl<I: Id> SubAssign<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> SubSpecImpl<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> Sub<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Sub::sub#D& | ret=r | novis | hdr=impl<I: Id> Sub<DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id> SubSpecImpl<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() - rhs.v()) }
}
impl<I: Id> Sub<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Sub::sub#&& | ret=r | novis | hdr=impl<I: Id> Sub<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id, T: RemEuclidU32> SubSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: T) -> bool { self.wf() }
    open spec fn sub_spec(self, rhs: T) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() - rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> Sub<T> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Sub::sub#T | ret=r | novis | hdr=impl<I: Id, T: RemEuclidU32> Sub<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_sub_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id, T: RemEuclidU32> SubAssignSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn sub_assign_spec(&self, rhs: T) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() - rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> SubAssign<T> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@SubAssign::sub_assign#T | novis | hdr=impl<I: Id, T: RemEuclidU32> SubAssign<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_sub_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id> MulSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> Mul<DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Mul::mul#D | ret=r | novis | hdr=impl<I: Id> Mul<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> MulAssignSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_assign_spec(&self, rhs: DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> MulAssign<DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@MulAssign::mul_assign#D | novis | hdr=impl<I: Id> MulAssign<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> MulSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> Mul<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Mul::mul#& | ret=r | novis | hdr=impl<I: Id> Mul<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> MulAssignSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_assign_spec(&self, rhs: &'_ DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> MulAssign<&'_ DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@MulAssign::mul_assign#& | novis | hdr=impl<I: Id> MulAssign<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> MulSpecImpl<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> Mul<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Mul::mul#D& | ret=r | novis | hdr=impl<I: Id> Mul<DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id> MulSpecImpl<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * rhs.v()) }
}
impl<I: Id> Mul<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Mul::mul#&& | ret=r | novis | hdr=impl<I: Id> Mul<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id, T: RemEuclidU32> MulSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: T) -> bool { self.wf() }
    open spec fn mul_spec(self, rhs: T) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> Mul<T> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Mul::mul#T | ret=r | novis | hdr=impl<I: Id, T: RemEuclidU32> Mul<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_mul_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id, T: RemEuclidU32> MulAssignSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: T) -> bool { self.wf() }
    open spec fn mul_assign_spec(&self, rhs: T) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * rhs.int_val()) }
}
impl<I: Id, T: RemEuclidU32> MulAssign<T> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@MulAssign::mul_assign#T | novis | hdr=impl<I: Id, T: RemEuclidU32> MulAssign<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_mul_mod_noop_right(self.v(), rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}
