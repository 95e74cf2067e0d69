// generated by tools/gen_modint.py
impl<M: Modulus> StaticModInt<M> {
//@fn misc/modint.rs | trait InternalImplementations::inv_for_non_prime_modulus | ret=r | maypanic
//@spec
    requires this.wf(), inv_ok(this.v(), Self::m()),
    ensures r.wf(), inv_exists(this.v(), Self::m()), is_inv(this.v(), r.v(), Self::m()), r == Self::res(inv_of(this.v(), Self::m())),
//@entry
    proof {
        M::law_m();
        lemma_inv_gcd_use(this.v(), Self::m());
    }
//@exit
    proof { lemma_inv_unique(this.v(), r.v(), Self::m()); Self::lemma_same(r); }
//@end

//@fn misc/modint.rs | StaticModInt::inv | ret=r | maypanic
//@subst M::VALUE.try_into() ==> vx_try_i32(M::VALUE)
//@spec
    requires self.wf(), inv_ok(self.v(), Self::m()),
    ensures r.wf(), inv_exists(self.v(), Self::m()), is_inv(self.v(), r.v(), Self::m()), r == Self::res(inv_of(self.v(), Self::m())),
//@entry
    proof {
        M::law_m();
        if M::HINT_VALUE_IS_PRIME {
            lemma_prime_inv(self.v(), Self::m());
            if M::VALUE == 0x8000_0000 { assert(0x8000_0000int % 2 == 0); }
        }
    }
//@exit
    proof { lemma_inv_unique(self.v(), r.v(), Self::m()); Self::lemma_same(r); }
//@end

//@fn misc/modint.rs | StaticModInt@ModIntBase::inv | ret=r | as=base_inv
//@spec
    requires self.wf(), inv_ok(self.v(), Self::m()),
    ensures r.wf(), inv_exists(self.v(), Self::m()), is_inv(self.v(), r.v(), Self::m()), r == Self::res(inv_of(self.v(), Self::m())),
//@end

//@fn misc/modint.rs | trait InternalImplementations::div_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(), inv_ok(rhs.v(), Self::m()),
    ensures r.wf(), inv_exists(rhs.v(), Self::m()), r == Self::res(lhs.v() * inv_of(rhs.v(), Self::m())),
//@entry
    proof { lemma_inv_res(rhs.v(), Self::m()); M::law_m(); }
//@end
}

impl<M: Modulus> DivSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> Div<StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Div::div#S | ret=r | novis | hdr=impl<M: Modulus> Div<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> DivAssignSpecImpl<StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_assign_spec(&self, rhs: StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> DivAssign<StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@DivAssign::div_assign#S | novis | hdr=impl<M: Modulus> DivAssign<StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> DivSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> Div<&'_ StaticModInt<M>> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Div::div#& | ret=r | novis | hdr=impl<M: Modulus> Div<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> DivAssignSpecImpl<&'_ StaticModInt<M>> for StaticModInt<M> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_assign_spec(&self, rhs: &'_ StaticModInt<M>) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> DivAssign<&'_ StaticModInt<M>> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@DivAssign::div_assign#& | novis | hdr=impl<M: Modulus> DivAssign<&'_ StaticModInt<M>> for StaticModInt<M>
//@end
}

impl<M: Modulus> DivSpecImpl<StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_spec(self, rhs: StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> Div<StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Div::div#S& | ret=r | novis | hdr=impl<M: Modulus> Div<StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus> DivSpecImpl<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'_ StaticModInt<M>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), StaticModInt::<M>::m()) }
    open spec fn div_spec(self, rhs: &'_ StaticModInt<M>) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * inv_of(rhs.v(), StaticModInt::<M>::m())) }
}
impl<M: Modulus> Div<&'_ StaticModInt<M>> for &'_ StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | &StaticModInt@Div::div#&& | ret=r | novis | hdr=impl<M: Modulus> Div<&'_ StaticModInt<M>> for &'_ StaticModInt<M>
//@end
}

impl<M: Modulus, T: RemEuclidU32> DivSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: T) -> bool { self.wf() && inv_ok(rhs.int_val(), StaticModInt::<M>::m()) }
    open spec fn div_spec(self, rhs: T) -> StaticModInt<M> { StaticModInt::<M>::res(self.v() * inv_of(rhs.int_val(), StaticModInt::<M>::m())) }
}
impl<M: Modulus, T: RemEuclidU32> Div<T> for StaticModInt<M> {
    type Output = StaticModInt<M>;
//@fn exp:misc::modint | StaticModInt@Div::div#T | ret=r | novis | hdr=impl<M: Modulus, T: RemEuclidU32> Div<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_inv_mod(rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}

impl<M: Modulus, T: RemEuclidU32> DivAssignSpecImpl<T> for StaticModInt<M> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: T) -> bool { self.wf() && inv_ok(rhs.int_val(), StaticModInt::<M>::m()) }
    open spec fn div_assign_spec(&self, rhs: T) -> &StaticModInt<M> { &StaticModInt::<M>::res(self.v() * inv_of(rhs.int_val(), StaticModInt::<M>::m())) }
}
impl<M: Modulus, T: RemEuclidU32> DivAssign<T> for StaticModInt<M> {
//@fn exp:misc::modint | StaticModInt@DivAssign::div_assign#T | novis | hdr=impl<M: Modulus, T: RemEuclidU32> DivAssign<T> for StaticModInt<M>
//@entry
    proof { StaticModInt::<M>::lemma_res(rhs.int_val()); lemma_inv_mod(rhs.int_val(), StaticModInt::<M>::m()); }
//@end
}
