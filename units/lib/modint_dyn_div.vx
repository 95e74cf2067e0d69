// generated by tools/gen_modint.py
impl<I: Id> DynamicModInt<I> {
//@fn misc/modint.rs | trait InternalImplementations::inv_for_non_prime_modulus | ret=r | maypanic
//@spec
    requires this.wf(), inv_ok(this.v(), Self::m()),
    ensures r.wf(), inv_exists(this.v(), Self::m()), is_inv(this.v(), r.v(), Self::m()), r == Self::res(inv_of(this.v(), Self::m())),
//@entry
    proof {
        I::law_m();
        lemma_inv_gcd_use(this.v(), Self::m());
    }
//@exit
    proof { lemma_inv_unique(this.v(), r.v(), Self::m()); Self::lemma_same(r); }
//@end

//@fn misc/modint.rs | DynamicModInt::inv | ret=r
//@spec
    requires self.wf(), inv_ok(self.v(), Self::m()),
    ensures r.wf(), inv_exists(self.v(), Self::m()), is_inv(self.v(), r.v(), Self::m()), r == Self::res(inv_of(self.v(), Self::m())),
//@end

//@fn misc/modint.rs | DynamicModInt@ModIntBase::inv | ret=r | as=base_inv
//@spec
    requires self.wf(), inv_ok(self.v(), Self::m()),
    ensures r.wf(), inv_exists(self.v(), Self::m()), is_inv(self.v(), r.v(), Self::m()), r == Self::res(inv_of(self.v(), Self::m())),
//@end

//@fn misc/modint.rs | trait InternalImplementations::div_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(), inv_ok(rhs.v(), Self::m()),
    ensures r.wf(), inv_exists(rhs.v(), Self::m()), r == Self::res(lhs.v() * inv_of(rhs.v(), Self::m())),
//@entry
    proof { lemma_inv_res(rhs.v(), Self::m()); I::law_m(); }
//@end
}

impl<I: Id> DivSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> Div<DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Div::div#D | ret=r | novis | hdr=impl<I: Id> Div<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> DivAssignSpecImpl<DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_assign_spec(&self, rhs: DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> DivAssign<DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@DivAssign::div_assign#D | novis | hdr=impl<I: Id> DivAssign<DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> DivSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> Div<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Div::div#& | ret=r | novis | hdr=impl<I: Id> Div<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> DivAssignSpecImpl<&'_ DynamicModInt<I>> for DynamicModInt<I> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_assign_spec(&self, rhs: &'_ DynamicModInt<I>) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> DivAssign<&'_ DynamicModInt<I>> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@DivAssign::div_assign#& | novis | hdr=impl<I: Id> DivAssign<&'_ DynamicModInt<I>> for DynamicModInt<I>
//@end
}

impl<I: Id> DivSpecImpl<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_spec(self, rhs: DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> Div<DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Div::div#D& | ret=r | novis | hdr=impl<I: Id> Div<DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id> DivSpecImpl<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'_ DynamicModInt<I>) -> bool { self.wf() && rhs.wf() && inv_ok(rhs.v(), DynamicModInt::<I>::m()) }
    open spec fn div_spec(self, rhs: &'_ DynamicModInt<I>) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * inv_of(rhs.v(), DynamicModInt::<I>::m())) }
}
impl<I: Id> Div<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | &DynamicModInt@Div::div#&& | ret=r | novis | hdr=impl<I: Id> Div<&'_ DynamicModInt<I>> for &'_ DynamicModInt<I>
//@end
}

impl<I: Id, T: RemEuclidU32> DivSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: T) -> bool { self.wf() && inv_ok(rhs.int_val(), DynamicModInt::<I>::m()) }
    open spec fn div_spec(self, rhs: T) -> DynamicModInt<I> { DynamicModInt::<I>::res(self.v() * inv_of(rhs.int_val(), DynamicModInt::<I>::m())) }
}
impl<I: Id, T: RemEuclidU32> Div<T> for DynamicModInt<I> {
    type Output = DynamicModInt<I>;
//@fn exp:misc::modint | DynamicModInt@Div::div#T | ret=r | novis | hdr=impl<I: Id, T: RemEuclidU32> Div<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_inv_mod(rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}

impl<I: Id, T: RemEuclidU32> DivAssignSpecImpl<T> for DynamicModInt<I> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: T) -> bool { self.wf() && inv_ok(rhs.int_val(), DynamicModInt::<I>::m()) }
    open spec fn div_assign_spec(&self, rhs: T) -> &DynamicModInt<I> { &DynamicModInt::<I>::res(self.v() * inv_of(rhs.int_val(), DynamicModInt::<I>::m())) }
}
impl<I: Id, T: RemEuclidU32> DivAssign<T> for DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@DivAssign::div_assign#T | novis | hdr=impl<I: Id, T: RemEuclidU32> DivAssign<T> for DynamicModInt<I>
//@entry
    proof { DynamicModInt::<I>::lemma_res(rhs.int_val()); lemma_inv_mod(rhs.int_val(), DynamicModInt::<I>::m()); }
//@end
}
