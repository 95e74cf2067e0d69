// traits::numeric::{Zero, BoundedAbove} with their contract, and the operations of traits::integral::Integral that
// the flow uses, with the laws of bounded integers (v is the mathematical value)
pub trait Zero: Sized {
    spec fn zero_val() -> Self;
    fn zero() -> (r: Self)
        ensures r == Self::zero_val();
}
pub trait BoundedAbove: Sized {
    spec fn max_val() -> Self;
    fn max_value() -> (r: Self)
        ensures r == Self::max_val();
}
pub trait Integral: Sized + Copy + Ord + core::ops::Add<Output = Self> + core::ops::Sub<Output = Self> + core::ops::AddAssign<Self> + core::ops::SubAssign<Self> + Zero + BoundedAbove {
    spec fn v(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    proof fn law_range(a: Self)
        ensures Self::lo() <= a.v() <= Self::hi(), Self::lo() <= 0, Self::hi() >= 1, Self::zero_val().v() == 0, Self::max_val().v() == Self::hi();
    proof fn law_cmp(a: Self, b: Self)
        ensures
            <Self as PartialEqSpec<Self>>::obeys_eq_spec(), a.eq_spec(&b) == (a.v() == b.v()),
            <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(),
            PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(int_cmp(a.v(), b.v())),
            <Self as OrdSpec>::obeys_cmp_spec(),
            OrdSpec::cmp_spec(&a, &b) == int_cmp(a.v(), b.v());
    proof fn law_add(a: Self, b: Self)
        requires Self::lo() <= a.v() + b.v() <= Self::hi(),
        ensures
            <Self as AddSpec<Self>>::obeys_add_spec(), a.add_req(b), a.add_spec(b).v() == a.v() + b.v(),
            <Self as AddAssignSpec<Self>>::obeys_add_assign_spec(), a.add_assign_req(b), a.add_assign_spec(b).v() == a.v() + b.v();
    proof fn law_sub(a: Self, b: Self)
        requires Self::lo() <= a.v() - b.v() <= Self::hi(),
        ensures
            <Self as SubSpec<Self>>::obeys_sub_spec(), a.sub_req(b), a.sub_spec(b).v() == a.v() - b.v(),
            <Self as SubAssignSpec<Self>>::obeys_sub_assign_spec(), a.sub_assign_req(b), a.sub_assign_spec(b).v() == a.v() - b.v();
}
pub open spec fn int_cmp(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
