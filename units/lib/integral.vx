// traits::numeric::{Zero, One} with their contract, and the operations of traits::integral::Integral with the laws of
// bounded integers (v is the mathematical value, operations are exact where the result is representable).
pub trait Zero: Sized {
    spec fn zero_val() -> Self;
    fn zero() -> (r: Self)
        ensures r == Self::zero_val();
}
pub trait One: Sized {
    spec fn one_val() -> Self;
    fn one() -> (r: Self)
        ensures r == Self::one_val();
}

pub trait Integral: Sized + Copy + PartialEq + core::ops::Sub<Output = Self> + core::ops::Mul<Output = Self> + core::ops::Div<Output = Self> + core::ops::Rem<Output = Self> + Zero + One {
    spec fn v(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    proof fn law_range(a: Self)
        ensures Self::lo() <= a.v() <= Self::hi(), Self::lo() <= 0, Self::hi() >= 1, Self::zero_val().v() == 0, Self::one_val().v() == 1;
    proof fn law_eq(a: Self, b: Self)
        ensures <Self as PartialEqSpec<Self>>::obeys_eq_spec(), a.eq_spec(&b) == (a.v() == b.v());
    proof fn law_sub(a: Self, b: Self)
        requires Self::lo() <= a.v() - b.v() <= Self::hi(),
        ensures <Self as SubSpec<Self>>::obeys_sub_spec(), a.sub_req(b), a.sub_spec(b).v() == a.v() - b.v();
    proof fn law_mul(a: Self, b: Self)
        requires Self::lo() <= a.v() * b.v() <= Self::hi(),
        ensures <Self as MulSpec<Self>>::obeys_mul_spec(), a.mul_req(b), a.mul_spec(b).v() == a.v() * b.v();
    proof fn law_div(a: Self, b: Self)
        requires b.v() != 0, Self::lo() <= rust_div(a.v(), b.v()) <= Self::hi(),
        ensures
            <Self as DivSpec<Self>>::obeys_div_spec(), a.div_req(b), a.div_spec(b).v() == rust_div(a.v(), b.v()),
            <Self as RemSpec<Self>>::obeys_rem_spec(), a.rem_req(b), a.rem_spec(b).v() == rust_rem(a.v(), b.v());
}
