//@include lib/head.vx
use std::cmp::{max, min};
use core::cmp::Ordering;
use std::ops::{Add, Mul};
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
// std::cmp::max / min (documented: max returns the second argument, min the first, when the two compare equal)
pub assume_specification<T: Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
pub assume_specification<T: Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });

// interfaces of traits::numeric with the constant each implementation must return
pub trait Zero: Sized {
    spec fn z_zero() -> Self;
    fn zero() -> (r: Self) ensures r == Self::z_zero();
}
pub trait One: Sized {
    spec fn z_one() -> Self;
    fn one() -> (r: Self) ensures r == Self::z_one();
}
pub trait BoundedBelow: Sized {
    spec fn b_min() -> Self;
    fn min_value() -> (r: Self) ensures r == Self::b_min();
}
pub trait BoundedAbove: Sized {
    spec fn b_max() -> Self;
    fn max_value() -> (r: Self) ensures r == Self::b_max();
}
// interface traits::monoid::Monoid: m_id, m_op are what the implementations return; m_req says where the operation is defined
pub trait Monoid {
    type S: Clone;
    spec fn m_id() -> Self::S;
    spec fn m_op(a: Self::S, b: Self::S) -> Self::S;
    spec fn m_req(a: Self::S, b: Self::S) -> bool;
    fn identity() -> (r: Self::S)
        ensures r == Self::m_id();
    fn binary_operation(a: &Self::S, b: &Self::S) -> (r: Self::S)
        requires Self::m_req(*a, *b),
        ensures r == Self::m_op(*a, *b);
}
pub open spec fn defined_assoc<M: Monoid>(a: M::S, b: M::S, c: M::S) -> bool {
    M::m_req(a, b) && M::m_req(M::m_op(a, b), c) && M::m_req(b, c) && M::m_req(a, M::m_op(b, c))
}
/// the comparison methods of the type agree with its total order
pub open spec fn lawful_ord<S: Ord>() -> bool {
    &&& <S as OrdSpec>::obeys_cmp_spec() && <S as PartialOrdSpec<S>>::obeys_partial_cmp_spec()
    &&& forall|a: S, b: S| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: S, b: S| (#[trigger] a.cmp_spec(&b)) == Ordering::Greater <==> b.cmp_spec(&a) == Ordering::Less
}
// the marker types carry no data at run time
pub struct Max<S>(pub PhantomData<S>);
pub struct Min<S>(pub PhantomData<S>);
pub struct Additive<S>(pub PhantomData<S>);
pub struct Multiplicative<S>(pub PhantomData<S>);

impl<S> Monoid for Max<S> where S: Copy + Ord + BoundedBelow {
    type S = S;
    open spec fn m_id() -> S { S::b_min() }
    open spec fn m_op(a: S, b: S) -> S { if a.cmp_spec(&b) == Ordering::Greater { a } else { b } }
    open spec fn m_req(a: S, b: S) -> bool { lawful_ord::<S>() }
//@fn misc/monoids.rs | Max@Monoid::identity | ret=r | novis
//@end
//@fn misc/monoids.rs | Max@Monoid::binary_operation | ret=r | novis
//@end
}
impl<S> Monoid for Min<S> where S: Copy + Ord + BoundedAbove {
    type S = S;
    open spec fn m_id() -> S { S::b_max() }
    open spec fn m_op(a: S, b: S) -> S { if a.cmp_spec(&b) == Ordering::Greater { b } else { a } }
    open spec fn m_req(a: S, b: S) -> bool { lawful_ord::<S>() }
//@fn misc/monoids.rs | Min@Monoid::identity | ret=r | novis
//@end
//@fn misc/monoids.rs | Min@Monoid::binary_operation | ret=r | novis
//@end
}
impl<S> Monoid for Additive<S> where S: Copy + Add<Output = S> + Zero {
    type S = S;
    open spec fn m_id() -> S { S::z_zero() }
    open spec fn m_op(a: S, b: S) -> S { a.add_spec(b) }
    open spec fn m_req(a: S, b: S) -> bool { <S as AddSpec<S>>::obeys_add_spec() && a.add_req(b) }
//@fn misc/monoids.rs | Additive@Monoid::identity | ret=r | novis
//@end
//@fn misc/monoids.rs | Additive@Monoid::binary_operation | ret=r | novis
//@end
}
impl<S> Monoid for Multiplicative<S> where S: Copy + Mul<Output = S> + One {
    type S = S;
    open spec fn m_id() -> S { S::z_one() }
    open spec fn m_op(a: S, b: S) -> S { a.mul_spec(b) }
    open spec fn m_req(a: S, b: S) -> bool { <S as MulSpec<S>>::obeys_mul_spec() && a.mul_req(b) }
//@fn misc/monoids.rs | Multiplicative@Monoid::identity | ret=r | novis
//@end
//@fn misc/monoids.rs | Multiplicative@Monoid::binary_operation | ret=r | novis
//@end
}
//@include lib/monoid_inst.vx
}
