use std::collections::BinaryHeap;
use std::alloc::Allocator;
use std::cmp::{Ordering, Reverse};
use vstd::multiset::*;
// Contracts assumed on std's BinaryHeap and Reverse, which vstd does not specify (trusted).
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: Allocator>(BinaryHeap<T, A>);

#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExReverse<T>(Reverse<T>);

/// the elements in the heap
pub uninterp spec fn hv<T, A: Allocator>(h: BinaryHeap<T, A>) -> Multiset<T>;
/// a total order
pub open spec fn total_cmp<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T| #[trigger] a.cmp_spec(&a) == Ordering::Equal
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == Ordering::Less) <==> b.cmp_spec(&a) == Ordering::Greater
    &&& forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c)
}
pub open spec fn le<T: Ord>(a: T, b: T) -> bool {
    a.cmp_spec(&b) != Ordering::Greater
}
pub broadcast axiom fn axiom_heap_finite<T, A: Allocator>(h: BinaryHeap<T, A>)
    ensures (#[trigger] hv(h)).len() <= usize::MAX;
pub axiom fn axiom_reverse<T: Ord>()
    where Reverse<T>: Ord,
    ensures
        <Reverse<T> as OrdSpec>::obeys_cmp_spec() == T::obeys_cmp_spec(),
        forall|a: Reverse<T>, b: Reverse<T>| (#[trigger] a.cmp_spec(&b)) == b.0.cmp_spec(&a.0);

/// the element at the top of a non-empty heap
pub uninterp spec fn top<T, A: Allocator>(h: BinaryHeap<T, A>) -> T;
pub axiom fn axiom_top<T: Ord, A: Allocator>(h: BinaryHeap<T, A>)
    requires hv(h).len() > 0, total_cmp::<T>(),
    ensures forall|y: T| #[trigger] hv(h).contains(y) ==> le(y, top(h));

pub assume_specification<T> [BinaryHeap::<T>::new] () -> (r: BinaryHeap<T>)
    ensures hv(r) == Multiset::<T>::empty();
pub assume_specification<T> [BinaryHeap::<T>::with_capacity] (c: usize) -> (r: BinaryHeap<T>)
    ensures hv(r) == Multiset::<T>::empty();
pub assume_specification<T: Ord, A: Allocator> [BinaryHeap::<T, A>::push] (h: &mut BinaryHeap<T, A>, x: T)
    ensures hv(*final(h)) == hv(*old(h)).insert(x);
pub assume_specification<T: Ord, A: Allocator> [BinaryHeap::<T, A>::pop] (h: &mut BinaryHeap<T, A>) -> (r: Option<T>)
    ensures match r {
        Some(x) => hv(*old(h)).contains(x) && x == top(*old(h)) && hv(*final(h)) == hv(*old(h)).remove(x),
        None => hv(*old(h)).len() == 0 && hv(*final(h)) == hv(*old(h)),
    };
pub assume_specification<T, A: Allocator> [BinaryHeap::<T, A>::peek] (h: &BinaryHeap<T, A>) -> (r: Option<&T>)
    ensures match r {
        Some(x) => hv(*h).contains(*x) && *x == top(*h),
        None => hv(*h).len() == 0,
    };
pub assume_specification<T, A: Allocator> [BinaryHeap::<T, A>::len] (h: &BinaryHeap<T, A>) -> (r: usize)
    ensures r == hv(*h).len();
pub assume_specification<T, A: Allocator> [BinaryHeap::<T, A>::is_empty] (h: &BinaryHeap<T, A>) -> (r: bool)
    ensures r == (hv(*h).len() == 0);
pub assume_specification<T, A: Allocator> [BinaryHeap::<T, A>::clear] (h: &mut BinaryHeap<T, A>)
    ensures hv(*final(h)) == Multiset::<T>::empty();
pub assume_specification<T: Ord, A: Allocator> [BinaryHeap::<T, A>::append] (h: &mut BinaryHeap<T, A>, o: &mut BinaryHeap<T, A>)
    ensures hv(*final(h)) == hv(*old(h)).add(hv(*old(o))), hv(*final(o)) == Multiset::<T>::empty();
pub assume_specification<T: Ord, A: Allocator> [BinaryHeap::<T, A>::into_sorted_vec] (h: BinaryHeap<T, A>) -> (r: Vec<T, A>)
    ensures
        r@.to_multiset() == hv(h),
        total_cmp::<T>() ==> forall|i: int, j: int| 0 <= i <= j < r@.len() ==> le(#[trigger] r@[i], #[trigger] r@[j]);
