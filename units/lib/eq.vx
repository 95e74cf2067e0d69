/// equality of elements is the decidable relation same, an equivalence
pub open spec fn same<T: PartialEq>(a: T, b: T) -> bool {
    a.eq_spec(&b)
}

pub open spec fn lawful_eq<T: PartialEq>() -> bool {
    &&& <T as PartialEqSpec<T>>::obeys_eq_spec()
    &&& forall|a: T| #[trigger] same(a, a)
    &&& forall|a: T, b: T| #[trigger] same(a, b) ==> same(b, a)
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) ==> same(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] same(a, b) && #[trigger] same(b, c) ==> same(a, c)
}

/// s[0..k] and s[i..i + k] agree
pub open spec fn agree<T: PartialEq>(s: Seq<T>, i: int, k: int) -> bool {
    &&& 0 <= k && i + k <= s.len()
    &&& forall|j: int| 0 <= j < k ==> same(#[trigger] s[j], s[i + j])
}
