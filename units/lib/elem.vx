// ---- the laws an element type of the Fenwick tree must satisfy.  `val` is the mathematical value of an element;
// an addition is only constrained where the exact sum is representable (no overflow).
pub trait Elem: Sized + Copy + core::ops::AddAssign<Self> + core::ops::Add<Output = Self> + Default + PartialOrd {
    type D;
    spec fn val(self) -> Self::D;
    spec fn plus(a: Self::D, b: Self::D) -> Self::D;
    spec fn zero() -> Self::D;
    proof fn law_plus(a: Self::D, b: Self::D, c: Self::D)
        ensures
            Self::plus(Self::plus(a, b), c) == Self::plus(a, Self::plus(b, c)),
            Self::plus(a, b) == Self::plus(b, a),
            Self::plus(Self::zero(), a) == a;
    proof fn law_cancel(a: Self::D, b: Self::D, c: Self::D)
        requires Self::plus(a, b) == Self::plus(a, c),
        ensures b == c;
    proof fn law_clone(a: Self, b: Self)
        requires cloned(a, b),
        ensures a == b;
    proof fn law_default()
        ensures
            call_requires(Self::default, ()),
            forall|r: Self| call_ensures(Self::default, (), r) ==> r.val() == Self::zero();
    proof fn law_add(a: Self, b: Self, s: Self)
        requires Self::plus(a.val(), b.val()) == s.val(),
        ensures
            <Self as AddSpec<Self>>::obeys_add_spec(), a.add_req(b), a.add_spec(b).val() == s.val(),
            <Self as AddAssignSpec<Self>>::obeys_add_assign_spec(), a.add_assign_req(b), a.add_assign_spec(b).val() == s.val();
    proof fn law_lt()
        ensures
            <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(),
            forall|a: Self, b: Self| (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less)) <==> (b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Greater)),
            forall|a: Self, b: Self| (#[trigger] a.partial_cmp_spec(&b)) is Some;
}

/// T += u for a second type U
pub trait ElemAdd<U: Clone>: Elem + core::ops::AddAssign<U> {
    spec fn uval(u: U) -> Self::D;
    proof fn law_add_u(a: Self, u: U, c: U, s: Self)
        requires cloned(u, c) || u == c, Self::plus(a.val(), Self::uval(u)) == s.val(),
        ensures <Self as AddAssignSpec<U>>::obeys_add_assign_spec(), a.add_assign_req(c), a.add_assign_spec(c).val() == s.val();
}

pub trait ElemSub: Elem + core::ops::Sub<Output = Self> {
    proof fn law_sub(a: Self, b: Self, d: Self)
        requires Self::plus(d.val(), b.val()) == a.val(),
        ensures <Self as SubSpec<Self>>::obeys_sub_spec(), a.sub_req(b), a.sub_spec(b).val() == d.val();
}

/// some element has the value x
pub open spec fn rep<T: Elem>(x: T::D) -> bool {
    exists|t: T| #[trigger] t.val() == x
}

pub open spec fn wit<T: Elem>(x: T::D) -> T {
    choose|t: T| #[trigger] t.val() == x
}

/// s[l] + ... + s[r - 1]
pub open spec fn tot<T: Elem>(s: Seq<T::D>, l: int, r: int) -> T::D
    decreases r - l,
{
    if r <= l { T::zero() } else { T::plus(tot::<T>(s, l, r - 1), s[r - 1]) }
}

/// every sum of consecutive elements is representable
pub open spec fn no_overflow<T: Elem>(s: Seq<T::D>) -> bool {
    forall|l: int, r: int| 0 <= l <= r <= s.len() ==> rep::<T>(#[trigger] tot::<T>(s, l, r))
}

pub proof fn lemma_sum_split<T: Elem>(s: Seq<T::D>, l: int, m: int, r: int)
    requires l <= m <= r,
    ensures tot::<T>(s, l, r) == T::plus(tot::<T>(s, l, m), tot::<T>(s, m, r)),
    decreases r - m,
{
    if m == r {
        let x = tot::<T>(s, l, m);
        T::law_plus(T::zero(), x, x);
        T::law_plus(x, T::zero(), x);
    } else {
        lemma_sum_split::<T>(s, l, m, r - 1);
        T::law_plus(tot::<T>(s, l, m), tot::<T>(s, m, r - 1), s[r - 1]);
    }
}

pub proof fn lemma_sum_one<T: Elem>(s: Seq<T::D>, l: int)
    ensures tot::<T>(s, l, l + 1) == s[l], tot::<T>(s, l, l) == T::zero(),
{
    T::law_plus(s[l], s[l], s[l]);
    assert(tot::<T>(s, l, l) == T::zero());
}

pub proof fn lemma_sum_frame<T: Elem>(s: Seq<T::D>, t: Seq<T::D>, l: int, r: int)
    requires forall|i: int| l <= i < r ==> s[i] == t[i],
    ensures tot::<T>(s, l, r) == tot::<T>(t, l, r),
    decreases r - l,
{
    if l < r { lemma_sum_frame::<T>(s, t, l, r - 1); }
}

/// adding x to one element inside the range adds x to the sum
pub proof fn lemma_sum_update<T: Elem>(s: Seq<T::D>, p: int, x: T::D, l: int, r: int)
    requires 0 <= p < s.len(), l <= p < r,
    ensures tot::<T>(s.update(p, T::plus(s[p], x)), l, r) == T::plus(tot::<T>(s, l, r), x),
    decreases r - l,
{
    let t = s.update(p, T::plus(s[p], x));
    let a = tot::<T>(s, l, r - 1);
    if p == r - 1 {
        lemma_sum_frame::<T>(s, t, l, r - 1);
        T::law_plus(a, s[p], x);
    } else {
        lemma_sum_update::<T>(s, p, x, l, r - 1);
        T::law_plus(a, x, s[r - 1]);
        T::law_plus(x, s[r - 1], x);
        T::law_plus(a, s[r - 1], x);
        T::law_plus(s[r - 1], x, x);
    }
}
