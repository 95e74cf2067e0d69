// The interface traits::monoid::Monoid, with the laws a user's monoid must satisfy as its contract.
pub trait Monoid {
    type S: Clone;
    spec fn m_id() -> Self::S;
    spec fn m_op(a: Self::S, b: Self::S) -> Self::S;
    proof fn law_assoc(a: Self::S, b: Self::S, c: Self::S)
        ensures Self::m_op(Self::m_op(a, b), c) == Self::m_op(a, Self::m_op(b, c));
    proof fn law_id(a: Self::S)
        ensures Self::m_op(Self::m_id(), a) == a, Self::m_op(a, Self::m_id()) == a;
    proof fn law_clone(a: Self::S, b: Self::S)
        requires cloned(a, b),
        ensures a == b;
    fn identity() -> (r: Self::S)
        ensures r == Self::m_id();
    fn binary_operation(a: &Self::S, b: &Self::S) -> (r: Self::S)
        ensures r == Self::m_op(*a, *b);
}

/// op(s[0], ..., s[len - 1]), the identity for the empty sequence
pub open spec fn fold<M: Monoid>(s: Seq<M::S>) -> M::S
    decreases s.len(),
{
    if s.len() == 0 { M::m_id() } else { M::m_op(fold::<M>(s.drop_last()), s.last()) }
}

pub proof fn lemma_fold_one<M: Monoid>(x: M::S)
    ensures fold::<M>(seq![x]) == x,
{
    let s = seq![x];
    assert(s.drop_last() =~= Seq::<M::S>::empty());
    reveal_with_fuel(fold, 2);
    M::law_id(x);
}

pub proof fn lemma_fold_cat<M: Monoid>(a: Seq<M::S>, b: Seq<M::S>)
    ensures fold::<M>(a + b) == M::m_op(fold::<M>(a), fold::<M>(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        M::law_id(fold::<M>(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_fold_cat::<M>(a, b.drop_last());
        M::law_assoc(fold::<M>(a), fold::<M>(b.drop_last()), b.last());
    }
}

/// fold over s[l..r)
pub open spec fn fr<M: Monoid>(s: Seq<M::S>, l: int, r: int) -> M::S {
    fold::<M>(s.subrange(l, r))
}

pub proof fn lemma_fr_empty<M: Monoid>(s: Seq<M::S>, l: int)
    requires 0 <= l <= s.len(),
    ensures fr::<M>(s, l, l) == M::m_id(),
{
    assert(s.subrange(l, l).len() == 0);
}

pub proof fn lemma_fr_one<M: Monoid>(s: Seq<M::S>, l: int)
    requires 0 <= l < s.len(),
    ensures fr::<M>(s, l, l + 1) == s[l],
{
    assert(s.subrange(l, l + 1) =~= seq![s[l]]);
    lemma_fold_one::<M>(s[l]);
}

pub proof fn lemma_fr_split<M: Monoid>(s: Seq<M::S>, l: int, m: int, r: int)
    requires 0 <= l <= m <= r <= s.len(),
    ensures fr::<M>(s, l, r) == M::m_op(fr::<M>(s, l, m), fr::<M>(s, m, r)),
{
    assert(s.subrange(l, r) =~= s.subrange(l, m) + s.subrange(m, r));
    lemma_fold_cat::<M>(s.subrange(l, m), s.subrange(m, r));
}

pub proof fn lemma_fr_ids<M: Monoid>(s: Seq<M::S>, l: int, r: int)
    requires 0 <= l <= r <= s.len(), forall|i: int| l <= i < r ==> s[i] == M::m_id(),
    ensures fr::<M>(s, l, r) == M::m_id(),
    decreases r - l,
{
    if l == r {
        lemma_fr_empty::<M>(s, l);
    } else {
        lemma_fr_ids::<M>(s, l, r - 1);
        lemma_fr_split::<M>(s, l, r - 1, r);
        lemma_fr_one::<M>(s, r - 1);
        M::law_id(M::m_id());
    }
}

pub proof fn lemma_clone_all<M: Monoid>(a: Seq<M::S>, b: Seq<M::S>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> cloned(a[i], b[i]),
    ensures a =~= b,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        M::law_clone(a[i], b[i]);
    }
}
