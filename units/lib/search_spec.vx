// ---- leaf ranges of tree nodes, powers of two, and predicates given as closures
pub open spec fn lo(k: int, size: int) -> int
    decreases 2 * size - k,
{
    if k >= size || k < 1 { k } else { lo(2 * k, size) }
}

pub open spec fn hi(k: int, size: int) -> int
    decreases 2 * size - k,
{
    if k >= size || k < 1 { k + 1 } else { hi(2 * k + 1, size) }
}

/// consecutive nodes of one level have adjacent ranges
pub proof fn lemma_adj(k: int, size: int)
    requires 1 <= k, k + 1 < 2 * size, is_p2(size as nat), !is_p2((k + 1) as nat),
    ensures hi(k, size) == lo(k + 1, size),
    decreases 2 * size - k,
{
    if k < size {
        assert(k + 1 != size);
        assert(((2 * k + 2) as nat) / 2 == (k + 1) as nat);
        lemma_adj(2 * k + 1, size);
    }
}

/// the left child's range ends where the right child's begins
pub proof fn lemma_mid(k: int, size: int)
    requires 1 <= k < size, is_p2(size as nat),
    ensures
        hi(2 * k, size) == lo(2 * k + 1, size),
        lo(k, size) == lo(2 * k, size),
        hi(k, size) == hi(2 * k + 1, size),
{
    assert(((2 * k + 1) as nat) % 2 == 1);
    lemma_adj(2 * k, size);
}

pub proof fn lemma_lohi_bounds(k: int, size: int)
    requires 1 <= k < 2 * size, is_p2(size as nat),
    ensures size <= lo(k, size) < hi(k, size) <= 2 * size,
    decreases 2 * size - k,
{
    if k < size {
        lemma_lohi_bounds(2 * k, size);
        lemma_lohi_bounds(2 * k + 1, size);
        lemma_mid(k, size);
    }
}

pub proof fn lemma_p2_gap(a: nat, s: nat)
    requires is_p2(a), is_p2(s), s < a <= 2 * s,
    ensures a == 2 * s,
    decreases s,
{
    if s > 1 {
        lemma_p2_gap(a / 2, s / 2);
    }
}

/// the last node of a level reaches the last leaf
pub proof fn lemma_last(k: int, size: int)
    requires 1 <= k < 2 * size, is_p2(size as nat), is_p2((k + 1) as nat),
    ensures hi(k, size) == 2 * size,
    decreases 2 * size - k,
{
    if k < size {
        assert(((2 * k + 2) as nat) / 2 == (k + 1) as nat);
        lemma_last(2 * k + 1, size);
    } else {
        lemma_p2_gap((k + 1) as nat, size as nat);
    }
}

/// the first node of a level begins at the first leaf
pub proof fn lemma_first(k: int, size: int)
    requires 1 <= k < 2 * size, is_p2(size as nat), is_p2(k as nat),
    ensures lo(k, size) == size,
    decreases 2 * size - k,
{
    if k < size {
        assert(((2 * k) as nat) / 2 == k as nat);
        lemma_first(2 * k, size);
    } else if k > size {
        lemma_p2_gap(k as nat, size as nat);
    }
}

pub proof fn lemma_node_range<M: Monoid>(d: Seq<M::S>, k: int, size: int)
    requires 1 <= k < 2 * size, is_p2(size as nat), d.len() == 2 * size, nodes_ok::<M>(d, 1, size),
    ensures d[k] == fr::<M>(d, lo(k, size), hi(k, size)), size <= lo(k, size) < hi(k, size) <= 2 * size,
    decreases 2 * size - k,
{
    lemma_lohi_bounds(k, size);
    if k < size {
        lemma_node_range::<M>(d, 2 * k, size);
        lemma_node_range::<M>(d, 2 * k + 1, size);
        lemma_mid(k, size);
        assert(node_ok::<M>(d, k));
        lemma_fr_split::<M>(d, lo(k, size), hi(2 * k, size), hi(k, size));
    } else {
        lemma_fr_one::<M>(d, k);
    }
}

/// extending a product to the right / to the left by one node
pub proof fn lemma_extend_right<M: Monoid>(d: Seq<M::S>, k: int, size: int, l: int)
    requires 1 <= k < 2 * size, is_p2(size as nat), d.len() == 2 * size, nodes_ok::<M>(d, 1, size), 0 <= l <= lo(k, size),
    ensures
        fr::<M>(d, l, hi(k, size)) == M::m_op(fr::<M>(d, l, lo(k, size)), d[k]),
        size <= lo(k, size) < hi(k, size) <= 2 * size,
{
    lemma_node_range::<M>(d, k, size);
    lemma_fr_split::<M>(d, l, lo(k, size), hi(k, size));
}

pub proof fn lemma_extend_left<M: Monoid>(d: Seq<M::S>, k: int, size: int, r: int)
    requires 1 <= k < 2 * size, is_p2(size as nat), d.len() == 2 * size, nodes_ok::<M>(d, 1, size), hi(k, size) <= r <= 2 * size,
    ensures
        fr::<M>(d, lo(k, size), r) == M::m_op(d[k], fr::<M>(d, hi(k, size), r)),
        size <= lo(k, size) < hi(k, size) <= 2 * size,
{
    lemma_node_range::<M>(d, k, size);
    lemma_fr_split::<M>(d, lo(k, size), hi(k, size), r);
}

/// identity leaves add nothing on the right
pub proof fn lemma_pad<M: Monoid>(d: Seq<M::S>, l: int, m: int, r: int)
    requires 0 <= l <= m <= r <= d.len(), forall|i: int| m <= i < r ==> d[i] == M::m_id(),
    ensures fr::<M>(d, l, r) == fr::<M>(d, l, m),
{
    lemma_fr_split::<M>(d, l, m, r);
    lemma_fr_ids::<M>(d, m, r);
    M::law_id(fr::<M>(d, l, m));
}
