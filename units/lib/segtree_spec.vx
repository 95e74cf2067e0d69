// ---- tree facts over the array d of a complete binary tree (children of k are 2k and 2k+1)
pub open spec fn node_ok<M: Monoid>(d: Seq<M::S>, k: int) -> bool {
    d[k] == M::m_op(d[2 * k], d[2 * k + 1])
}

pub open spec fn nodes_ok<M: Monoid>(d: Seq<M::S>, lo: int, hi: int) -> bool {
    forall|k: int| lo <= k < hi ==> #[trigger] node_ok::<M>(d, k)
}

/// k is q or an ancestor of q
pub open spec fn anc(k: int, q: int) -> bool
    decreases q,
{
    if q <= 0 { false } else { k == q || anc(k, q / 2) }
}

pub proof fn lemma_halve<M: Monoid>(d: Seq<M::S>, l: int, r: int)
    requires
        1 <= l <= r,
        2 * r <= d.len(),
        nodes_ok::<M>(d, l, r),
    ensures
        fr::<M>(d, 2 * l, 2 * r) == fr::<M>(d, l, r),
    decreases r - l,
{
    if l == r {
        lemma_fr_empty::<M>(d, l);
        lemma_fr_empty::<M>(d, 2 * l);
    } else {
        lemma_halve::<M>(d, l, r - 1);
        assert(node_ok::<M>(d, r - 1));
        lemma_fr_split::<M>(d, l, r - 1, r);
        lemma_fr_one::<M>(d, r - 1);
        lemma_fr_split::<M>(d, 2 * l, 2 * r - 2, 2 * r);
        lemma_fr_split::<M>(d, 2 * r - 2, 2 * r - 1, 2 * r);
        lemma_fr_one::<M>(d, 2 * r - 2);
        lemma_fr_one::<M>(d, 2 * r - 1);
    }
}

pub proof fn lemma_assoc5<M: Monoid>(a: M::S, b: M::S, c: M::S, d: M::S, e: M::S)
    ensures
        M::m_op(a, M::m_op(M::m_op(b, M::m_op(c, d)), e)) == M::m_op(M::m_op(a, b), M::m_op(c, M::m_op(d, e))),
{
    M::law_assoc(b, M::m_op(c, d), e);
    M::law_assoc(c, d, e);
    M::law_assoc(a, b, M::m_op(c, M::m_op(d, e)));
}

/// one round of the two-sided bottom-up walk
pub proof fn lemma_prod_step<M: Monoid>(d: Seq<M::S>, size: int, l: int, r: int, a: M::S, z: M::S)
    requires
        1 <= l < r,
        r <= 2 * size,
        d.len() == 2 * size,
        nodes_ok::<M>(d, 1, size),
    ensures
        ({
            let l1 = if l % 2 == 1 { l + 1 } else { l };
            let r1 = if r % 2 == 1 { r - 1 } else { r };
            let a1 = if l % 2 == 1 { M::m_op(a, d[l]) } else { a };
            let z1 = if r % 2 == 1 { M::m_op(d[r - 1], z) } else { z };
            M::m_op(a, M::m_op(fr::<M>(d, l, r), z)) == M::m_op(a1, M::m_op(fr::<M>(d, l1 / 2, r1 / 2), z1))
        }),
{
    let l1 = if l % 2 == 1 { l + 1 } else { l };
    let r1 = if r % 2 == 1 { r - 1 } else { r };
    assert(l1 <= r1);
    lemma_fr_split::<M>(d, l, l1, r);
    lemma_fr_split::<M>(d, l1, r1, r);
    lemma_fr_one::<M>(d, l);
    lemma_fr_one::<M>(d, r - 1);
    lemma_fr_empty::<M>(d, l);
    lemma_fr_empty::<M>(d, r);
    assert(l1 == 2 * (l1 / 2) && r1 == 2 * (r1 / 2));
    lemma_halve::<M>(d, l1 / 2, r1 / 2);
    lemma_assoc5::<M>(a, fr::<M>(d, l, l1), fr::<M>(d, l1, r1), fr::<M>(d, r1, r), z);
    M::law_id(a);
    M::law_id(z);
}

/// the root holds the product of all leaves
pub proof fn lemma_root<M: Monoid>(d: Seq<M::S>, log: nat, j: nat)
    requires
        d.len() == 2 * pow2(log),
        nodes_ok::<M>(d, 1, pow2(log) as int),
        j <= log,
    ensures
        d[1] == fr::<M>(d, pow2(j) as int, 2 * pow2(j) as int),
    decreases j,
{
    lemma_pow2_pos(log);
    if j == 0 {
        lemma2_to64();
        lemma_fr_one::<M>(d, 1);
    } else {
        let i = (j - 1) as nat;
        lemma_root::<M>(d, log, i);
        lemma_pow2_unfold(j);
        lemma_pow2_pos(i);
        if j < log {
            lemma_pow2_strictly_increases(j, log);
        }
        lemma_halve::<M>(d, pow2(i) as int, 2 * pow2(i) as int);
    }
}

pub proof fn lemma_shl1(log: usize)
    requires log <= 32,
    ensures 1usize << log == pow2(log as nat), pow2(log as nat) <= 0x1_0000_0000, pow2(log as nat) >= 1,
{
    lemma2_to64();
    lemma_pow2_pos(log as nat);
    if log < 32 { lemma_pow2_strictly_increases(log as nat, 32); }
    lemma_usize_shl_is_mul(1, log);
}

/// the padded leaves beyond n do not matter
pub proof fn lemma_fr_view<M: Monoid>(d: Seq<M::S>, size: int, n: int, l: int, r: int)
    requires 0 <= l <= r <= n <= size, d.len() == 2 * size,
    ensures fr::<M>(d, size + l, size + r) == fr::<M>(d.subrange(size, size + n), l, r),
{
    assert(d.subrange(size, size + n).subrange(l, r) =~= d.subrange(size + l, size + r));
}

pub proof fn lemma_anc_step(k: int, q: int)
    requires q >= 1, k >= 1,
    ensures anc(k, q) == (k == q || anc(k, q / 2)), anc(k, 0) == false, anc(q, q),
{
}
