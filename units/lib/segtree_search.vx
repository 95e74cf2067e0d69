impl<M: Monoid> Segtree<M> {
//@fn data_structure/segtree.rs | Segtree::max_right | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires self.wf(), l <= self@.len(), is_pred::<M::S, F>(f), f.ensures((&M::m_id(),), true),
    ensures
        l <= ret <= self@.len(),
        f.ensures((&fr::<M>(self@, l as int, ret as int),), true),
        ret < self@.len() ==> f.ensures((&fr::<M>(self@, l as int, ret + 1),), false),
//@entry
    let ghost l0 = l as int;
    let ghost size = self.size as int;
    let ghost a = l + size;
    let ghost d = self.d@;
    let ghost n = self.n as int;
    proof {
        lemma_is_p2_pow2(self.log as nat);
        lemma_fr_empty::<M>(self@, l as int);
        lemma_fr_empty::<M>(d, a);
    }
//@loop 0
    invariant_except_break
        1 <= l < 2 * size, a <= lo(l as int, size),
        f.ensures((&sm,), true), sm == fr::<M>(d, a, lo(l as int, size)),
    invariant
        self.wf(), is_pred::<M::S, F>(f),
        is_p2(size as nat), size == self.size, n == self.n, d == self.d@, 0 <= l0 < n, a == l0 + size,
    ensures
        f.ensures((&fr::<M>(d, a, 2 * size),), true),
    decreases 2 * size - lo(l as int, size),
//@loop 1
    invariant
        size <= 0x1_0000_0000,
        1 <= l < 2 * size, lo(l as int, size) == lo1,
    decreases l,
//@at loop1.head
    broadcast use group_bits;
    proof { assert(l as int == 2 * (l as int / 2)); }
//@at loop1.after
    let ghost l1 = l as int;
    proof { lemma_extend_right::<M>(d, l1, size, a); }
//@loop 2
    invariant
        self.wf(), is_pred::<M::S, F>(f),
        is_p2(size as nat), size == self.size, n == self.n, d == self.d@, 0 <= l0 < n, a == l0 + size,
        1 <= l < 2 * size, a <= lo(l as int, size),
        f.ensures((&fr::<M>(d, a, hi(l as int, size)),), false),
        f.ensures((&sm,), true), sm == fr::<M>(d, a, lo(l as int, size)),
    decreases 2 * size - l,
//@at loop2.head
    let ghost k = l as int;
    proof {
        lemma_mid(k, size);
        lemma_extend_right::<M>(d, 2 * k, size, a);
    }
//@at loop2.after
    proof {
        if l >= size + n {
            lemma_pad::<M>(d, a, size + n, l as int);
            lemma_pad::<M>(d, a, size + n, l + 1);
        }
        lemma_fr_view::<M>(d, size, n, l0, l - size);
        lemma_fr_view::<M>(d, size, n, l0, l - size + 1);
    }
//@at loop0.head
    broadcast use group_bits;
    let ghost lo1 = lo(l as int, size);
//@at set:l#4.after
    proof {
        lemma_p2_isize(l as isize);
        if is_p2(l as nat) {
            lemma_last(l1, size);
        } else {
            assert(((2 * size) as nat) / 2 == size as nat);
            assert(is_p2((2 * size) as nat));
            lemma_adj(l1, size);
        }
    }
//@at loop0.after
    proof {
        lemma_pad::<M>(d, a, size + n, 2 * size);
        lemma_fr_view::<M>(d, size, n, l0, n);
    }
//@end

//@fn data_structure/segtree.rs | Segtree::min_left | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires self.wf(), r <= self@.len(), is_pred::<M::S, F>(f), f.ensures((&M::m_id(),), true),
    ensures
        0 <= ret <= r,
        f.ensures((&fr::<M>(self@, ret as int, r as int),), true),
        ret > 0 ==> f.ensures((&fr::<M>(self@, ret - 1, r as int),), false),
//@entry
    let ghost r0 = r as int;
    let ghost size = self.size as int;
    let ghost b = r + size;
    let ghost d = self.d@;
    let ghost n = self.n as int;
    proof {
        lemma_is_p2_pow2(self.log as nat);
        lemma_fr_empty::<M>(self@, r as int);
        lemma_fr_empty::<M>(d, b);
    }
//@at loop0.before
    proof { lemma_hi_leaf(r - 1, size); }
//@loop 0
    invariant_except_break
        2 <= r <= 2 * size, hi(r - 1, size) <= b,
        f.ensures((&sm,), true), sm == fr::<M>(d, hi(r - 1, size), b),
    invariant
        self.wf(), is_pred::<M::S, F>(f),
        is_p2(size as nat), size == self.size, n == self.n, d == self.d@, 0 < r0 <= n, b == r0 + size,
    ensures
        f.ensures((&fr::<M>(d, size, b),), true),
    decreases hi(r - 1, size),
//@at loop0.head
    broadcast use group_bits;
    let ghost hi1 = hi(r - 1, size);
//@loop 1
    invariant
        size <= 0x1_0000_0000,
        1 <= r < 2 * size, hi(r as int, size) == hi1,
    decreases r,
//@at loop1.head
    broadcast use group_bits;
    proof { assert(r as int == 2 * (r as int / 2) + 1); }
//@at loop1.after
    let ghost r1 = r as int;
    proof { lemma_extend_left::<M>(d, r1, size, b); }
//@loop 2
    invariant
        self.wf(), is_pred::<M::S, F>(f),
        is_p2(size as nat), size == self.size, n == self.n, d == self.d@, 0 < r0 <= n, b == r0 + size,
        1 <= r < 2 * size, hi(r as int, size) <= b,
        f.ensures((&fr::<M>(d, lo(r as int, size), b),), false),
        f.ensures((&sm,), true), sm == fr::<M>(d, hi(r as int, size), b),
    decreases 2 * size - r,
//@at loop2.head
    let ghost k = r as int;
    proof {
        lemma_mid(k, size);
        lemma_extend_left::<M>(d, 2 * k + 1, size, b);
    }
//@at loop2.after
    proof {
        lemma_fr_view::<M>(d, size, n, r + 1 - size, r0);
        lemma_fr_view::<M>(d, size, n, r - size, r0);
    }
//@at set:sm#1.after
    proof {
        lemma_p2_isize(r as isize);
        if is_p2(r as nat) {
            lemma_first(r1, size);
        } else {
            lemma_adj(r1 - 1, size);
        }
    }
//@at loop0.after
    proof {
        lemma_fr_view::<M>(d, size, n, 0, r0);
    }
//@end
}

pub proof fn lemma_hi_leaf(k: int, size: int)
    requires size <= k,
    ensures hi(k, size) == k + 1, lo(k, size) == k,
{
}
