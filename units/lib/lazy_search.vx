/// a predicate given as a closure: callable on everything and deterministic
pub open spec fn is_pred_v<S, G: Fn(S) -> bool>(g: G) -> bool {
    &&& forall|x: S| #[trigger] g.requires((x,))
    &&& forall|x: S| !(#[trigger] g.ensures((x,), true) && #[trigger] g.ensures((x,), false))
}
/// after the halvings of the climb from x, nothing is pending above the node reached
pub open spec fn clean_r<F: MapMonoid>(lz: Seq<F::F>, x: int) -> bool
    decreases x,
{
    if x < 1 { true } else if x % 2 == 0 { clean_r::<F>(lz, x / 2) } else { clean::<F>(lz, x / 2) }
}
pub open spec fn clean_l<F: MapMonoid>(lz: Seq<F::F>, x: int) -> bool
    decreases x,
{
    if x < 1 { true } else if x % 2 == 1 && x > 1 { clean_l::<F>(lz, x / 2) } else { clean::<F>(lz, x / 2) }
}
pub proof fn lemma_clean_r<F: MapMonoid>(lz: Seq<F::F>, x: int)
    requires clean::<F>(lz, x / 2),
    ensures clean_r::<F>(lz, x),
    decreases x,
{
    if x >= 1 && x % 2 == 0 { lemma_clean_r::<F>(lz, x / 2); }
}
pub proof fn lemma_clean_l<F: MapMonoid>(lz: Seq<F::F>, x: int)
    requires clean::<F>(lz, x / 2),
    ensures clean_l::<F>(lz, x),
    decreases x,
{
    if x > 1 && x % 2 == 1 { lemma_clean_l::<F>(lz, x / 2); }
}
pub proof fn lemma_clean_r_next<F: MapMonoid>(lz: Seq<F::F>, q: int)
    requires clean::<F>(lz, q), q >= 0,
    ensures clean_r::<F>(lz, q + 1),
    decreases q,
{
    if (q + 1) % 2 == 0 {
        assert((q + 1) / 2 == q / 2 + 1);
        lemma_clean_r_next::<F>(lz, q / 2);
    } else {
        assert((q + 1) / 2 == q / 2);
    }
}
pub proof fn lemma_clean_l_next<F: MapMonoid>(lz: Seq<F::F>, q: int)
    requires clean::<F>(lz, q), q >= 1, !is_p2(q as nat),
    ensures clean_l::<F>(lz, q - 1),
    decreases q,
{
    if (q - 1) % 2 == 1 {
        assert((q - 1) / 2 == q / 2 - 1);
        assert(!is_p2((q / 2) as nat)) by { assert((q as nat) / 2 == (q / 2) as nat); }
        lemma_clean_l_next::<F>(lz, q / 2);
    } else {
        assert((q - 1) / 2 == q / 2);
    }
}
impl<F: MapMonoid> LazySegtree<F> {
    /// everything the boundary searches rely on, unchanged by a push
    pub closed spec fn srch(&self, d: Seq<<F::M as Monoid>::S>, o: &Self) -> bool {
        &&& self.wf() && self.same(o) && self.tree() == d && self@ == o@
        &&& is_p2(self.size as nat) && d.len() == 2 * self.size && nodes_ok::<F::M>(d, 1, self.size as int)
        &&& forall|i: int| self.size + self.n <= i < 2 * self.size ==> d[i] == <F::M as Monoid>::m_id()
        &&& self@ == d.subrange(self.size as int, self.size + self.n)
    }
    pub proof fn lemma_srch(&self)
        requires self.wf(),
        ensures self.srch(self.tree(), self),
    {
        lemma_is_p2_pow2(self.log as nat);
        lemma_virt_ok::<F>(self.d@, self.lz@, self.size as int);
        assert forall|i: int| self.size + self.n <= i < 2 * self.size implies self.tree()[i] == <F::M as Monoid>::m_id() by { assert(#[trigger] self.tree()[i] == <F::M as Monoid>::m_id()); }
    }

//@fn data_structure/lazy_segtree.rs | LazySegtree::max_right | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires old(self).wf(), l <= old(self)@.len(), is_pred_v::<<F::M as Monoid>::S, G>(g), g.ensures((<F::M as Monoid>::m_id(),), true),
    ensures
        final(self).wf(), final(self)@ == old(self)@,
        l <= ret <= old(self)@.len(),
        g.ensures((fr::<F::M>(old(self)@, l as int, ret as int),), true),
        ret < old(self)@.len() ==> g.ensures((fr::<F::M>(old(self)@, l as int, ret + 1),), false),
//@entry
    let ghost l0 = l as int;
    let ghost size = self.size as int;
    let ghost a = l + size;
    let ghost d = self.tree();
    let ghost n = self.n as int;
    proof {
        self.lemma_srch();
        lemma_fr_empty::<F::M>(self@, l as int);
        lemma_fr_empty::<F::M>(d, a);
        assert forall|x: <F::M as Monoid>::S, y: <F::M as Monoid>::S| #[trigger] call_ensures(<<F::M as Monoid>::S as Clone>::clone, (&x,), y) implies y == x by {
            <F::M as Monoid>::law_clone(x, y);
        }
    }
//@loop 0
    invariant
        self.srch(d, old(self)), size == self.size, n == self.n, l == l0 + size, 0 <= l0 < n,
        1 <= vx_k0 <= self.log + 1, self.idle_all(l as int, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path(l, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof { lemma_idle_push::<F>(lz0, self.lz@, l as int, true, i0, self.log as int, sh(l as int, i0)); }
//@at loop0.after
    proof { self.lemma_clean_path(l as int); lemma_clean_r::<F>(self.lz@, l as int); }
//@loop 1
    invariant_except_break
        1 <= l < 2 * size, a <= lo(l as int, size), clean_r::<F>(self.lz@, l as int),
        g.ensures((sm,), true), sm == fr::<F::M>(d, a, lo(l as int, size)),
    invariant
        self.srch(d, old(self)), is_pred_v::<<F::M as Monoid>::S, G>(g),
        size == self.size, n == self.n, 0 <= l0 < n, a == l0 + size,
    ensures
        g.ensures((fr::<F::M>(d, a, 2 * size),), true),
    decreases 2 * size - lo(l as int, size),
//@at loop1.head
    broadcast use group_bits;
    let ghost lo1 = lo(l as int, size);
//@loop 2
    invariant
        size <= 0x1_0000_0000,
        1 <= l < 2 * size, lo(l as int, size) == lo1, clean_r::<F>(self.lz@, l as int),
    decreases l,
//@at loop2.head
    broadcast use group_bits;
    proof { assert(l as int == 2 * (l as int / 2)); }
//@at loop2.after
    let ghost l1 = l as int;
    proof { lemma_extend_right::<F::M>(d, l1, size, a); lemma_virt_clean::<F>(self.d@, self.lz@, l1); }
//@loop 3
    invariant
        self.srch(d, old(self)), is_pred_v::<<F::M as Monoid>::S, G>(g),
        size == self.size, n == self.n, 0 <= l0 < n, a == l0 + size,
        1 <= l < 2 * size, a <= lo(l as int, size), clean::<F>(self.lz@, l as int / 2),
        g.ensures((fr::<F::M>(d, a, hi(l as int, size)),), false),
        g.ensures((sm,), true), sm == fr::<F::M>(d, a, lo(l as int, size)),
    decreases 2 * size - l,
//@at loop3.head
    let ghost k = l as int;
    let ghost lz0 = self.lz@;
    proof {
        lemma_mid(k, size);
        lemma_extend_right::<F::M>(d, 2 * k, size, a);
    }
//@at call:push#1.after
    proof {
        lemma_clean_frame::<F>(lz0, self.lz@, k / 2);
        assert(self.lz@[k] == F::mm_id());
        assert(clean::<F>(self.lz@, k));
        lemma_virt_clean::<F>(self.d@, self.lz@, 2 * k);
    }
//@at loop3.after
    proof {
        if l >= size + n {
            lemma_pad::<F::M>(d, a, size + n, l as int);
            lemma_pad::<F::M>(d, a, size + n, l + 1);
        }
        lemma_fr_view::<F::M>(d, size, n, l0, l - size);
        lemma_fr_view::<F::M>(d, size, n, l0, l - size + 1);
    }
//@at set:l#4.after
    proof {
        lemma_p2_usize(l);
        lemma_clean_r_next::<F>(self.lz@, l1 / 2);
        if l1 % 2 == 1 { assert((l1 + 1) / 2 == l1 / 2 + 1); }
        if is_p2(l as nat) {
            lemma_last(l1, size);
        } else {
            assert(((2 * size) as nat) / 2 == size as nat);
            assert(is_p2((2 * size) as nat));
            lemma_adj(l1, size);
        }
    }
//@at loop1.after
    proof {
        lemma_pad::<F::M>(d, a, size + n, 2 * size);
        lemma_fr_view::<F::M>(d, size, n, l0, n);
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::min_left | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires old(self).wf(), r <= old(self)@.len(), is_pred_v::<<F::M as Monoid>::S, G>(g), g.ensures((<F::M as Monoid>::m_id(),), true),
    ensures
        final(self).wf(), final(self)@ == old(self)@,
        0 <= ret <= r,
        g.ensures((fr::<F::M>(old(self)@, ret as int, r as int),), true),
        ret > 0 ==> g.ensures((fr::<F::M>(old(self)@, ret - 1, r as int),), false),
//@entry
    let ghost r0 = r as int;
    let ghost size = self.size as int;
    let ghost b = r + size;
    let ghost d = self.tree();
    let ghost n = self.n as int;
    proof {
        self.lemma_srch();
        lemma_fr_empty::<F::M>(self@, r as int);
        lemma_fr_empty::<F::M>(d, b);
        assert forall|x: <F::M as Monoid>::S, y: <F::M as Monoid>::S| #[trigger] call_ensures(<<F::M as Monoid>::S as Clone>::clone, (&x,), y) implies y == x by {
            <F::M as Monoid>::law_clone(x, y);
        }
    }
//@loop 0
    invariant
        self.srch(d, old(self)), size == self.size, n == self.n, r == r0 + size, 0 < r0 <= n,
        1 <= vx_k0 <= self.log + 1, self.idle_all(r - 1, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path((r - 1) as usize, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof { lemma_idle_push::<F>(lz0, self.lz@, r - 1, true, i0, self.log as int, sh(r - 1, i0)); }
//@at loop0.after
    proof { self.lemma_clean_path(r - 1); lemma_clean_l::<F>(self.lz@, r - 1); }
//@at loop1.before
    proof { lemma_hi_leaf(r - 1, size); }
//@loop 1
    invariant_except_break
        2 <= r <= 2 * size, hi(r - 1, size) <= b, clean_l::<F>(self.lz@, r - 1),
        g.ensures((sm,), true), sm == fr::<F::M>(d, hi(r - 1, size), b),
    invariant
        self.srch(d, old(self)), is_pred_v::<<F::M as Monoid>::S, G>(g),
        size == self.size, n == self.n, 0 < r0 <= n, b == r0 + size,
    ensures
        g.ensures((fr::<F::M>(d, size, b),), true),
    decreases hi(r - 1, size),
//@at loop1.head
    broadcast use group_bits;
    let ghost hi1 = hi(r - 1, size);
//@loop 2
    invariant
        size <= 0x1_0000_0000,
        1 <= r < 2 * size, hi(r as int, size) == hi1, clean_l::<F>(self.lz@, r as int),
    decreases r,
//@at loop2.head
    broadcast use group_bits;
    proof { assert(r as int == 2 * (r as int / 2) + 1); }
//@at loop2.after
    let ghost r1 = r as int;
    proof { lemma_extend_left::<F::M>(d, r1, size, b); lemma_virt_clean::<F>(self.d@, self.lz@, r1); }
//@loop 3
    invariant
        self.srch(d, old(self)), is_pred_v::<<F::M as Monoid>::S, G>(g),
        size == self.size, n == self.n, 0 < r0 <= n, b == r0 + size,
        1 <= r < 2 * size, hi(r as int, size) <= b, clean::<F>(self.lz@, r as int / 2),
        g.ensures((fr::<F::M>(d, lo(r as int, size), b),), false),
        g.ensures((sm,), true), sm == fr::<F::M>(d, hi(r as int, size), b),
    decreases 2 * size - r,
//@at loop3.head
    let ghost k = r as int;
    let ghost lz0 = self.lz@;
    proof {
        lemma_mid(k, size);
        lemma_extend_left::<F::M>(d, 2 * k + 1, size, b);
    }
//@at call:push#1.after
    proof {
        lemma_clean_frame::<F>(lz0, self.lz@, k / 2);
        assert(self.lz@[k] == F::mm_id());
        assert(clean::<F>(self.lz@, k));
        lemma_virt_clean::<F>(self.d@, self.lz@, 2 * k + 1);
    }
//@at loop3.after
    proof {
        lemma_fr_view::<F::M>(d, size, n, r + 1 - size, r0);
        lemma_fr_view::<F::M>(d, size, n, r - size, r0);
    }
//@at set:sm#1.after
    proof {
        lemma_p2_usize(r);
        if is_p2(r as nat) {
            lemma_first(r1, size);
        } else {
            if r1 % 2 == 0 {
                lemma_clean_l_next::<F>(self.lz@, r1 / 2);
                assert((r1 - 1) / 2 == r1 / 2 - 1);
            }
            lemma_adj(r1 - 1, size);
        }
    }
//@at loop1.after
    proof {
        lemma_fr_view::<F::M>(d, size, n, 0, r0);
    }
//@end
}

pub proof fn lemma_hi_leaf(k: int, size: int)
    requires size <= k,
    ensures hi(k, size) == k + 1, lo(k, size) == k,
{
}
pub proof fn lemma_p2_usize(l: usize)
    requires 0 < l,
    ensures ((l & vstd_wneg(l)) == l) <==> is_p2(l as nat),
    decreases l,
{
    let m = vstd_wneg(l);
    lemma_wneg(l);
    if l == 1 {
        assert(l & m == 1) by (bit_vector) requires l == 1, m == sub(0, l);
    } else if l % 2 == 1 {
        assert(l & m == 1) by (bit_vector) requires m == sub(0, l), l % 2 == 1, l > 0;
    } else {
        let h = (l / 2) as usize;
        lemma_p2_usize(h);
        let hm = vstd_wneg(h);
        lemma_wneg(h);
        assert((l & m) == l <==> (h & hm) == h) by (bit_vector) requires m == sub(0, l), hm == sub(0, h), h == l / 2, l % 2 == 0, l > 0;
    }
}
pub open spec fn vstd_wneg(l: usize) -> usize { if l == 0 { 0usize } else { (usize::MAX - l + 1) as usize } }
pub proof fn lemma_wneg(l: usize)
    ensures vstd_wneg(l) == sub(0, l),
{
    if l > 0 {
        assert(sub(0, l) == add(sub(usize::MAX, l), 1)) by (bit_vector);
        assert(l <= usize::MAX);
    } else {
        assert(sub(0, l) == 0) by (bit_vector) requires l == 0;
    }
}
