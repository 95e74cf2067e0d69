//@struct data_structure/segtree.rs | Segtree

impl<M: Monoid> Segtree<M> {
    /// the logical array
    pub closed spec fn view(&self) -> Seq<M::S> {
        self.d@.subrange(self.size as int, self.size + self.n)
    }
    pub closed spec fn shape(&self) -> bool {
        &&& self.log <= 32
        &&& self.size == pow2(self.log as nat)
        &&& 1 <= self.size <= 0x1_0000_0000
        &&& self.n <= self.size
        &&& self.d@.len() == 2 * self.size
        &&& forall|i: int| self.size + self.n <= i < 2 * self.size ==> self.d@[i] == M::m_id()
    }
    pub closed spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& nodes_ok::<M>(self.d@, 1, self.size as int)
    }
}

impl<M: Monoid> Segtree<M> {
//@fn data_structure/segtree.rs | Segtree@From::from | as=from | ret=ret
//@spec
    requires v@.len() <= 0xffff_ffff,
    ensures ret.wf(), ret@ == v@,
//@at let:size#0.before
    proof { lemma_shl1(log); }
//@at let:ret#0.before
    proof {
        assert forall|i: int| 0 <= i < d@.len() && !(size <= i < size + n) implies d@[i] == M::m_id() by {
            M::law_clone(M::m_id(), d@[i]);
        }
        assert forall|i: int| size <= i < size + n implies d@[i] == v@[i - size] by {
            M::law_clone(v@[i - size], d@[i]);
        }
    }
//@at let:ret#0.after
    proof { assert(ret@ =~= v@); }
//@loop 0
    invariant
        ret.shape(), ret@ == v@, ret.size == size,
        1 <= vx_k0 <= ret.size,
        nodes_ok::<M>(ret.d@, vx_k0 as int, ret.size as int),
    decreases vx_k0,
//@at loop0.head
    let ghost d0 = ret.d@;
    let ghost b0 = vx_k0 as int;
//@at loop0.bodyend
    proof {
        assert forall|k: int| vx_k0 <= k < ret.size implies #[trigger] node_ok::<M>(ret.d@, k) by {
            if k >= b0 { assert(node_ok::<M>(d0, k)); }
        }
    }
//@end

//@fn data_structure/segtree.rs | Segtree::new | ret=ret
//@subst vec![M::identity(); n].into() ==> Segtree::from(vec![M::identity(); n])
//@spec
    requires n <= 0xffff_ffff,
    ensures ret.wf(), ret@.len() == n, forall|i: int| 0 <= i < n ==> ret@[i] == M::m_id(),
//@exit
    proof {
        assert forall|i: int| 0 <= i < n implies ret@[i] == M::m_id() by {
            M::law_clone(M::m_id(), ret@[i]);
        }
    }
//@end

//@fn data_structure/segtree.rs | Segtree@Default::default | as=default | ret=ret
//@spec
    ensures ret.wf(), ret@.len() == 0,
//@end

//@fn data_structure/segtree.rs | Segtree::update
//@spec
    requires old(self).shape(), 1 <= k < old(self).size,
    ensures
        final(self).shape(), final(self).size == old(self).size, final(self).n == old(self).n, final(self).log == old(self).log,
        final(self).d@ == old(self).d@.update(k as int, M::m_op(old(self).d@[2 * k as int], old(self).d@[2 * k + 1])),
        final(self)@ == old(self)@,
//@exit
    proof {
        assert(self.d@ =~= old(self).d@.update(k as int, M::m_op(old(self).d@[2 * k as int], old(self).d@[2 * k + 1])));
        assert(self@ =~= old(self)@);
    }
//@end

//@fn data_structure/segtree.rs | Segtree::set
//@spec
    requires old(self).wf(), p < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@.update(p as int, x),
//@entry
    let ghost p0 = p as int;
//@loop 0
    invariant
        self.shape(), self.size == old(self).size, self.n == old(self).n, self.log == old(self).log,
        vx_e0 == self.log, 1 <= i <= self.log + 1, self.size <= p < 2 * self.size, p == p0 + self.size,
        self@ == old(self)@.update(p0, x),
        (p >> ((i - 1) as usize)) >= 1,
        forall|k: int| 1 <= k < self.size && !anc(k, (p >> ((i - 1) as usize)) as int / 2) ==> #[trigger] node_ok::<M>(self.d@, k),
    decreases self.log + 1 - i,
//@at loop0.before
    proof {
        assert(self@ =~= old(self)@.update(p0, x));
        bit_shr_pow2(p, 0); lemma2_to64();
        assert forall|k: int| 1 <= k < self.size && !anc(k, p as int / 2) implies #[trigger] node_ok::<M>(self.d@, k) by {
            assert(node_ok::<M>(old(self).d@, k));
            assert(anc(p as int / 2, p as int / 2));
        }
    }
//@at loop0.head
    let ghost d0 = self.d@;
    let ghost q = (p >> i) as int;
    proof {
        bit_shr_step(p, (i - 1) as usize);
        bit_shr_pow2(p, i);
        lemma_anc_pos(p, i, self.log);
        assert(q == (p >> ((i - 1) as usize)) as int / 2);
    }
//@at loop0.bodyend
    proof {
        assert forall|k: int| 1 <= k < self.size && !anc(k, q / 2) implies #[trigger] node_ok::<M>(self.d@, k) by {
            if k != q {
                assert(!anc(k, q));
                assert(node_ok::<M>(d0, k));
                assert(anc(q / 2, q / 2) || q / 2 == 0);
            }
        }
    }
//@at loop0.after
    proof {
        bit_shr_pow2(p, self.log);
        assert((p >> self.log) == 1) by {
            lemma_fundamental_div_mod(p as int, self.size as int);
            lemma_div_bounds_1(p as int, self.size as int);
        }
        assert forall|k: int| 1 <= k < self.size implies #[trigger] node_ok::<M>(self.d@, k) by { assert(!anc(k, 0)); }
    }
//@end

//@fn data_structure/segtree.rs | Segtree::get | ret=ret
//@spec
    requires self.wf(), p < self@.len(),
    ensures ret == self@[p as int],
//@exit
    proof { M::law_clone(self.d@[p + self.size], ret); }
//@end

//@fn data_structure/segtree.rs | Segtree::prod | ret=ret
//@spec
    requires self.wf(), l <= r <= self@.len(),
    ensures ret == fr::<M>(self@, l as int, r as int),
//@entry
    broadcast use group_bits;
    let ghost l0 = l as int;
    let ghost r0 = r as int;
    proof { lemma_fr_view::<M>(self.d@, self.size as int, self.n as int, l0, r0); }
//@at loop0.before
    proof {
        M::law_id(fr::<M>(self.d@, l as int, r as int));
    }
//@loop 0
    invariant
        self.wf(), 1 <= l <= r <= 2 * self.size,
        M::m_op(sml, M::m_op(fr::<M>(self.d@, l as int, r as int), smr)) == fr::<M>(self@, l0, r0),
    decreases r,
//@at loop0.head
    broadcast use group_bits;
    proof { lemma_prod_step::<M>(self.d@, self.size as int, l as int, r as int, sml, smr); }
//@at loop0.after
    proof { lemma_fr_empty::<M>(self.d@, l as int); M::law_id(smr); }
//@end

//@fn data_structure/segtree.rs | Segtree::all_prod | ret=ret
//@spec
    requires self.wf(),
    ensures ret == fr::<M>(self@, 0, self@.len() as int),
//@exit
    proof {
        M::law_clone(self.d@[1], ret);
        lemma_root::<M>(self.d@, self.log as nat, self.log as nat);
        lemma_fr_view::<M>(self.d@, self.size as int, self.n as int, 0, self.n as int);
        lemma_fr_split::<M>(self.d@, self.size as int, self.size + self.n, 2 * self.size);
        lemma_fr_ids::<M>(self.d@, self.size + self.n, 2 * self.size);
        M::law_id(fr::<M>(self@, 0, self.n as int));
    }
//@end
}

pub proof fn lemma_div_bounds_1(p: int, s: int)
    requires 1 <= s <= p < 2 * s,
    ensures p / s == 1,
{
    assert(p / s == 1) by (nonlinear_arith) requires 1 <= s <= p < 2 * s;
}

pub proof fn lemma_anc_pos(p: usize, i: usize, log: usize)
    requires 1 <= i <= log <= 32, pow2(log as nat) <= p < 2 * pow2(log as nat),
    ensures 1 <= (p >> i) < pow2(log as nat),
{
    bit_shr_pow2(p, i);
    lemma_pow2_pos(i as nat);
    if i < log { lemma_pow2_strictly_increases(i as nat, log as nat); }
    if i > 1 { lemma_pow2_strictly_increases(1, i as nat); }
    lemma2_to64();
    let q = pow2(i as nat) as int;
    let s = pow2(log as nat) as int;
    assert(1 <= p as int / q < s) by (nonlinear_arith) requires 2 <= q <= s, s <= p < 2 * s;
}
