// generated by tools/gen_modint.py
impl<I: Id> DynamicModInt<I> {
    pub open spec fn sum_of(s: Seq<int>) -> int
        decreases s.len(),
    { if s.len() == 0 { 0 } else { Self::sum_of(s.drop_last()) + s.last() } }
    pub open spec fn prod_of(s: Seq<int>) -> int
        decreases s.len(),
    { if s.len() == 0 { 1 } else { Self::prod_of(s.drop_last()) * s.last() } }
}

impl<I: Id> DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@Sum::sum#o | ret=r | as=sum_own | hdr=impl<I: Id> Sum<Self> for DynamicModInt<I>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        iter.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < iter.remaining().len() ==> (#[trigger] iter.remaining()[i]).wf(),
    ensures
        r.wf(),
        r == Self::res(Self::sum_of(Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v()))),
//@entry
    let ghost s = Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v());
    let ghost all = iter.remaining();
    let ghost mut k: int = 0;
    proof { Self::lemma_res(0); }
//@loop 0
    invariant
        vx_it.obeys_prophetic_iter_laws(),
        0 <= k <= all.len(),
        vx_it.remaining() == all.skip(k),
        vx_acc.wf(),
        vx_acc == Self::res(Self::sum_of(s.take(k))),
    ensures
        k == all.len(),
//@at arm0.head
    proof {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(vx_x == all[k]);
        assert(vx_x.wf());
        assert(t.last() == vx_x.v());
        Self::lemma_res(Self::sum_of(s.take(k)));
        lemma_add_mod_left(Self::sum_of(s.take(k)), vx_x.v(), Self::m());
        Self::lemma_res(vx_acc.v() + vx_x.v());
        k = k + 1;
    }
//@at loop0.before
    proof { assert(s.take(0) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }
//@at loop0.after
    proof { assert(s.take(k) =~= s); }
//@end
}

impl<'a, I: Id> DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@Sum::sum#r | ret=r | as=sum_refs | hdr=impl<'a, I: Id> Sum<&'a Self> for DynamicModInt<I>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        iter.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < iter.remaining().len() ==> (#[trigger] iter.remaining()[i]).wf(),
    ensures
        r.wf(),
        r == Self::res(Self::sum_of(Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v()))),
//@entry
    let ghost s = Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v());
    let ghost all = iter.remaining();
    let ghost mut k: int = 0;
    proof { Self::lemma_res(0); }
//@loop 0
    invariant
        vx_it.obeys_prophetic_iter_laws(),
        0 <= k <= all.len(),
        vx_it.remaining() == all.skip(k),
        vx_acc.wf(),
        vx_acc == Self::res(Self::sum_of(s.take(k))),
    ensures
        k == all.len(),
//@at arm0.head
    proof {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(vx_x == all[k]);
        assert(vx_x.wf());
        assert(t.last() == vx_x.v());
        Self::lemma_res(Self::sum_of(s.take(k)));
        lemma_add_mod_left(Self::sum_of(s.take(k)), vx_x.v(), Self::m());
        Self::lemma_res(vx_acc.v() + vx_x.v());
        k = k + 1;
    }
//@at loop0.before
    proof { assert(s.take(0) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }
//@at loop0.after
    proof { assert(s.take(k) =~= s); }
//@end
}

impl<I: Id> DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@Product::product#o | ret=r | as=product_own | hdr=impl<I: Id> Product<Self> for DynamicModInt<I>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        iter.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < iter.remaining().len() ==> (#[trigger] iter.remaining()[i]).wf(),
    ensures
        r.wf(),
        r == Self::res(Self::prod_of(Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v()))),
//@entry
    let ghost s = Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v());
    let ghost all = iter.remaining();
    let ghost mut k: int = 0;
    proof { Self::lemma_res(1); }
//@loop 0
    invariant
        vx_it.obeys_prophetic_iter_laws(),
        0 <= k <= all.len(),
        vx_it.remaining() == all.skip(k),
        vx_acc.wf(),
        vx_acc == Self::res(Self::prod_of(s.take(k))),
    ensures
        k == all.len(),
//@at arm0.head
    proof {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(vx_x == all[k]);
        assert(vx_x.wf());
        assert(t.last() == vx_x.v());
        Self::lemma_res(Self::prod_of(s.take(k)));
        lemma_mul_mod_noop_left(Self::prod_of(s.take(k)), vx_x.v(), Self::m());
        Self::lemma_res(vx_acc.v() * vx_x.v());
        k = k + 1;
    }
//@at loop0.before
    proof { assert(s.take(0) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }
//@at loop0.after
    proof { assert(s.take(k) =~= s); }
//@end
}

impl<'a, I: Id> DynamicModInt<I> {
//@fn exp:misc::modint | DynamicModInt@Product::product#r | ret=r | as=product_refs | hdr=impl<'a, I: Id> Product<&'a Self> for DynamicModInt<I>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        iter.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < iter.remaining().len() ==> (#[trigger] iter.remaining()[i]).wf(),
    ensures
        r.wf(),
        r == Self::res(Self::prod_of(Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v()))),
//@entry
    let ghost s = Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v());
    let ghost all = iter.remaining();
    let ghost mut k: int = 0;
    proof { Self::lemma_res(1); }
//@loop 0
    invariant
        vx_it.obeys_prophetic_iter_laws(),
        0 <= k <= all.len(),
        vx_it.remaining() == all.skip(k),
        vx_acc.wf(),
        vx_acc == Self::res(Self::prod_of(s.take(k))),
    ensures
        k == all.len(),
//@at arm0.head
    proof {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(vx_x == all[k]);
        assert(vx_x.wf());
        assert(t.last() == vx_x.v());
        Self::lemma_res(Self::prod_of(s.take(k)));
        lemma_mul_mod_noop_left(Self::prod_of(s.take(k)), vx_x.v(), Self::m());
        Self::lemma_res(vx_acc.v() * vx_x.v());
        k = k + 1;
    }
//@at loop0.before
    proof { assert(s.take(0) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }
//@at loop0.after
    proof { assert(s.take(k) =~= s); }
//@end
}
