use vstd::std_specs::iter::IteratorSpec;
//@struct data_structure/min_heap.rs | MinHeap | attr=#[verifier::reject_recursive_types(T)]
pub open spec fn unrev<T>(s: Seq<Reverse<T>>) -> Seq<T> {
    s.map_values(|x: Reverse<T>| x.0)
}
/// occurrences of x in s
pub open spec fn occ<T>(s: Seq<T>, x: T) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { (occ(s.drop_last(), x) + if s.last() == x { 1nat } else { 0nat }) as nat }
}
pub proof fn lemma_occ_multiset<T>(s: Seq<T>, x: T)
    ensures occ(s, x) == s.to_multiset().count(x),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_occ_multiset(s.drop_last(), x);
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(s =~= seq![]);
    }
}
pub proof fn lemma_occ_unrev<T>(s: Seq<Reverse<T>>, x: T)
    ensures occ(unrev(s), x) == occ(s, Reverse(x)),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_occ_unrev(s.drop_last(), x);
        assert(unrev(s).drop_last() =~= unrev(s.drop_last()));
        assert(s.last() == Reverse(s.last().0));
    }
}
impl<T> MinHeap<T> where Reverse<T>: Ord {
    /// how many times x is in the heap
    pub closed spec fn count(&self, x: T) -> nat { hv(self.0).count(Reverse(x)) }
    /// number of elements
    pub closed spec fn size(&self) -> nat { hv(self.0).len() }
    /// the heap as a multiset of Reverse-wrapped elements
    pub closed spec fn items(&self) -> Multiset<Reverse<T>> { hv(self.0) }
    pub proof fn lemma_items(&self)
        ensures self.size() == self.items().len(), forall|x: T| self.items().count(Reverse(x)) == #[trigger] self.count(x),
    {
    }
    pub proof fn lemma_empty(&self)
        requires self.size() == 0,
        ensures forall|x: T| #[trigger] self.count(x) == 0,
    {
        broadcast use group_multiset_axioms;
        assert forall|x: T| #[trigger] self.count(x) == 0 by {
            assert(hv(self.0).count(Reverse(x)) <= hv(self.0).len());
        }
    }
//@fn data_structure/min_heap.rs | MinHeap::new | ret=ret
//@spec
    ensures ret.size() == 0, forall|x: T| #[trigger] ret.count(x) == 0, ret.items() == Multiset::<Reverse<T>>::empty(),
//@end
//@fn data_structure/min_heap.rs | MinHeap::with_capacity | ret=ret
//@spec
    ensures ret.size() == 0, forall|x: T| #[trigger] ret.count(x) == 0, ret.items() == Multiset::<Reverse<T>>::empty(),
//@end
//@fn data_structure/min_heap.rs | MinHeap::push
//@spec
    ensures
        final(self).size() == old(self).size() + 1,
        forall|x: T| #[trigger] final(self).count(x) == old(self).count(x) + if x == item { 1nat } else { 0nat },
        final(self).items() == old(self).items().insert(Reverse(item)),
//@exit
    proof {
        assert forall|x: T| #[trigger] self.count(x) == old(self).count(x) + if x == item { 1nat } else { 0nat } by {
            assert((Reverse(x) == Reverse(item)) <==> x == item);
        }
    }
//@end
//@fn data_structure/min_heap.rs | MinHeap::pop | ret=ret
//@spec
    ensures match ret {
        Some(m) => {
            &&& old(self).count(m) > 0 && final(self).size() + 1 == old(self).size()
            &&& forall|x: T| old(self).count(x) == #[trigger] final(self).count(x) + if x == m { 1nat } else { 0nat }
            &&& total_cmp::<Reverse<T>>() ==> forall|x: T| #[trigger] old(self).count(x) > 0 ==> le(Reverse(x), Reverse(m))
            &&& final(self).items() == old(self).items().remove(Reverse(m))
        },
        None => old(self).size() == 0 && final(self).items() == old(self).items() && final(self).size() == 0,
    },
//@at arm0.head
    proof {
        assert(x == Reverse(x.0));
        assert forall|y: T| old(self).count(y) == #[trigger] self.count(y) + if y == x.0 { 1nat } else { 0nat } by {
            assert((Reverse(y) == x) <==> y == x.0);
        }
        if total_cmp::<Reverse<T>>() {
            axiom_top(old(self).0);
            assert forall|y: T| #[trigger] old(self).count(y) > 0 implies le(Reverse(y), Reverse(x.0)) by {
                assert(hv(old(self).0).contains(Reverse(y)));
            }
        }
    }
//@end
//@fn data_structure/min_heap.rs | MinHeap::peek | ret=ret
//@spec
    ensures match ret {
        Some(m) => self.count(*m) > 0 && (total_cmp::<Reverse<T>>() ==> forall|x: T| #[trigger] self.count(x) > 0 ==> le(Reverse(x), Reverse(*m))),
        None => self.size() == 0,
    },
//@at arm0.head
    proof {
        assert(*x == Reverse(x.0));
        if total_cmp::<Reverse<T>>() {
            axiom_top(self.0);
            assert forall|y: T| #[trigger] self.count(y) > 0 implies le(Reverse(y), Reverse(x.0)) by {
                assert(hv(self.0).contains(Reverse(y)));
            }
        }
    }
//@end
//@fn data_structure/min_heap.rs | MinHeap::len | ret=ret
//@spec
    ensures ret == self.size(),
//@end
//@fn data_structure/min_heap.rs | MinHeap::append
//@spec
    ensures
        final(self).size() == old(self).size() + old(other).size(), final(other).size() == 0,
        forall|x: T| #[trigger] final(self).count(x) == old(self).count(x) + old(other).count(x),
        forall|x: T| #[trigger] final(other).count(x) == 0,
//@end
//@fn data_structure/min_heap.rs | MinHeap::is_empty | ret=ret
//@spec
    ensures ret == (self.size() == 0),
//@end
//@fn data_structure/min_heap.rs | MinHeap::clear
//@spec
    ensures final(self).size() == 0, forall|x: T| #[trigger] final(self).count(x) == 0,
//@end
//@fn data_structure/min_heap.rs | MinHeap::into_sorted_vec | ret=ret | iterloop
//@spec
    ensures
        ret@.len() == self.size(),
        forall|x: T| #[trigger] occ(ret@, x) == self.count(x),
        // in descending order of T
        total_cmp::<Reverse<T>>() ==> forall|i: int, j: int| 0 <= i <= j < ret@.len() ==> le(Reverse(#[trigger] ret@[i]), Reverse(#[trigger] ret@[j])),
//@at loop0.before
    let ghost all = vx_it0.remaining();
//@loop 0
    invariant
        vx_it0.remaining() == all.skip(vx_out@.len() as int), vx_out@ =~= unrev(all.take(vx_out@.len() as int)), vx_out@.len() <= all.len(),
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease().is_some(),
    ensures
        vx_out@ == unrev(all),
    decreases vx_it0.decrease().unwrap(),
//@at loop0.after
    proof {
        assert(all.to_multiset() == hv(self.0));
        assert forall|x: T| #[trigger] occ(vx_out@, x) == self.count(x) by {
            lemma_occ_unrev(all, x);
            lemma_occ_multiset(all, Reverse(x));
        }
        assert(all.len() == all.to_multiset().len()) by { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
        assert forall|i: int| 0 <= i < vx_out@.len() implies Reverse(#[trigger] vx_out@[i]) == all[i] by {}
    }
//@end
}

/// the order of Reverse<T> is a total order and is that of T reversed
pub proof fn lemma_reverse<T: Ord>()
    where Reverse<T>: Ord
    requires total_cmp::<T>(),
    ensures
        total_cmp::<Reverse<T>>(),
        forall|x: T, y: T| #[trigger] le(Reverse(x), Reverse(y)) <==> le(y, x),
{
    axiom_reverse::<T>();
    assert forall|a: Reverse<T>, b: Reverse<T>, c: Reverse<T>| #[trigger] le(a, b) && #[trigger] le(b, c) implies le(a, c) by {
        assert(le(b.0, a.0) && le(c.0, b.0));
    }
}
