//@struct data_structure/fenwick_tree.rs | FenwickTree

impl<T: Elem> FenwickTree<T> {
    /// the tree represents the logical array s
    pub closed spec fn models(&self, s: Seq<T::D>) -> bool {
        &&& self.n == s.len()
        &&& self.ary@.len() == s.len()
        &&& s.len() < 0x7fff_ffff_ffff_ffff
        &&& forall|j: int| 1 <= j <= s.len() ==> (#[trigger] self.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), j)
    }
    pub closed spec fn wf(&self) -> bool {
        exists|s: Seq<T::D>| self.models(s)
    }
    /// the logical array (unique: lemma_models_unique)
    pub closed spec fn view(&self) -> Seq<T::D> {
        choose|s: Seq<T::D>| self.models(s)
    }
    proof fn lemma_agree(&self, s: Seq<T::D>, t: Seq<T::D>, k: int)
        requires self.models(s), self.models(t), 0 <= k <= s.len(),
        ensures forall|i: int| 0 <= i < k ==> s[i] == t[i],
        decreases k,
    {
        if k > 0 {
            self.lemma_agree(s, t, k - 1);
            lemma_lb(k);
            let l = k - lb(k);
            lemma_sum_frame::<T>(s, t, l, k - 1);
            assert(self.ary@[k - 1].val() == tot::<T>(s, l, k));
            assert(self.ary@[k - 1].val() == tot::<T>(t, l, k));
            T::law_cancel(tot::<T>(s, l, k - 1), s[k - 1], t[k - 1]);
        }
    }
    pub proof fn lemma_models(&self, s: Seq<T::D>)
        requires self.models(s),
        ensures self.wf(), self@ == s, self.n == s.len(), self.ary@.len() == self.n, self.n < 0x7fff_ffff_ffff_ffff,
    {
        let t = self@;
        assert(self.models(t));
        self.lemma_agree(s, t, s.len() as int);
        assert(s =~= t);
    }
    pub proof fn lemma_wf(&self)
        requires self.wf(),
        ensures self.models(self@), self.n == self@.len(), self.ary@.len() == self.n, self.n < 0x7fff_ffff_ffff_ffff,
    {
    }
}

/// what adding any value of a[i - lb(i)] + .. + a[i - 1] to the parent cell gives
pub proof fn lemma_child<T: Elem>(s: Seq<T::D>, x: T, i: int)
    requires
        1 <= i, i + lb(i) <= s.len(), no_overflow::<T>(s),
        x.val() == tot::<T>(s, i + lb(i) - lb(i + lb(i)), cov(i + lb(i), i - 1)),
    ensures
        forall|c: T| #[trigger] c.val() == tot::<T>(s, i - lb(i), i) ==> {
            &&& x.add_assign_req(c) && <T as AddAssignSpec<T>>::obeys_add_assign_spec()
            &&& x.add_assign_spec(c).val() == tot::<T>(s, i + lb(i) - lb(i + lb(i)), i)
            &&& x.add_req(c) && <T as AddSpec<T>>::obeys_add_spec()
            &&& x.add_spec(c).val() == tot::<T>(s, i + lb(i) - lb(i + lb(i)), i)
        },
{
    let j = i + lb(i);
    lemma_lb(i);
    lemma_cov_child(j, i);
    let l = j - lb(j);
    lemma_lb(j);
    lemma_sum_split::<T>(s, l, i - lb(i), i);
    assert(rep::<T>(tot::<T>(s, l, i)));
    assert forall|c: T| #[trigger] c.val() == tot::<T>(s, i - lb(i), i) implies {
            &&& x.add_assign_req(c) && <T as AddAssignSpec<T>>::obeys_add_assign_spec()
            &&& x.add_assign_spec(c).val() == tot::<T>(s, l, i)
            &&& x.add_req(c) && <T as AddSpec<T>>::obeys_add_spec()
            &&& x.add_spec(c).val() == tot::<T>(s, l, i)
        } by {
        T::law_add(x, c, wit::<T>(tot::<T>(s, l, i)));
    }
}

impl<T: Elem> FenwickTree<T> {
//@fn data_structure/fenwick_tree.rs | FenwickTree::new | ret=ret
//@spec
    requires n < 0x7fff_ffff_ffff_ffff,
    ensures ret.wf(), ret@ == Seq::new(n as nat, |i: int| T::zero()),
//@entry
    proof {
        T::law_default();
        assert forall|x: T, e: T| #[trigger] call_ensures(T::clone, (&x,), e) implies e == x by { T::law_clone(x, e); }
    }
//@exit
    proof {
        let s = Seq::new(n as nat, |i: int| T::zero());
        assert forall|j: int| 1 <= j <= n implies (#[trigger] ret.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), j) by {
            lemma_lb(j);
            lemma_sum_zero::<T>(s, j - lb(j), j);
            assert(ret.ary@[j - 1].val() == T::zero());
        }
        ret.lemma_models(s);
    }
//@end

//@fn data_structure/fenwick_tree.rs | FenwickTree::from | ret=ret
//@spec
    requires
        a@.len() < 0x7fff_ffff_ffff_ffff,
        no_overflow::<T>(vals::<T>(a@)),
    ensures ret.wf(), ret@ == vals::<T>(a@),
//@entry
    let ghost s = vals::<T>(a@);
//@at loop0.before
    proof {
        obj.lemma_wf();
        assert forall|j: int| 1 <= j <= n implies (#[trigger] obj.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), cov(j, 0)) by {
            lemma_cov_start(j);
            lemma_lb(j);
            lemma_sum_zero::<T>(obj@, j - lb(j), j);
        }
    }
//@loop 0
    invariant
        n == a@.len(), 1 <= i <= n + 1, obj.n == n, obj.ary@.len() == n, n < 0x7fff_ffff_ffff_ffff,
        s == vals::<T>(a@), no_overflow::<T>(s),
        forall|j: int| 1 <= j < i ==> (#[trigger] obj.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), j),
        forall|j: int| i <= j <= n ==> (#[trigger] obj.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), cov(j, i - 1)),
    decreases n + 1 - i,
//@at loop0.head
    let ghost o0 = obj.ary@;
    proof {
        let i = i as int;
        lemma_lb(i);
        lemma_cov_full(i);
        lemma_lb_neg(i as usize, (0xffff_ffff_ffff_ffff - i + 1) as usize);
        assert(tot::<T>(s, i - lb(i), i) == T::plus(tot::<T>(s, i - lb(i), i - 1), s[i - 1]));
        assert(rep::<T>(tot::<T>(s, i - lb(i), i)));
        assert(o0[i - 1].val() == tot::<T>(s, i - lb(i), i - 1));
        assert forall|c: T| #[trigger] call_ensures(T::clone, (&a@[i - 1],), c) implies c == a@[i - 1] by { T::law_clone(a@[i - 1], c); }
        T::law_add(o0[i - 1], a@[i - 1], wit::<T>(tot::<T>(s, i - lb(i), i)));
        let j = i + lb(i);
        if j <= n { lemma_child::<T>(s, o0[j - 1], i); }
    }
//@at loop0.bodyend
    proof {
        let i = i as int;
        assert forall|j: int| i < j <= n implies (#[trigger] obj.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), cov(j, i)) by {
            if j == i + lb(i) {
                lemma_cov_child(j, i);
            } else {
                lemma_cov_other(j, i);
                assert(obj.ary@[j - 1] == o0[j - 1]);
            }
        }
        assert forall|j: int| 1 <= j < i implies (#[trigger] obj.ary@[j - 1]).val() == tot::<T>(s, j - lb(j), j) by {
            assert(obj.ary@[j - 1] == o0[j - 1]);
        }
    }
//@at loop0.after
    proof { obj.lemma_models(s); }
//@end

//@fn data_structure/fenwick_tree.rs | FenwickTree::pref | ret=ret
//@spec
    requires self.wf(), idx <= self@.len(), no_overflow::<T>(self@),
    ensures ret.val() == tot::<T>(self@, 0, idx as int),
//@entry
    let ghost i0 = idx as int;
    let ghost s = self@;
    proof { T::law_default(); self.lemma_wf(); }
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        0 <= idx <= i0 <= s.len(),
        sum.val() == tot::<T>(s, idx as int, i0),
    decreases idx,
//@at loop0.head
    proof {
        let i = idx as int;
        lemma_lb(i);
        lemma_lb_dec(idx);
        lemma_lb_neg(idx, (0xffff_ffff_ffff_ffff - idx + 1) as usize);
        lemma_sum_split::<T>(s, i - lb(i), i, i0);
        T::law_plus(tot::<T>(s, i, i0), tot::<T>(s, i - lb(i), i), T::zero());
        assert(rep::<T>(tot::<T>(s, i - lb(i), i0)));
        assert(self.ary@[i - 1].val() == tot::<T>(s, i - lb(i), i));
        assert forall|c: T| #[trigger] call_ensures(T::clone, (&self.ary@[i - 1],), c) implies c == self.ary@[i - 1] by { T::law_clone(self.ary@[i - 1], c); }
        T::law_add(sum, self.ary@[i - 1], wit::<T>(tot::<T>(s, i - lb(i), i0)));
    }
//@end

//@fn data_structure/fenwick_tree.rs | FenwickTree::add
//@subst T: std::ops::AddAssign<U> ==> T: ElemAdd<U>
//@spec
    requires
        old(self).wf(), idx < old(self)@.len(),
        no_overflow::<T>(old(self)@),
        no_overflow::<T>(old(self)@.update(idx as int, T::plus(old(self)@[idx as int], T::uval(val)))),
    ensures
        final(self).wf(),
        final(self)@ == old(self)@.update(idx as int, T::plus(old(self)@[idx as int], T::uval(val))),
//@entry
    let ghost p = idx as int;
    let ghost s = self@;
    let ghost t = s.update(p, T::plus(s[p], T::uval(val)));
    let ghost a0 = self.ary@;
    proof { self.lemma_wf(); lemma_lb(p + 1); }
//@loop 0
    invariant
        n == s.len(), t == s.update(p, T::plus(s[p], T::uval(val))), no_overflow::<T>(t), no_overflow::<T>(s),
        n < 0x7fff_ffff_ffff_ffff, 0 <= p < n,
        self.n == n, self.ary@.len() == n, a0.len() == n,
        forall|j: int| 1 <= j <= n ==> (#[trigger] a0[j - 1]).val() == tot::<T>(s, j - lb(j), j),
        idx >= p + 1, idx - lb(idx as int) < p + 1,
        forall|j: int| 1 <= j <= n && j < idx ==> (#[trigger] self.ary@[j - 1]).val() == tot::<T>(t, j - lb(j), j),
        forall|j: int| 1 <= j <= n && j >= idx ==> (#[trigger] self.ary@[j - 1]) == a0[j - 1],
    decreases if idx <= n { n + 1 - idx } else { 0 },
//@at loop0.before
    proof {
        assert forall|j: int| 1 <= j <= n && j < idx implies (#[trigger] self.ary@[j - 1]).val() == tot::<T>(t, j - lb(j), j) by {
            lemma_sum_frame::<T>(s, t, j - lb(j), j);
        }
    }
//@at loop0.head
    let ghost i = idx as int;
    let ghost b0 = self.ary@;
    proof {
        lemma_lb(i);
        lemma_lb_up(i);
        lemma_lb_neg(idx, (0xffff_ffff_ffff_ffff - i + 1) as usize);
        lemma_lb(i + lb(i));
        let l = i - lb(i);
        lemma_sum_update::<T>(s, p, T::uval(val), l, i);
        assert(rep::<T>(tot::<T>(t, l, i)));
        assert(a0[i - 1].val() == tot::<T>(s, l, i));
        assert(b0[i - 1] == a0[i - 1]);
        T::law_add_u(b0[i - 1], val, val, wit::<T>(tot::<T>(t, l, i)));
        assert forall|c: U| #[trigger] call_ensures(U::clone, (&val,), c) implies b0[i - 1].add_assign_req(c) && <T as AddAssignSpec<U>>::obeys_add_assign_spec()
            && b0[i - 1].add_assign_spec(c).val() == tot::<T>(t, l, i) by {
            T::law_add_u(b0[i - 1], val, c, wit::<T>(tot::<T>(t, l, i)));
        }
    }
//@at loop0.bodyend
    proof {
        assert forall|j: int| 1 <= j <= n && j < idx implies (#[trigger] self.ary@[j - 1]).val() == tot::<T>(t, j - lb(j), j) by {
            if j > i {
                lemma_lb_between(i, j);
                lemma_sum_frame::<T>(s, t, j - lb(j), j);
                assert(self.ary@[j - 1] == b0[j - 1]);
            } else if j < i {
                assert(self.ary@[j - 1] == b0[j - 1]);
            }
        }
    }
//@at loop0.after
    proof { self.lemma_models(t); }
//@end

//@fn data_structure/fenwick_tree.rs | FenwickTree::sum | ret=ret
//@subst T: std::ops::Sub<Output = T> ==> T: ElemSub
//@spec
    requires self.wf(), l <= r <= self@.len(), no_overflow::<T>(self@),
    ensures ret.val() == tot::<T>(self@, l as int, r as int),
//@entry
    proof {
        let s = self@;
        let (l, r) = (l as int, r as int);
        lemma_sum_split::<T>(s, 0, l, r);
        T::law_plus(tot::<T>(s, 0, l), tot::<T>(s, l, r), T::zero());
        assert(rep::<T>(tot::<T>(s, l, r)));
        assert forall|x: T, y: T| #[trigger] x.val() == tot::<T>(s, 0, r) && #[trigger] y.val() == tot::<T>(s, 0, l) implies
            <T as SubSpec<T>>::obeys_sub_spec() && x.sub_req(y) && x.sub_spec(y).val() == tot::<T>(s, l, r) by {
            T::law_sub(x, y, wit::<T>(tot::<T>(s, l, r)));
        }
    }
//@end
}

pub open spec fn vals<T: Elem>(a: Seq<T>) -> Seq<T::D> {
    Seq::new(a.len(), |i: int| a[i].val())
}

pub proof fn lemma_sum_zero<T: Elem>(s: Seq<T::D>, l: int, r: int)
    requires forall|i: int| l <= i < r ==> s[i] == T::zero(),
    ensures tot::<T>(s, l, r) == T::zero(),
    decreases r - l,
{
    if l < r {
        lemma_sum_zero::<T>(s, l, r - 1);
        T::law_plus(T::zero(), T::zero(), T::zero());
    }
}
