//@struct data_structure/lazy_segtree.rs | LazySegtree

impl<F: MapMonoid> LazySegtree<F> {
    /// the tree with every pending map carried out
    pub closed spec fn tree(&self) -> Seq<<F::M as Monoid>::S> {
        virt::<F>(self.d@, self.lz@)
    }
    /// the logical array
    pub closed spec fn view(&self) -> Seq<<F::M as Monoid>::S> {
        self.tree().subrange(self.size as int, self.size + self.n)
    }
    pub closed spec fn shape(&self) -> bool {
        &&& self.log <= 32
        &&& self.size == pow2(self.log as nat)
        &&& 1 <= self.size <= 0x1_0000_0000
        &&& self.n <= self.size
        &&& self.d@.len() == 2 * self.size
        &&& self.lz@.len() == self.size
    }
    pub closed spec fn same(&self, o: &Self) -> bool {
        self.size == o.size && self.n == o.n && self.log == o.log
    }
    /// the leaves beyond the array hold the identity
    pub closed spec fn pad(&self) -> bool {
        forall|i: int| self.size + self.n <= i < 2 * self.size ==> #[trigger] self.tree()[i] == <F::M as Monoid>::m_id()
    }
    pub closed spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& self.pad()
        &&& lzs_ok::<F>(self.d@, self.lz@, self.size as int)
    }
    pub closed spec fn idle_all(&self, p: int, i: int) -> bool {
        idle::<F>(self.lz@, p, true, i, self.log as int)
    }
    pub closed spec fn idle_un(&self, p: int, i: int) -> bool {
        idle::<F>(self.lz@, p, false, i, self.log as int)
    }
    pub proof fn lemma_lv0(&self)
        requires self.shape(),
        ensures lv(self.log as int, 0) == self.size,
    {
    }
}

/// recomputing one node from its children
pub proof fn lemma_update<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, k: int)
    requires d.len() == 2 * size, lz.len() == size, 1 <= k < size, lz[k] == F::mm_id(),
    ensures ({
        let d2 = d.update(k, <F::M as Monoid>::m_op(d[2 * k], d[2 * k + 1]));
        &&& virt::<F>(d2, lz).len() == 2 * size
        &&& forall|j: int| 0 <= j < 2 * size && j != k ==> #[trigger] virt::<F>(d2, lz)[j] == virt::<F>(d, lz)[j]
        &&& lz_ok::<F>(d2, lz, k)
        &&& forall|j: int| 1 <= j < size && j != k && j != k / 2 && lz_ok::<F>(d, lz, j) ==> #[trigger] lz_ok::<F>(d2, lz, j)
    }),
{
    F::law_map_id(<F::M as Monoid>::m_op(d[2 * k], d[2 * k + 1]));
}
/// storing a value in a leaf with nothing pending above it
pub proof fn lemma_set_leaf<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, p: int, x: <F::M as Monoid>::S)
    requires d.len() == 2 * size, lz.len() == size, size <= p < 2 * size, clean::<F>(lz, p / 2), size >= 1,
    ensures
        virt::<F>(d.update(p, x), lz) =~= virt::<F>(d, lz).update(p, x),
        virt::<F>(d, lz)[p] == d[p],
        forall|j: int| 1 <= j < size && j != p / 2 && lz_ok::<F>(d, lz, j) ==> #[trigger] lz_ok::<F>(d.update(p, x), lz, j),
{
    lemma_clean_chain::<F>(lz, x, p / 2);
    lemma_clean_chain::<F>(lz, d[p], p / 2);
}

pub proof fn lemma_all_clean<F: MapMonoid>(lz: Seq<F::F>, q: int)
    requires forall|i: int| 0 <= i < lz.len() ==> lz[i] == F::mm_id(), q < lz.len(),
    ensures clean::<F>(lz, q),
    decreases q,
{
    if q >= 1 { lemma_all_clean::<F>(lz, q / 2); }
}
/// the left end of the two-sided walk after i rounds
pub open spec fn walk_l(l0: int, i: int) -> int {
    sh(l0, i) + if un(l0, i) { 1int } else { 0int }
}
pub proof fn lemma_walk_step(l0: int, i: int)
    requires 0 <= i,
    ensures walk_l(l0, i + 1) == (walk_l(l0, i) + 1) / 2, walk_l(l0, i) % 2 == 0 ==> walk_l(l0, i + 1) == walk_l(l0, i) / 2,
        walk_l(l0, i) % 2 == 1 ==> un(l0, i + 1) && sh(l0, i + 1) == walk_l(l0, i) / 2,
{
    assert(sh(l0, i + 1) == sh(l0, i) / 2);
    assert(un(l0, i + 1) == (un(l0, i) || sh(l0, i) % 2 == 1));
}
pub proof fn lemma_walk_level(l0: int, r0: int, log: int, i: int)
    requires 0 <= i, 0 <= log, lv(log, 0) <= l0 < r0 <= 2 * lv(log, 0), walk_l(l0, i) < sh(r0, i),
    ensures i <= log,
{
    if i > log {
        lemma_sh_lv(r0, log, log);
        lemma_sh_lv(l0, log, log);
        lemma_lv(log, log);
        lemma_sh_mono(0, r0, i);
        if r0 == 2 * lv(log, 0) {
            lemma_sh_one(l0, log + 1, i);
            lemma_sh_one(r0, log + 1, i);
            assert(sh(r0, log) == 2 && sh(r0, log + 1) == 1);
            assert(sh(l0, log) == 1 && sh(l0, log + 1) == 0 && un(l0, log + 1));
            lemma_un_up(l0, log + 1, i);
        } else {
            assert(sh(r0, log) == 1 && sh(r0, log + 1) == 0);
            lemma_sh_one(r0, log + 1, i);
            lemma_sh_mono(0, l0, i);
        }
    }
}
pub proof fn lemma_sh_one(x: int, j: int, i: int)
    requires 0 <= j <= i, 0 <= sh(x, j) <= 1,
    ensures 0 <= sh(x, i) <= sh(x, j), sh(x, j) == 0 ==> sh(x, i) == 0,
    decreases i - j,
{
    if j < i { lemma_sh_one(x, j, i - 1); assert(sh(x, i) == sh(x, i - 1) / 2); }
}

/// k is a node of level >= i that x splits
pub open spec fn bad(x: int, k: int, i: int, log: int) -> bool {
    exists|j: int| i <= j <= log && un(x, j) && #[trigger] sh(x, j) == k
}
pub open spec fn ok_from_s<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, log: int, a: int, i: int, b: int, j: int) -> bool {
    forall|k: int| 1 <= k < size && !bad(a, k, i, log) && !bad(b, k, j, log) ==> #[trigger] lz_ok::<F>(d, lz, k)
}
/// the value leaf p must hold when the walk stands at [l, r) on level lev
pub open spec fn done_at<F: MapMonoid>(t: Seq<<F::M as Monoid>::S>, f: F::F, lp: int, rp: int, l: int, r: int, lev: int, p: int) -> <F::M as Monoid>::S {
    if lp <= p < rp && !(l <= sh(p, lev) < r) { F::mm_map(f, t[p]) } else { t[p] }
}
pub proof fn lemma_done_step<F: MapMonoid>(t: Seq<<F::M as Monoid>::S>, f: F::F, lp: int, rp: int, l: int, r: int, lev: int, p: int)
    requires 0 <= lev, 0 <= l < r,
    ensures ({
        let l1 = if l % 2 == 1 { l + 1 } else { l };
        let r1 = if r % 2 == 1 { r - 1 } else { r };
        let s = sh(p, lev);
        &&& (l1 / 2 <= sh(p, lev + 1) < r1 / 2) == (l1 <= s < r1)
        &&& (l <= s < r) == ((l1 <= s < r1) || (l % 2 == 1 && s == l) || (r % 2 == 1 && s == r - 1))
    }),
{
    assert(sh(p, lev + 1) == sh(p, lev) / 2);
}
pub proof fn lemma_inside(lp: int, rp: int, lev: int, p: int)
    requires 0 <= lev, 1 <= lp <= rp, 0 <= p,
    ensures walk_l(lp, lev) <= sh(p, lev) < sh(rp, lev) ==> lp <= p < rp,
{
    if p >= rp { lemma_sh_mono(rp, p, lev); }
    if p < lp { lemma_sh_mono(p, lp - 1, lev); lemma_sh_pred(lp, lev); }
}
pub proof fn lemma_apply_step<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, log: int, lp: int, rp: int, lev: int, k: int, f: F::F)
    requires
        d.len() == 2 * size, lz.len() == size, 0 <= lev <= log, lv(log, 0) == size, size <= lp < rp <= 2 * size,
        lv(log, lev) <= k < 2 * lv(log, lev), clean::<F>(lz, k / 2),
        walk_l(lp, lev) <= k < sh(rp, lev),
        k == walk_l(lp, lev) && k % 2 == 1 || k == sh(rp, lev) - 1 && k % 2 == 0,
        idle::<F>(lz, lp, false, 1, log), idle::<F>(lz, rp, false, 1, log), ok_from_s::<F>(d, lz, size, log, lp, 1, rp, 1),
    ensures
        idle::<F>(ap_lz::<F>(lz, k, f), lp, false, 1, log), idle::<F>(ap_lz::<F>(lz, k, f), rp, false, 1, log),
        ok_from_s::<F>(ap_d::<F>(d, k, f), ap_lz::<F>(lz, k, f), size, log, lp, 1, rp, 1),
        forall|p: int| size <= p < 2 * size ==> (#[trigger] virt::<F>(ap_d::<F>(d, k, f), ap_lz::<F>(lz, k, f))[p])
            == if sh(p, lev) == k { F::mm_map(f, virt::<F>(d, lz)[p]) } else { virt::<F>(d, lz)[p] },
{
    let d2 = ap_d::<F>(d, k, f);
    let lz2 = ap_lz::<F>(lz, k, f);
    lemma_lv(log, lev);
    if lev > 0 { lemma_lv_gap(log, 0, lev); }
    lemma_apply_node::<F>(d, lz, size, k, f);
    assert forall|p: int| size <= p < 2 * size implies (#[trigger] virt::<F>(d2, lz2)[p])
            == if sh(p, lev) == k { F::mm_map(f, virt::<F>(d, lz)[p]) } else { virt::<F>(d, lz)[p] } by {
        lemma_anc_sh(k, p, log, lev, 0);
        assert(sh(p, 0) == p);
    }
    lemma_walk_step(lp, lev);
    assert(sh(rp, lev + 1) == sh(rp, lev) / 2);
    assert forall|j: int| 1 <= j <= log && un(lp, j) implies #[trigger] lz2[sh(lp, j)] == F::mm_id() by {
        assert(lz[sh(lp, j)] == F::mm_id());
        lemma_not_split(lp, rp, lev, j, log, k);
    }
    assert forall|j: int| 1 <= j <= log && un(rp, j) implies #[trigger] lz2[sh(rp, j)] == F::mm_id() by {
        assert(lz[sh(rp, j)] == F::mm_id());
        lemma_not_split(lp, rp, lev, j, log, k);
    }
    if k / 2 >= 1 {
        if lev == log { assert(lv(log, log) == 1); }
        assert(lev + 1 <= log);
        if k == walk_l(lp, lev) && k % 2 == 1 {
            assert(un(lp, lev + 1) && sh(lp, lev + 1) == k / 2);
            assert(bad(lp, k / 2, 1, log));
        } else {
            assert(un(rp, lev + 1) && sh(rp, lev + 1) == k / 2);
            assert(bad(rp, k / 2, 1, log));
        }
    }
}
/// a node inside the range is not split by an end of the range
pub proof fn lemma_not_split(lp: int, rp: int, lev: int, j: int, log: int, k: int)
    requires 1 <= j <= log, 0 <= lev <= log, lv(log, 0) <= lp < rp <= 2 * lv(log, 0), walk_l(lp, lev) <= k < sh(rp, lev), lv(log, lev) <= k < 2 * lv(log, lev),
    ensures un(lp, j) ==> sh(lp, j) != k, un(rp, j) ==> sh(rp, j) != k,
{
    lemma_sh_lv(lp, log, j);
    lemma_sh_lv(rp, log, j);
    lemma_lv(log, j);
    if j < lev { lemma_lv_gap(log, j, lev); }
    if lev < j { lemma_lv_gap(log, lev, j); }
}
/// one round of the final recomputation, at the end a of the range
pub proof fn lemma_fix<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, log: int, a: int, i: int, b: int, jb: int)
    requires
        d.len() == 2 * size, lz.len() == size, 1 <= i <= log, lv(log, 0) == size, size <= a <= 2 * size,
        idle::<F>(lz, a, false, 1, log), ok_from_s::<F>(d, lz, size, log, a, i, b, jb),
    ensures ({
        let k = sh(a, i);
        let d2 = d.update(k, <F::M as Monoid>::m_op(d[2 * k], d[2 * k + 1]));
        &&& un(a, i) ==> ok_from_s::<F>(d2, lz, size, log, a, i + 1, b, jb) && (forall|p: int| size <= p < 2 * size ==> #[trigger] virt::<F>(d2, lz)[p] == virt::<F>(d, lz)[p])
        &&& !un(a, i) ==> ok_from_s::<F>(d, lz, size, log, a, i + 1, b, jb)
        &&& un(a, i) ==> ok_from_s::<F>(d2, lz, size, log, b, jb, a, i + 1)
        &&& !un(a, i) ==> ok_from_s::<F>(d, lz, size, log, b, jb, a, i + 1)
    }),
{
    let q = sh(a, i);
    lemma_sh_lv(a, log, i);
    lemma_lv_gap(log, 0, i);
    let d2 = d.update(q, <F::M as Monoid>::m_op(d[2 * q], d[2 * q + 1]));
    if un(a, i) {
        assert(lz[sh(a, i)] == F::mm_id());
        lemma_update::<F>(d, lz, size, q);
        lemma_un_up(a, i, i + 1);
        assert(sh(a, i + 1) == q / 2);
        if i == log { assert(lv(log, log) == 1) by { lemma_lv(log, log); } }
    }
    let d3 = if un(a, i) { d2 } else { d };
    assert forall|k: int| 1 <= k < size && !bad(a, k, i + 1, log) && !bad(b, k, jb, log) implies #[trigger] lz_ok::<F>(d3, lz, k) by {
        if un(a, i) && k == q {
        } else {
            if bad(a, k, i, log) {
                let j = choose|j: int| i <= j <= log && un(a, j) && #[trigger] sh(a, j) == k;
                assert(j == i);
            }
            assert(lz_ok::<F>(d, lz, k));
            if un(a, i) && k == q / 2 {
                assert(sh(a, i + 1) == k);
            }
        }
    }
}

impl<F: MapMonoid> LazySegtree<F> {
    pub closed spec fn ok_from(&self, a: int, i: int, b: int, j: int) -> bool {
        ok_from_s::<F>(self.d@, self.lz@, self.size as int, self.log as int, a, i, b, j)
    }
    /// p >> i is a node of level i
    pub proof fn lemma_path(&self, p: usize, i: usize)
        requires self.shape(), 1 <= i <= self.log, self.size <= p <= 2 * self.size,
        ensures
            (p >> i) as int == sh(p as int, i as int), (((p >> i) << i) != p) == un(p as int, i as int),
            lv(self.log as int, i as int) <= sh(p as int, i as int) <= 2 * lv(self.log as int, i as int),
            p < 2 * self.size || un(p as int, i as int) ==> sh(p as int, i as int) < 2 * lv(self.log as int, i as int),
            1 <= lv(self.log as int, i as int), 2 * lv(self.log as int, i as int) <= self.size,
            un(p as int, i as int) ==> p < 2 * self.size && sh(p - 1, i as int) == sh(p as int, i as int),
    {
        self.lemma_lv0();
        lemma_shr_sh(p, i);
        lemma_sh_lv(p as int, self.log as int, i as int);
        lemma_lv_gap(self.log as int, 0, i as int);
        lemma_sh_pred(p as int, i as int);
    }
    pub proof fn lemma_clean_path(&self, p: int)
        requires self.shape(), self.idle_all(p, 1), self.size <= p < 2 * self.size,
        ensures clean::<F>(self.lz@, p / 2), self.tree()[p] == self.d@[p],
    {
        self.lemma_lv0();
        lemma_idle_clean::<F>(self.lz@, p, true, 1, self.log as int);
        assert(sh(p, 1) == p / 2) by { assert(sh(p, 0) == p); }
        lemma_virt_clean::<F>(self.d@, self.lz@, p);
    }

//@fn data_structure/lazy_segtree.rs | LazySegtree::update
//@spec
    requires old(self).shape(), 1 <= k < old(self).size,
    ensures
        final(self).shape(), final(self).same(old(self)), final(self).lz@ == old(self).lz@,
        final(self).d@ == old(self).d@.update(k as int, <F::M as Monoid>::m_op(old(self).d@[2 * k as int], old(self).d@[2 * k + 1])),
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::all_apply
//@spec
    requires old(self).shape(), 1 <= k < 2 * old(self).size,
    ensures
        final(self).shape(), final(self).same(old(self)),
        final(self).d@ == ap_d::<F>(old(self).d@, k as int, f),
        final(self).lz@ == ap_lz::<F>(old(self).lz@, k as int, f),
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::push
//@spec
    requires old(self).shape(), 1 <= k < old(self).size,
    ensures
        final(self).shape(), final(self).same(old(self)),
        final(self).d@ == push_d::<F>(old(self).d@, old(self).lz@, k as int),
        final(self).lz@ == push_lz::<F>(old(self).lz@, k as int),
        final(self).tree() == old(self).tree(), final(self)@ == old(self)@,
        old(self).wf() ==> final(self).wf(),
//@entry
    proof {
        lemma_push::<F>(self.d@, self.lz@, self.size as int, k as int);
        assert forall|a: F::F, b: F::F| #[trigger] call_ensures(<F::F as Clone>::clone, (&a,), b) implies b == a by {
            F::law_clone_f(a, b);
        }
    }
//@exit
    proof {
        assert(self.d@ =~= push_d::<F>(old(self).d@, old(self).lz@, k as int));
        assert(self.lz@ =~= push_lz::<F>(old(self).lz@, k as int));
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::get | ret=ret
//@spec
    requires old(self).wf(), p < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@, ret == old(self)@[p as int],
//@entry
    let ghost p0 = p as int;
//@loop 0
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == old(self).tree(), p == p0 + self.size, 0 <= p0 < self.n,
        1 <= vx_k0 <= self.log + 1, self.idle_all(p as int, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path(p, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof { lemma_idle_push::<F>(lz0, self.lz@, p as int, true, i0, self.log as int, sh(p as int, i0)); }
//@at loop0.after
    proof { self.lemma_clean_path(p as int); }
//@exit
    proof { <F::M as Monoid>::law_clone(self.d@[p as int], ret); }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::set
//@spec
    requires old(self).wf(), p < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@.update(p as int, x),
//@entry
    let ghost p0 = p as int;
    let ghost mut d1 = self.d@;
    let ghost mut t1 = self.tree();
//@loop 0
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == old(self).tree(), p == p0 + self.size, 0 <= p0 < self.n,
        1 <= vx_k0 <= self.log + 1, self.idle_all(p as int, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path(p, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof { lemma_idle_push::<F>(lz0, self.lz@, p as int, true, i0, self.log as int, sh(p as int, i0)); }
//@at loop0.after
    proof { d1 = self.d@; t1 = self.tree(); self.lemma_clean_path(p as int); lemma_set_leaf::<F>(self.d@, self.lz@, self.size as int, p as int, x); }
//@loop 1
    invariant
        self.shape(), self.pad(), self.same(old(self)), self@ == old(self)@.update(p0, x), p == p0 + self.size, self.idle_all(p as int, 1),
        1 <= i <= self.log + 1, vx_e1 == self.log, 0 <= p0 < self.n,
        forall|k: int| 1 <= k < self.size && !anc(k, sh(p as int, i - 1) / 2) ==> #[trigger] lz_ok::<F>(self.d@, self.lz@, k),
    decreases self.log + 1 - i,
//@at loop1.before
    proof {
        assert(self.tree() =~= t1.update(p as int, x));
        assert(self@ =~= old(self)@.update(p0, x));
        assert(sh(p as int, 0) == p);
        assert forall|k: int| 1 <= k < self.size && !anc(k, p as int / 2) implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by {
            assert(lz_ok::<F>(d1, self.lz@, k));
            assert(anc(p as int / 2, p as int / 2) || p as int / 2 < 1);
        }
    }
//@at loop1.head
    let ghost d0 = self.d@;
    let ghost v0 = self@;
    let ghost t0 = self.tree();
    let ghost q = sh(p as int, i as int);
    let ghost i0 = i as int;
    proof { self.lemma_path(p, i); self.lemma_lv0(); assert(self.lz@[sh(p as int, i0)] == F::mm_id()); lemma_update::<F>(self.d@, self.lz@, self.size as int, q); assert(q == sh(p as int, i0 - 1) / 2); }
//@at loop1.bodyend
    proof {
        assert(self@ =~= v0);
        assert forall|j: int| self.size + self.n <= j < 2 * self.size implies #[trigger] self.tree()[j] == <F::M as Monoid>::m_id() by { assert(t0[j] == <F::M as Monoid>::m_id()); }
        assert forall|k: int| 1 <= k < self.size && !anc(k, q / 2) implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by {
            if k != q {
                assert(!anc(k, q));
                assert(lz_ok::<F>(d0, self.lz@, k));
                assert(anc(q / 2, q / 2) || q / 2 == 0);
            }
        }
    }
//@at loop1.after
    proof {
        lemma_sh_lv(p as int, self.log as int, self.log as int);
        assert forall|k: int| 1 <= k < self.size implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by { assert(!anc(k, 0)); }
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::apply
//@spec
    requires old(self).wf(), p < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@.update(p as int, F::mm_map(f, old(self)@[p as int])),
//@entry
    let ghost p0 = p as int;
    let ghost mut d1 = self.d@;
    let ghost mut t1 = self.tree();
    let ghost mut x1 = self.d@[0];
//@loop 0
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == old(self).tree(), p == p0 + self.size, 0 <= p0 < self.n,
        1 <= vx_k0 <= self.log + 1, self.idle_all(p as int, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path(p, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof { lemma_idle_push::<F>(lz0, self.lz@, p as int, true, i0, self.log as int, sh(p as int, i0)); }
//@at loop0.after
    proof { d1 = self.d@; t1 = self.tree(); x1 = F::mm_map(f, d1[p as int]); self.lemma_clean_path(p as int); lemma_set_leaf::<F>(self.d@, self.lz@, self.size as int, p as int, x1); }
//@loop 1
    invariant
        self.shape(), self.pad(), self.same(old(self)), self@ == old(self)@.update(p0, F::mm_map(f, old(self)@[p0])), p == p0 + self.size, self.idle_all(p as int, 1),
        1 <= i <= self.log + 1, vx_e1 == self.log, 0 <= p0 < self.n,
        forall|k: int| 1 <= k < self.size && !anc(k, sh(p as int, i - 1) / 2) ==> #[trigger] lz_ok::<F>(self.d@, self.lz@, k),
    decreases self.log + 1 - i,
//@at loop1.before
    proof {
        assert(self.tree() =~= t1.update(p as int, x1));
        assert(self@ =~= old(self)@.update(p0, F::mm_map(f, old(self)@[p0])));
        assert(sh(p as int, 0) == p);
        assert forall|k: int| 1 <= k < self.size && !anc(k, p as int / 2) implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by {
            assert(lz_ok::<F>(d1, self.lz@, k));
            assert(anc(p as int / 2, p as int / 2) || p as int / 2 < 1);
        }
    }
//@at loop1.head
    let ghost d0 = self.d@;
    let ghost v0 = self@;
    let ghost t0 = self.tree();
    let ghost q = sh(p as int, i as int);
    let ghost i0 = i as int;
    proof { self.lemma_path(p, i); self.lemma_lv0(); assert(self.lz@[sh(p as int, i0)] == F::mm_id()); lemma_update::<F>(self.d@, self.lz@, self.size as int, q); assert(q == sh(p as int, i0 - 1) / 2); }
//@at loop1.bodyend
    proof {
        assert(self@ =~= v0);
        assert forall|j: int| self.size + self.n <= j < 2 * self.size implies #[trigger] self.tree()[j] == <F::M as Monoid>::m_id() by { assert(t0[j] == <F::M as Monoid>::m_id()); }
        assert forall|k: int| 1 <= k < self.size && !anc(k, q / 2) implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by {
            if k != q {
                assert(!anc(k, q));
                assert(lz_ok::<F>(d0, self.lz@, k));
                assert(anc(q / 2, q / 2) || q / 2 == 0);
            }
        }
    }
//@at loop1.after
    proof {
        lemma_sh_lv(p as int, self.log as int, self.log as int);
        assert forall|k: int| 1 <= k < self.size implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by { assert(!anc(k, 0)); }
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree@From::from | as=from | ret=ret
//@spec
    requires v@.len() <= 0xffff_ffff,
    ensures ret.wf(), ret@ == v@,
//@at let:size#0.before
    proof { lemma_shl1(log); }
//@at let:ret#0.before
    proof {
        assert forall|i: int| 0 <= i < d@.len() && !(size <= i < size + n) implies d@[i] == <F::M as Monoid>::m_id() by {
            <F::M as Monoid>::law_clone(<F::M as Monoid>::m_id(), d@[i]);
        }
        assert forall|i: int| size <= i < size + n implies d@[i] == v@[i - size] by {
            <F::M as Monoid>::law_clone(v@[i - size], d@[i]);
        }
        assert forall|i: int| 0 <= i < lz@.len() implies lz@[i] == F::mm_id() by {
            F::law_clone_f(F::mm_id(), lz@[i]);
        }
    }
//@loop 0
    invariant
        ret.shape(), ret.size == size, ret.n == n, n == v@.len(),
        forall|i: int| size + n <= i < 2 * size ==> ret.d@[i] == <F::M as Monoid>::m_id(),
        forall|i: int| size <= i < size + n ==> ret.d@[i] == v@[i - size],
        forall|i: int| 0 <= i < size ==> ret.lz@[i] == F::mm_id(),
        1 <= vx_k0 <= ret.size,
        forall|k: int| vx_k0 <= k < size ==> #[trigger] lz_ok::<F>(ret.d@, ret.lz@, k),
    decreases vx_k0,
//@at loop0.head
    let ghost d0 = ret.d@;
    let ghost b0 = vx_k0 as int;
    proof { lemma_update::<F>(ret.d@, ret.lz@, size as int, b0 - 1); }
//@at loop0.bodyend
    proof {
        assert forall|k: int| vx_k0 <= k < size implies #[trigger] lz_ok::<F>(ret.d@, ret.lz@, k) by {
            if k >= b0 { assert(lz_ok::<F>(d0, ret.lz@, k)); }
        }
    }
//@exit
    proof {
        assert forall|k: int| 0 <= k < 2 * size implies #[trigger] ret.tree()[k] == ret.d@[k] by {
            lemma_all_clean::<F>(ret.lz@, k / 2);
            lemma_virt_clean::<F>(ret.d@, ret.lz@, k);
        }
        assert(ret@ =~= v@);
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::new | ret=ret
//@subst vec![F::identity_element(); n].into() ==> LazySegtree::from(vec![F::identity_element(); n])
//@spec
    requires n <= 0xffff_ffff,
    ensures ret.wf(), ret@.len() == n, forall|i: int| 0 <= i < n ==> ret@[i] == <F::M as Monoid>::m_id(),
//@exit
    proof {
        assert forall|i: int| 0 <= i < n implies ret@[i] == <F::M as Monoid>::m_id() by {
            <F::M as Monoid>::law_clone(<F::M as Monoid>::m_id(), ret@[i]);
        }
    }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree@Default::default | as=default | ret=ret
//@spec
    ensures ret.wf(), ret@.len() == 0,
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::all_prod | ret=ret
//@spec
    requires self.wf(),
    ensures ret == fr::<F::M>(self@, 0, self@.len() as int),
//@exit
    proof {
        let t = self.tree();
        lemma_virt_ok::<F>(self.d@, self.lz@, self.size as int);
        <F::M as Monoid>::law_clone(self.d@[1], ret);
        lemma_virt_clean::<F>(self.d@, self.lz@, 1);
        lemma_root::<F::M>(t, self.log as nat, self.log as nat);
        lemma_fr_view::<F::M>(t, self.size as int, self.n as int, 0, self.n as int);
        lemma_fr_split::<F::M>(t, self.size as int, self.size + self.n, 2 * self.size);
        assert forall|i: int| self.size + self.n <= i < 2 * self.size implies t[i] == <F::M as Monoid>::m_id() by { assert(self.tree()[i] == <F::M as Monoid>::m_id()); }
        lemma_fr_ids::<F::M>(t, self.size + self.n, 2 * self.size);
        <F::M as Monoid>::law_id(fr::<F::M>(self@, 0, self.n as int));
    }
//@end

    /// nodes read by the two-sided walk have nothing pending above them
    pub proof fn lemma_walk_clean(&self, l0: int, r0: int, i: int, l: int, r: int)
        requires
            self.shape(), self.size <= l0 < r0 <= 2 * self.size, 0 <= i, self.idle_un(l0, 1), self.idle_un(r0, 1),
            l == walk_l(l0, i), r == sh(r0, i), l < r,
        ensures
            i <= self.log, 1 <= l, r <= 2 * self.size,
            lv(self.log as int, i) <= l, r <= 2 * lv(self.log as int, i),
            l % 2 == 1 ==> clean::<F>(self.lz@, l / 2) && self.tree()[l] == self.d@[l],
            r % 2 == 1 ==> clean::<F>(self.lz@, r / 2) && clean::<F>(self.lz@, (r - 1) / 2) && self.tree()[r - 1] == self.d@[r - 1],
    {
        let log = self.log as int;
        self.lemma_lv0();
        lemma_walk_level(l0, r0, log, i);
        lemma_sh_lv(l0, log, i);
        lemma_sh_lv(r0, log, i);
        lemma_lv(log, i);
        if i > 0 { lemma_lv_gap(log, 0, i); }
        if l % 2 == 1 {
            assert(un(l0, i + 1) && sh(l0, i + 1) == l / 2);
            lemma_idle_clean::<F>(self.lz@, l0, false, i + 1, log);
            lemma_virt_clean::<F>(self.d@, self.lz@, l);
        }
        if r % 2 == 1 {
            assert(un(r0, i + 1) && sh(r0, i + 1) == r / 2 && (r - 1) / 2 == r / 2);
            if r0 == 2 * self.size { lemma_sh_lv(r0, log, i); if i < log { lemma_lv(log, i); } }
            lemma_idle_clean::<F>(self.lz@, r0, false, i + 1, log);
            lemma_virt_clean::<F>(self.d@, self.lz@, r - 1);
        }
    }

//@fn data_structure/lazy_segtree.rs | LazySegtree::prod | ret=ret
//@spec
    requires old(self).wf(), l <= r <= old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@, ret == fr::<F::M>(old(self)@, l as int, r as int),
//@entry
    broadcast use group_bits;
    let ghost l0 = l as int;
    let ghost r0 = r as int;
    let ghost lp = l0 + self.size;
    let ghost rp = r0 + self.size;
    let ghost t = self.tree();
    proof {
        lemma_fr_view::<F::M>(t, self.size as int, self.n as int, l0, r0);
        lemma_fr_empty::<F::M>(self@, l0);
        lemma_virt_ok::<F>(self.d@, self.lz@, self.size as int);
    }
//@loop 0
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == t, l == lp, r == rp, self.size <= l < r <= self.size + self.n,
        1 <= vx_k0 <= self.log + 1, self.idle_un(lp, vx_k0 as int), self.idle_un(rp, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost mut lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof { self.lemma_path(l, i0 as usize); self.lemma_path(r, i0 as usize); self.lemma_lv0(); }
//@at loop0.bodyend
    proof {
        if !un(lp, i0) && !un(rp, i0) {
            assert(self.lz@ == lz0);
            assert forall|j: int| i0 <= j <= self.log && un(lp, j) implies #[trigger] self.lz@[sh(lp, j)] == F::mm_id() by { if j == i0 {} else { assert(lz0[sh(lp, j)] == F::mm_id()); } }
            assert forall|j: int| i0 <= j <= self.log && un(rp, j) implies #[trigger] self.lz@[sh(rp, j)] == F::mm_id() by { if j == i0 {} else { assert(lz0[sh(rp, j)] == F::mm_id()); } }
        }
    }
//@at call:push#0.after
    proof {
        if self.lz@ == push_lz::<F>(lz0, sh(lp, i0)) {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(lp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(lp, i0));
        } else {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(rp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(rp, i0));
        }
        lz0 = self.lz@;
    }
//@at call:push#1.after
    proof {
        if self.lz@ == push_lz::<F>(lz0, sh(lp, i0)) {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(lp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(lp, i0));
        } else {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(rp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(rp, i0));
        }
        lz0 = self.lz@;
    }
//@at loop1.before
    let ghost mut lev = 0int;
    proof {
        <F::M as Monoid>::law_id(fr::<F::M>(t, l as int, r as int));
        assert(walk_l(lp, 0) == lp && sh(rp, 0) == rp);
    }
//@loop 1
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == t, l <= r <= 2 * self.size,
        self.size <= lp < rp <= 2 * self.size, 0 <= lev, self.idle_un(lp, 1), self.idle_un(rp, 1),
        l == walk_l(lp, lev), r == sh(rp, lev), nodes_ok::<F::M>(t, 1, self.size as int),
        <F::M as Monoid>::m_op(sml, <F::M as Monoid>::m_op(fr::<F::M>(t, l as int, r as int), smr)) == fr::<F::M>(self@, l0, r0),
    decreases r,
//@at loop1.head
    broadcast use group_bits;
    proof {
        self.lemma_walk_clean(lp, rp, lev, l as int, r as int);
        lemma_prod_step::<F::M>(t, self.size as int, l as int, r as int, sml, smr);
        lemma_walk_step(lp, lev);
        lev = lev + 1;
    }
//@at loop1.after
    proof { lemma_fr_empty::<F::M>(t, l as int); <F::M as Monoid>::law_id(smr); }
//@end

//@fn data_structure/lazy_segtree.rs | LazySegtree::apply_range
//@spec
    requires old(self).wf(), l <= r <= old(self)@.len(),
    ensures
        final(self).wf(), final(self)@.len() == old(self)@.len(),
        forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]) == if l <= i < r { F::mm_map(f, old(self)@[i]) } else { old(self)@[i] },
//@entry
    broadcast use group_bits;
    let ghost l0 = l as int;
    let ghost r0 = r as int;
    let ghost lp = l0 + self.size;
    let ghost rp = r0 + self.size;
    let ghost t = self.tree();
    proof {
        assert forall|a: F::F, b: F::F| #[trigger] call_ensures(<F::F as Clone>::clone, (&a,), b) implies b == a by {
            F::law_clone_f(a, b);
        }
        assert forall|i: int| 0 <= i < self.n implies #[trigger] self@[i] == t[i + self.size] by { }
        assert(forall|a: int, b: int| 0 <= a < b ==> 0 <= #[trigger] (a / b));
    }
//@loop 0
    invariant
        self.wf(), self.same(old(self)), self@ == old(self)@, self.tree() == t, l == lp, r == rp, self.size <= l < r <= self.size + self.n,
        1 <= vx_k0 <= self.log + 1, self.idle_un(lp, vx_k0 as int), self.idle_un(rp, vx_k0 as int),
    decreases vx_k0,
//@at loop0.head
    let ghost mut lz0 = self.lz@;
    let ghost i0 = vx_k0 - 1;
    proof {
        self.lemma_path(l, i0 as usize); self.lemma_path(r, i0 as usize); self.lemma_lv0();
        lemma_shr_sh((r - 1) as usize, i0 as usize);
    }
//@at loop0.bodyend
    proof {
        if !un(lp, i0) && !un(rp, i0) {
            assert(self.lz@ == lz0);
            assert forall|j: int| i0 <= j <= self.log && un(lp, j) implies #[trigger] self.lz@[sh(lp, j)] == F::mm_id() by { if j == i0 {} else { assert(lz0[sh(lp, j)] == F::mm_id()); } }
            assert forall|j: int| i0 <= j <= self.log && un(rp, j) implies #[trigger] self.lz@[sh(rp, j)] == F::mm_id() by { if j == i0 {} else { assert(lz0[sh(rp, j)] == F::mm_id()); } }
        }
    }
//@at call:push#0.after
    proof {
        if self.lz@ == push_lz::<F>(lz0, sh(lp, i0)) {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(lp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(lp, i0));
        } else {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(rp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(rp, i0));
        }
        lz0 = self.lz@;
    }
//@at call:push#1.after
    proof {
        if self.lz@ == push_lz::<F>(lz0, sh(lp, i0)) {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(lp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(lp, i0));
        } else {
            lemma_idle_push::<F>(lz0, self.lz@, lp, false, i0, self.log as int, sh(rp, i0));
            lemma_idle_push::<F>(lz0, self.lz@, rp, false, i0, self.log as int, sh(rp, i0));
        }
        lz0 = self.lz@;
    }
//@at loop1.before
    let ghost mut lev = 0int;
    proof {
        assert(walk_l(lp, 0) == lp && sh(rp, 0) == rp);
        assert forall|p: int| self.size <= p < 2 * self.size implies (#[trigger] self.tree()[p]) == done_at::<F>(t, f, lp, rp, l as int, r as int, 0, p) by { assert(sh(p, 0) == p); }
        assert(self.ok_from(lp, 1, rp, 1));
    }
//@loop 1
    invariant
        forall|a: F::F, b: F::F| #[trigger] call_ensures(<F::F as Clone>::clone, (&a,), b) ==> b == a,
        self.shape(), self.same(old(self)), l <= r <= 2 * self.size,
        self.size <= lp < rp <= self.size + self.n, 0 <= lev, self.idle_un(lp, 1), self.idle_un(rp, 1),
        l == walk_l(lp, lev), r == sh(rp, lev),
        forall|p: int| self.size <= p < 2 * self.size ==> (#[trigger] self.tree()[p]) == done_at::<F>(t, f, lp, rp, l as int, r as int, lev, p),
        self.ok_from(lp, 1, rp, 1),
    decreases r,
//@at loop1.head
    broadcast use group_bits;
    let ghost (la, ra) = (l as int, r as int);
    let ghost d0 = self.d@;
    let ghost lz0 = self.lz@;
    let ghost w0 = self.tree();
    proof {
        assert forall|p: int| self.size <= p < 2 * self.size implies (#[trigger] w0[p]) == done_at::<F>(t, f, lp, rp, l as int, r as int, lev, p) by { assert(self.tree()[p] == w0[p]); }
        self.lemma_walk_clean(lp, rp, lev, l as int, r as int);
        lemma_walk_step(lp, lev);
        self.lemma_lv0();
        if l % 2 == 1 { lemma_apply_step::<F>(d0, lz0, self.size as int, self.log as int, lp, rp, lev, l as int, f); }
        else if r % 2 == 1 { lemma_apply_step::<F>(d0, lz0, self.size as int, self.log as int, lp, rp, lev, r - 1, f); }
    }
//@at call:all_apply#0.after
    proof {
        self.lemma_walk_clean(lp, rp, lev, la, ra);
        if ra % 2 == 1 { lemma_apply_step::<F>(self.d@, self.lz@, self.size as int, self.log as int, lp, rp, lev, ra - 1, f); }
    }
//@at loop1.bodyend
    proof {
        assert forall|p: int| self.size <= p < 2 * self.size implies (#[trigger] self.tree()[p]) == done_at::<F>(t, f, lp, rp, l as int, r as int, lev + 1, p) by {
            lemma_done_step::<F>(t, f, lp, rp, la, ra, lev, p);
            lemma_inside(lp, rp, lev, p);
            assert(w0[p] == done_at::<F>(t, f, lp, rp, la, ra, lev, p));
        }
        lev = lev + 1;
    }
//@at loop1.after
    let ghost t1 = self.tree();
//@at loop2.before
    let ghost t2 = self.tree();
    proof {
        assert forall|p: int| self.size <= p < 2 * self.size implies (#[trigger] self.tree()[p]) == if lp <= p < rp { F::mm_map(f, t[p]) } else { t[p] } by { }
        assert forall|j: int| self.size + self.n <= j < 2 * self.size implies #[trigger] t2[j] == <F::M as Monoid>::m_id() by { assert(old(self).tree()[j] == <F::M as Monoid>::m_id()); }
        self.lemma_lv0();
    }
//@loop 2
    invariant
        self.shape(), self.same(old(self)), l == lp, r == rp, self.size <= lp < rp <= self.size + self.n, vx_e1 == self.log,
        1 <= i <= self.log + 1, self.idle_un(lp, 1), self.idle_un(rp, 1), t2.len() == 2 * self.size,
        forall|p: int| self.size <= p < 2 * self.size ==> (#[trigger] self.tree()[p]) == t2[p],
        self.ok_from(lp, i as int, rp, i as int),
    decreases self.log + 1 - i,
//@at loop2.head
    let ghost i1 = i as int;
    let ghost w0 = self.tree();
    proof {
        self.lemma_path(l, i); self.lemma_path(r, i); self.lemma_lv0();
        lemma_shr_sh((r - 1) as usize, i);
        lemma_fix::<F>(self.d@, self.lz@, self.size as int, self.log as int, lp, i1, rp, i1);
        if !un(lp, i1) {
            lemma_fix::<F>(self.d@, self.lz@, self.size as int, self.log as int, rp, i1, lp, i1 + 1);
        }
    }
//@at call:update#0.after
    proof {
        assert(self.ok_from(lp, i1 + 1, rp, i1));
        lemma_fix::<F>(self.d@, self.lz@, self.size as int, self.log as int, rp, i1, lp, i1 + 1);
    }
//@at loop2.bodyend
    proof {
        assert(self.ok_from(lp, i1 + 1, rp, i1 + 1));
        assert forall|p: int| self.size <= p < 2 * self.size implies (#[trigger] self.tree()[p]) == t2[p] by { assert(w0[p] == t2[p]); }
    }
//@at loop2.after
    proof {
        assert forall|i: int| 0 <= i < self.n implies (#[trigger] self@[i]) == if l0 <= i < r0 { F::mm_map(f, old(self)@[i]) } else { old(self)@[i] } by {
            assert(self.tree()[i + self.size] == t2[i + self.size]);
        }
        assert forall|j: int| self.size + self.n <= j < 2 * self.size implies #[trigger] self.tree()[j] == <F::M as Monoid>::m_id() by { assert(self.tree()[j] == t2[j]); }
        assert forall|k: int| 1 <= k < self.size implies #[trigger] lz_ok::<F>(self.d@, self.lz@, k) by {
            assert(!bad(lp, k, self.log + 1, self.log as int) && !bad(rp, k, self.log + 1, self.log as int));
        }
    }
//@end
}
