// The interface traits::monoid::MapMonoid, with the laws a user's family of maps must satisfy as its contract.
pub trait MapMonoid {
    type M: Monoid;
    type F: Clone;
    spec fn mm_id() -> Self::F;
    spec fn mm_map(f: Self::F, x: <Self::M as Monoid>::S) -> <Self::M as Monoid>::S;
    spec fn mm_comp(f: Self::F, g: Self::F) -> Self::F;
    proof fn law_hom(f: Self::F, a: <Self::M as Monoid>::S, b: <Self::M as Monoid>::S)
        ensures Self::mm_map(f, <Self::M as Monoid>::m_op(a, b)) == <Self::M as Monoid>::m_op(Self::mm_map(f, a), Self::mm_map(f, b));
    proof fn law_map_id(a: <Self::M as Monoid>::S)
        ensures Self::mm_map(Self::mm_id(), a) == a;
    proof fn law_comp(f: Self::F, g: Self::F, a: <Self::M as Monoid>::S)
        ensures Self::mm_map(Self::mm_comp(f, g), a) == Self::mm_map(f, Self::mm_map(g, a));
    proof fn law_clone_f(f: Self::F, g: Self::F)
        requires cloned(f, g),
        ensures f == g;
    fn identity_map() -> (r: Self::F)
        ensures r == Self::mm_id();
    fn mapping(f: &Self::F, x: &<Self::M as Monoid>::S) -> (r: <Self::M as Monoid>::S)
        ensures r == Self::mm_map(*f, *x);
    fn composition(f: &Self::F, g: &Self::F) -> (r: Self::F)
        ensures r == Self::mm_comp(*f, *g);
//@fn traits/monoid.rs | trait MapMonoid::identity_element | ret=r | novis
//@spec
    ensures r == <Self::M as Monoid>::m_id(),
//@end
//@fn traits/monoid.rs | trait MapMonoid::binary_operation | ret=r | novis
//@spec
    ensures r == <Self::M as Monoid>::m_op(*a, *b),
//@end
}

// ---- pending maps.  lz[k] is pending for both children of k.
/// x after every pending map of q and its ancestors
pub open spec fn chain<F: MapMonoid>(lz: Seq<F::F>, x: <F::M as Monoid>::S, q: int) -> <F::M as Monoid>::S
    decreases q,
{
    if q < 1 { x } else { chain::<F>(lz, F::mm_map(lz[q], x), q / 2) }
}
/// nothing pending at q and its ancestors
pub open spec fn clean<F: MapMonoid>(lz: Seq<F::F>, q: int) -> bool
    decreases q,
{
    q < 1 || (lz[q] == F::mm_id() && clean::<F>(lz, q / 2))
}
pub open spec fn lz_ok<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, k: int) -> bool {
    d[k] == F::mm_map(lz[k], <F::M as Monoid>::m_op(d[2 * k], d[2 * k + 1]))
}
pub open spec fn lzs_ok<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int) -> bool {
    forall|k: int| 1 <= k < size ==> #[trigger] lz_ok::<F>(d, lz, k)
}
/// the tree as it would be with every pending map carried out
pub open spec fn virt<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>) -> Seq<<F::M as Monoid>::S> {
    Seq::new(d.len(), |j: int| chain::<F>(lz, d[j], j / 2))
}

pub proof fn lemma_chain_op<F: MapMonoid>(lz: Seq<F::F>, a: <F::M as Monoid>::S, b: <F::M as Monoid>::S, q: int)
    ensures chain::<F>(lz, <F::M as Monoid>::m_op(a, b), q) == <F::M as Monoid>::m_op(chain::<F>(lz, a, q), chain::<F>(lz, b, q)),
    decreases q,
{
    if q >= 1 {
        F::law_hom(lz[q], a, b);
        lemma_chain_op::<F>(lz, F::mm_map(lz[q], a), F::mm_map(lz[q], b), q / 2);
    }
}
pub proof fn lemma_clean_chain<F: MapMonoid>(lz: Seq<F::F>, x: <F::M as Monoid>::S, q: int)
    requires clean::<F>(lz, q),
    ensures chain::<F>(lz, x, q) == x,
    decreases q,
{
    if q >= 1 {
        F::law_map_id(x);
        lemma_clean_chain::<F>(lz, x, q / 2);
    }
}
pub proof fn lemma_chain_frame<F: MapMonoid>(lz: Seq<F::F>, lz2: Seq<F::F>, x: <F::M as Monoid>::S, q: int)
    requires forall|j: int| 1 <= j <= q ==> lz[j] == lz2[j],
    ensures chain::<F>(lz, x, q) == chain::<F>(lz2, x, q),
    decreases q,
{
    if q >= 1 {
        lemma_chain_frame::<F>(lz, lz2, F::mm_map(lz[q], x), q / 2);
    }
}
pub proof fn lemma_clean_frame<F: MapMonoid>(lz: Seq<F::F>, lz2: Seq<F::F>, q: int)
    requires forall|j: int| 1 <= j <= q ==> lz[j] == lz2[j],
    ensures clean::<F>(lz, q) == clean::<F>(lz2, q),
    decreases q,
{
    if q >= 1 {
        lemma_clean_frame::<F>(lz, lz2, q / 2);
    }
}
/// the virtual tree is an ordinary segment tree wherever the local condition holds
pub proof fn lemma_virt_node<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, k: int)
    requires 1 <= k, 2 * k + 1 < d.len(), lz_ok::<F>(d, lz, k),
    ensures node_ok::<F::M>(virt::<F>(d, lz), k),
{
    let (a, b) = (d[2 * k], d[2 * k + 1]);
    lemma_chain_op::<F>(lz, a, b, k);
    assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k);
    assert(chain::<F>(lz, <F::M as Monoid>::m_op(a, b), k) == chain::<F>(lz, F::mm_map(lz[k], <F::M as Monoid>::m_op(a, b)), k / 2));
}
pub proof fn lemma_virt_ok<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int)
    requires d.len() == 2 * size, lzs_ok::<F>(d, lz, size),
    ensures nodes_ok::<F::M>(virt::<F>(d, lz), 1, size),
{
    assert forall|k: int| 1 <= k < size implies #[trigger] node_ok::<F::M>(virt::<F>(d, lz), k) by {
        assert(lz_ok::<F>(d, lz, k));
        lemma_virt_node::<F>(d, lz, k);
    }
}
/// where nothing is pending above, the stored value is the virtual one
pub proof fn lemma_virt_clean<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, k: int)
    requires 0 <= k < d.len(), clean::<F>(lz, k / 2),
    ensures virt::<F>(d, lz)[k] == d[k],
{
    lemma_clean_chain::<F>(lz, d[k], k / 2);
}

// ---- applying a map to one node
pub open spec fn ap_d<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, k: int, f: F::F) -> Seq<<F::M as Monoid>::S> {
    d.update(k, F::mm_map(f, d[k]))
}
pub open spec fn ap_lz<F: MapMonoid>(lz: Seq<F::F>, k: int, f: F::F) -> Seq<F::F> {
    if k < lz.len() { lz.update(k, F::mm_comp(f, lz[k])) } else { lz }
}
pub proof fn lemma_chain_apply<F: MapMonoid>(lz: Seq<F::F>, k: int, f: F::F, x: <F::M as Monoid>::S, q: int)
    requires 1 <= k < lz.len(), clean::<F>(lz, k / 2), 0 <= q,
    ensures chain::<F>(ap_lz::<F>(lz, k, f), x, q) == if anc(k, q) { F::mm_map(f, chain::<F>(lz, x, q)) } else { chain::<F>(lz, x, q) },
    decreases q,
{
    let lz2 = ap_lz::<F>(lz, k, f);
    if q >= 1 {
        if q == k {
            F::law_comp(f, lz[k], x);
            let y = F::mm_map(lz[k], x);
            lemma_chain_frame::<F>(lz, lz2, F::mm_map(f, y), k / 2);
            lemma_clean_chain::<F>(lz, F::mm_map(f, y), k / 2);
            lemma_clean_chain::<F>(lz, y, k / 2);
        } else {
            lemma_chain_apply::<F>(lz, k, f, F::mm_map(lz[q], x), q / 2);
        }
    }
}
pub proof fn lemma_apply_node<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, k: int, f: F::F)
    requires d.len() == 2 * size, lz.len() == size, 1 <= k < 2 * size, clean::<F>(lz, k / 2),
    ensures
        forall|j: int| 1 <= j < 2 * size ==> (#[trigger] virt::<F>(ap_d::<F>(d, k, f), ap_lz::<F>(lz, k, f))[j])
            == (if anc(k, j) { F::mm_map(f, virt::<F>(d, lz)[j]) } else { virt::<F>(d, lz)[j] }),
        forall|j: int| 1 <= j < size && j != k / 2 && lz_ok::<F>(d, lz, j) ==> #[trigger] lz_ok::<F>(ap_d::<F>(d, k, f), ap_lz::<F>(lz, k, f), j),
{
    let d2 = ap_d::<F>(d, k, f);
    let lz2 = ap_lz::<F>(lz, k, f);
    assert forall|j: int| 1 <= j < 2 * size implies (#[trigger] virt::<F>(d2, lz2)[j])
            == (if anc(k, j) { F::mm_map(f, virt::<F>(d, lz)[j]) } else { virt::<F>(d, lz)[j] }) by {
        if k < size {
            lemma_chain_apply::<F>(lz, k, f, d2[j], j / 2);
        } else if j != k {
            if anc(k, j / 2) { lemma_anc_le(k, j / 2); }
        }
        if j == k {
            if anc(k, k / 2) { lemma_anc_le(k, k / 2); }
            lemma_clean_chain::<F>(lz, d[k], k / 2);
            lemma_clean_chain::<F>(lz, d2[k], k / 2);
        }
    }
    assert forall|j: int| 1 <= j < size && j != k / 2 && lz_ok::<F>(d, lz, j) implies #[trigger] lz_ok::<F>(d2, lz2, j) by {
        if j == k {
            F::law_comp(f, lz[k], <F::M as Monoid>::m_op(d[2 * k], d[2 * k + 1]));
        }
    }
}
pub proof fn lemma_anc_le(k: int, q: int)
    requires anc(k, q),
    ensures 0 < k <= q || k <= 0,
    decreases q,
{
    if q > 0 && k != q {
        lemma_anc_le(k, q / 2);
    }
}

// ---- push
pub open spec fn push_d<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, k: int) -> Seq<<F::M as Monoid>::S> {
    ap_d::<F>(ap_d::<F>(d, 2 * k, lz[k]), 2 * k + 1, lz[k])
}
pub open spec fn push_lz<F: MapMonoid>(lz: Seq<F::F>, k: int) -> Seq<F::F> {
    ap_lz::<F>(ap_lz::<F>(lz, 2 * k, lz[k]), 2 * k + 1, lz[k]).update(k, F::mm_id())
}
pub proof fn lemma_chain_push<F: MapMonoid>(lz: Seq<F::F>, k: int, x: <F::M as Monoid>::S, q: int)
    requires 1 <= k < lz.len(), 0 <= q < lz.len(), q != k,
    ensures chain::<F>(push_lz::<F>(lz, k), x, q) == chain::<F>(lz, x, q),
    decreases q,
{
    let lz2 = push_lz::<F>(lz, k);
    if q >= 1 {
        if q == 2 * k || q == 2 * k + 1 {
            assert(q / 2 == k);
            F::law_comp(lz[k], lz[q], x);
            let y = F::mm_map(lz[k], F::mm_map(lz[q], x));
            F::law_map_id(y);
            lemma_chain_push::<F>(lz, k, y, k / 2);
            assert(chain::<F>(lz2, x, q) == chain::<F>(lz2, F::mm_map(lz2[q], x), k));
            assert(chain::<F>(lz, x, q) == chain::<F>(lz, F::mm_map(lz[q], x), k));
        } else {
            lemma_chain_push::<F>(lz, k, F::mm_map(lz[q], x), q / 2);
        }
    }
}
pub proof fn lemma_push<F: MapMonoid>(d: Seq<<F::M as Monoid>::S>, lz: Seq<F::F>, size: int, k: int)
    requires d.len() == 2 * size, lz.len() == size, 1 <= k < size,
    ensures
        virt::<F>(push_d::<F>(d, lz, k), push_lz::<F>(lz, k)) =~= virt::<F>(d, lz),
        forall|j: int| 1 <= j < size && lz_ok::<F>(d, lz, j) ==> #[trigger] lz_ok::<F>(push_d::<F>(d, lz, k), push_lz::<F>(lz, k), j),
{
    let d2 = push_d::<F>(d, lz, k);
    let lz2 = push_lz::<F>(lz, k);
    assert forall|j: int| 0 <= j < 2 * size implies chain::<F>(lz2, d2[j], j / 2) == chain::<F>(lz, d[j], j / 2) by {
        if j / 2 == k {
            let y = F::mm_map(lz[k], d[j]);
            assert(d2[j] == y);
            F::law_map_id(y);
            lemma_chain_push::<F>(lz, k, y, k / 2);
        } else {
            lemma_chain_push::<F>(lz, k, d[j], j / 2);
        }
    }
    assert forall|j: int| 1 <= j < size && lz_ok::<F>(d, lz, j) implies #[trigger] lz_ok::<F>(d2, lz2, j) by {
        if j == k {
            F::law_hom(lz[k], d[2 * k], d[2 * k + 1]);
            F::law_map_id(d[k]);
        } else if j / 2 == k {
            F::law_comp(lz[k], lz[j], <F::M as Monoid>::m_op(d[2 * j], d[2 * j + 1]));
        }
    }
}

// ---- levels of the tree: sh(x, i) is x with i halvings, un(x, i) tells whether a halving lost a bit
pub open spec fn sh(x: int, i: int) -> int
    decreases i,
{
    if i <= 0 { x } else { sh(x, i - 1) / 2 }
}
pub open spec fn un(x: int, i: int) -> bool
    decreases i,
{
    if i <= 0 { false } else { un(x, i - 1) || sh(x, i - 1) % 2 == 1 }
}
pub proof fn lemma_shr_sh(x: usize, i: usize)
    requires i < 63,
    ensures (x >> i) as int == sh(x as int, i as int), ((((x >> i) << i) != x) == un(x as int, i as int)),
    decreases i,
{
    if i == 0 {
        assert(x >> 0usize == x && (x >> 0usize) << 0usize == x) by (bit_vector);
    } else {
        let j = (i - 1) as usize;
        lemma_shr_sh(x, j);
        bit_shr_step(x, j);
        let y = x >> j;
        assert((x >> i) << i == x <==> (((x >> j) << j) == x && y % 2 == 0)) by (bit_vector) requires i == add(j, 1), 1 <= i < 63, y == x >> j;
    }
}
pub proof fn lemma_un_up(x: int, i: int, j: int)
    requires 0 <= i <= j, un(x, i),
    ensures un(x, j),
    decreases j - i,
{
    if i < j { lemma_un_up(x, i, j - 1); }
}
/// where r has a non-zero tail, r and r - 1 have the same ancestor
pub proof fn lemma_sh_pred(x: int, i: int)
    requires 0 <= i, x >= 1,
    ensures sh(x - 1, i) == if un(x, i) { sh(x, i) } else { sh(x, i) - 1 },
    decreases i,
{
    if i > 0 { lemma_sh_pred(x, i - 1); }
}
pub proof fn lemma_sh_mono(x: int, y: int, i: int)
    requires 0 <= i, 0 <= x <= y,
    ensures 0 <= sh(x, i) <= sh(y, i),
    decreases i,
{
    if i > 0 { lemma_sh_mono(x, y, i - 1); }
}
/// the nodes of level i are lv(i) .. 2 lv(i)
pub open spec fn lv(log: int, i: int) -> int {
    if i <= log { pow2((log - i) as nat) as int } else { 0 }
}
pub proof fn lemma_lv(log: int, i: int)
    requires 0 <= i <= log,
    ensures lv(log, i) >= 1, i < log ==> lv(log, i) == 2 * lv(log, i + 1), i == log ==> lv(log, i) == 1, lv(log, log + 1) == 0,
{
    lemma_pow2_pos((log - i) as nat);
    lemma2_to64();
    if i < log { lemma_pow2_unfold((log - i) as nat); }
}
pub proof fn lemma_sh_lv(x: int, log: int, i: int)
    requires 0 <= i <= log, lv(log, 0) <= x <= 2 * lv(log, 0),
    ensures
        lv(log, i) <= sh(x, i) <= 2 * lv(log, i), x < 2 * lv(log, 0) ==> sh(x, i) < 2 * lv(log, i), lv(log, i) >= 1,
        x == 2 * lv(log, 0) ==> sh(x, i) == 2 * lv(log, i) && !un(x, i),
        i == log && x < 2 * lv(log, 0) ==> sh(x, i) == 1,
    decreases i,
{
    lemma_lv(log, i);
    if i > 0 {
        lemma_lv(log, i - 1);
        lemma_sh_lv(x, log, i - 1);
    }
}
pub proof fn lemma_lv_gap(log: int, i: int, j: int)
    requires 0 <= i < j <= log,
    ensures 2 * lv(log, j) <= lv(log, i),
    decreases j - i,
{
    lemma_lv(log, j - 1);
    if i < j - 1 { lemma_lv_gap(log, i, j - 1); lemma_lv(log, j); }
}
/// ancestors of a leaf, by level
pub proof fn lemma_anc_sh(k: int, p: int, log: int, i: int, j: int)
    requires 0 <= j <= i <= log, lv(log, 0) <= p < 2 * lv(log, 0), lv(log, i) <= k < 2 * lv(log, i),
    ensures anc(k, sh(p, j)) <==> sh(p, i) == k,
    decreases i - j,
{
    let q = sh(p, j);
    lemma_sh_lv(p, log, j);
    lemma_lv(log, i);
    if j == i {
        if anc(k, q / 2) { lemma_anc_le(k, q / 2); }
    } else {
        lemma_lv_gap(log, j, i);
        lemma_anc_sh(k, p, log, i, j + 1);
        assert(sh(p, j + 1) == q / 2);
    }
}

/// the tags on the path above x, from level i up, are idle -- all of them (any = true) or those that x splits
pub open spec fn idle<F: MapMonoid>(lz: Seq<F::F>, x: int, any: bool, i: int, log: int) -> bool {
    forall|j: int| i <= j <= log && (any || un(x, j)) ==> #[trigger] lz[sh(x, j)] == F::mm_id()
}
pub proof fn lemma_idle_clean<F: MapMonoid>(lz: Seq<F::F>, x: int, any: bool, i: int, log: int)
    requires idle::<F>(lz, x, any, i, log), 1 <= i <= log + 1, any || i > log || un(x, i), lv(log, 0) <= x < 2 * lv(log, 0),
    ensures clean::<F>(lz, sh(x, i)),
    decreases log + 1 - i,
{
    if i <= log {
        if !any { lemma_un_up(x, i, i + 1); }
        lemma_idle_clean::<F>(lz, x, any, i + 1, log);
        assert(sh(x, i + 1) == sh(x, i) / 2);
        lemma_sh_lv(x, log, i);
    } else {
        lemma_sh_lv(x, log, log);
        assert(sh(x, log + 1) == sh(x, log) / 2);
    }
}
/// a push at level i leaves the idle tags above it idle
pub proof fn lemma_idle_push<F: MapMonoid>(lz: Seq<F::F>, lz2: Seq<F::F>, x: int, any: bool, i: int, log: int, k: int)
    requires
        idle::<F>(lz, x, any, i + 1, log), 1 <= i <= log, lv(log, 0) <= x <= 2 * lv(log, 0), any ==> x < 2 * lv(log, 0),
        lv(log, i) <= k < 2 * lv(log, i),
        forall|j: int| 1 <= j < 2 * k && j != k ==> lz2[j] == lz[j], lz2[k] == F::mm_id(),
    ensures
        idle::<F>(lz2, x, any, i + 1, log), sh(x, i) == k ==> idle::<F>(lz2, x, any, i, log),
        idle::<F>(lz, x, any, i, log) ==> idle::<F>(lz2, x, any, i, log),
        !any && !un(x, i) ==> idle::<F>(lz2, x, any, i, log),
{
    assert forall|j: int| i <= j <= log && (any || un(x, j)) && (j > i || idle::<F>(lz, x, any, i, log) || sh(x, i) == k) implies #[trigger] lz2[sh(x, j)] == F::mm_id() by {
        lemma_sh_lv(x, log, j);
        lemma_lv(log, j);
        if j > i { lemma_lv_gap(log, i, j); }
        assert(sh(x, j) < 2 * lv(log, j));
        assert(1 <= sh(x, j) < 2 * k);
        if sh(x, j) != k { assert(lz[sh(x, j)] == F::mm_id()); }
    }
}
