/// k is the boundary of the predicate along the non-empty prefixes of s
pub open spec fn boundary<T: Elem, P: FnMut(&T) -> bool>(s: Seq<T::D>, pred: P, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|i: int, x: T| 1 <= i <= s.len() && #[trigger] x.val() == #[trigger] tot::<T>(s, 0, i) ==>
            (i <= k ==> !pred.ensures((&x,), false)) && (i > k ==> !pred.ensures((&x,), true))
}

/// instantiation handle for quantified candidates
pub open spec fn at(k: int) -> bool { true }

pub open spec fn elem_lt<T: Elem>(x: T, t: T) -> bool {
    x.partial_cmp_spec(&t) == Some(core::cmp::Ordering::Less)
}

pub open spec fn first_at_least<T: Elem>(s: Seq<T::D>, t: T, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|i: int, x: T| 1 <= i <= s.len() && #[trigger] x.val() == #[trigger] tot::<T>(s, 0, i) ==> (elem_lt(x, t) <==> i <= k)
}

pub proof fn lemma_mod_half(p: int, q: int)
    requires q > 0, p >= 0, p % (2 * q) == 0,
    ensures p % q == 0, (p + q) % q == 0,
{
    lemma_fundamental_div_mod(p, 2 * q);
    let d = p / (2 * q);
    assert(p == (2 * d) * q) by (nonlinear_arith) requires p == 2 * q * d;
    lemma_mod_multiples_basic(2 * d, q);
    assert((2 * d) * q + q == (2 * d + 1) * q) by (nonlinear_arith);
    lemma_mod_multiples_basic(2 * d + 1, q);
}

pub proof fn lemma_shl_pow(i: u32)
    requires i < 64,
    ensures 1usize << i == pow2(i as nat), pow2(i as nat) <= 0x8000_0000_0000_0000,
{
    lemma2_to64();
    lemma_pow2_pos(i as nat);
    lemma_pow2_unfold(64);
    if i < 63 { lemma_pow2_strictly_increases(i as nat, 63); }
    lemma_u64_shl_is_mul(1, i as u64);
    assert(1usize << i == 1u64 << (i as u64)) by (bit_vector);
}

impl<T: Elem> FenwickTree<T> {
//@fn data_structure/fenwick_tree.rs | FenwickTree::partition_point | ret=ret
//@spec
    requires
        self.wf(), no_overflow::<T>(self@),
        forall|x: T| #[trigger] pred.requires((&x,)),
    ensures
        0 <= ret <= self@.len(),
        forall|k: int| #[trigger] at(k) && boundary::<T, P>(self@, pred, k) ==> ret == k,
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost pred0 = pred;
    let ghost s = self@;
    proof {
        T::law_default();
        self.lemma_wf();
        assert forall|x: T, e: T| #[trigger] call_ensures(T::clone, (&x,), e) implies e == x by { T::law_clone(x, e); }
        let n = self.n as u64;
        axiom_u64_leading_zeros(n);
        if n > 0 { lemma_lg64(n); } else { lemma2_to64(); }
    }
//@loop 0
    invariant
        self.wf(), s == self@, no_overflow::<T>(s), self.n == s.len(), self.ary@.len() == self.n, self.n < 0x7fff_ffff_ffff_ffff,
        forall|x: T| #[trigger] pred.requires((&x,)),
        forall|x: T, e: T| #[trigger] call_ensures(T::clone, (&x,), e) ==> e == x,
        vx_k0 <= 64, pred == pred0,
        0 <= pos <= self.n, pos as int % (pow2(vx_k0 as nat) as int) == 0,
        sum.val() == tot::<T>(s, 0, pos as int),
        forall|k: int| #[trigger] boundary::<T, P>(s, pred, k) ==> pos <= k < pos + pow2(vx_k0 as nat),
    decreases vx_k0,
//@at loop0.head
    let ghost k0 = vx_k0 as nat;
    let ghost p0 = pos as int;
    proof {
        let c = (k0 - 1) as nat;
        lemma_shl_pow(c as u32);
        lemma_pow2_unfold(k0);
        lemma_pow2_pos(c);
        let q = pow2(c) as int;
        let next = p0 + q;
        lemma_lb_pow(p0, c);
        lemma_mod_half(p0, q);
        if next <= s.len() {
            lemma_sum_split::<T>(s, 0, p0, next);
            assert(rep::<T>(tot::<T>(s, 0, next)));
            self.lemma_wf();
            assert(self.ary@[next - 1].val() == tot::<T>(s, p0, next));
            T::law_add(sum, self.ary@[next - 1], wit::<T>(tot::<T>(s, 0, next)));
        }
    }
//@at loop0.after
    proof { lemma2_to64(); }
//@end

//@fn data_structure/fenwick_tree.rs | FenwickTree::search | ret=ret
//@closure 0
|x: &T| -> (b: bool)
    ensures b == elem_lt(*x, *target)
//@spec
    requires self.wf(), no_overflow::<T>(self@),
    ensures
        0 <= ret <= self@.len(),
        // the first prefix whose sum is not below the target, where those prefix sums that are come first
        forall|k: int| #[trigger] first_at_least::<T>(self@, *target, k) ==> ret == k,
//@entry
    proof { T::law_lt(); }
//@exit
    proof {
        assert forall|k: int| #[trigger] first_at_least::<T>(self@, *target, k) implies ret == k by { assert(at(k)); }
    }
//@end
}
