//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/util.vx
//@include lib/pigeon.vx
//@include lib/tree.vx
//@include lib/walk.vx
//@struct graph/binary_lifting.rs | BinaryLifting

pub open spec fn shape(s: BinaryLifting, n: int) -> bool {
    &&& s.pa@.len() == n && s.dep@.len() == n && s.tin@.len() == n && s.tout@.len() == n && s.level >= 1
    &&& forall|x: int| 0 <= x < n ==> (#[trigger] s.pa@[x])@.len() == s.level
}
/// the entries of x's row are its ancestors at distances 1, 2, 4, ...
#[verifier::opaque]
pub open spec fn lifted(s: BinaryLifting, t: Tree, x: int) -> bool {
    forall|i: int| 0 <= i < s.level ==> (#[trigger] s.pa@[x]@[i]) == jump(t, x, pow2(i as nat) as int)
}
/// the interval of x holds the entry time of y exactly if x is an ancestor of y
pub open spec fn nested(s: BinaryLifting, t: Tree, x: int, y: int) -> bool {
    tanc(t, x, y) <==> s.tin@[x] <= s.tin@[y] < s.tout@[x]
}
pub open spec fn filled(s: BinaryLifting, t: Tree, x: int, t0: int, t1: int) -> bool {
    lifted(s, t, x) && s.dep@[x] == t.d[x] && t0 <= s.tin@[x] < s.tout@[x] <= t1
}
pub open spec fn row_ok(s: BinaryLifting, t: Tree, x: int) -> bool { lifted(s, t, x) && s.dep@[x] == t.d[x] }
pub open spec fn same_at(s0: BinaryLifting, s: BinaryLifting, x: int) -> bool {
    s.pa@[x] == s0.pa@[x] && s.dep@[x] == s0.dep@[x] && s.tin@[x] == s0.tin@[x] && s.tout@[x] == s0.tout@[x]
}
#[verifier::opaque]
pub open spec fn ready(g: Seq<Vec<usize>>, s0: BinaryLifting, u: int, p: int, t0: int, t: Tree) -> bool {
    &&& lists_tree(g, t) && shape(s0, g.len() as int) && 0 <= u < g.len() && t.par[u] == p && s0.dep@[u] == t.d[u]
    &&& forall|a: int| 0 <= a < g.len() && tanc(t, a, u) && a != u ==> #[trigger] lifted(s0, t, a)
    &&& 0 <= t0 && t0 + size(t, u) <= usize::MAX
}
/// u is entered and its first k edges are through
#[verifier::opaque]
pub open spec fn doing(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, u: int, t0: int, t1: int, k: int, t: Tree) -> bool {
    &&& shape(s, g.len() as int) && s.level == s0.level && t1 == t0 + count_true(parts(g, t, u, k)) && t0 < t1
    &&& lifted(s, t, u) && s.dep@[u] == t.d[u] && s.tin@[u] == t0
    &&& forall|x: int| 0 <= x < g.len() && !part(g, t, u, k, x) ==> #[trigger] same_at(s0, s, x)
    &&& forall|x: int| 0 <= x < g.len() && part(g, t, u, k, x) && x != u ==> #[trigger] filled(s, t, x, t0 + 1, t1)
    &&& forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && part(g, t, u, k, x) && x != u && part(g, t, u, k, y) ==> #[trigger] nested(s, t, x, y)
}
/// everything below u has been visited
#[verifier::opaque]
pub open spec fn visited(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, u: int, t0: int, t1: int, t: Tree) -> bool {
    &&& shape(s, g.len() as int) && s.level == s0.level && t1 == t0 + size(t, u)
    &&& forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) ==> #[trigger] same_at(s0, s, x)
    &&& forall|x: int| 0 <= x < g.len() && tanc(t, u, x) ==> #[trigger] filled(s, t, x, t0, t1)
    &&& forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && tanc(t, u, x) && tanc(t, u, y) ==> #[trigger] nested(s, t, x, y)
}
pub proof fn lemma_ready(g: Seq<Vec<usize>>, s0: BinaryLifting, u: int, p: int, t0: int, t: Tree)
    requires ready(g, s0, u, p, t0, t),
    ensures
        lists_tree(g, t), tree_ok(t), shape(s0, g.len() as int), 0 <= u < g.len(), 0 <= p < g.len(), t.par.len() == g.len(), t.par[u] == p, size(t, u) >= 1,
        t0 + size(t, u) <= usize::MAX, s0.dep@[u] == t.d[u] < g.len(),
{
    reveal(ready);
    assert(0 <= t.par[u] < g.len());
    lemma_part_zero(g, t, u);
    lemma_part_le(g, t, u, 0);
    lemma_depth(t, u);
}
/// one more entry of the row of u
pub proof fn lemma_row(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, u: int, p: int, t0: int, i: int, t: Tree)
    requires
        ready(g, s0, u, p, t0, t), s.level == s0.level, 1 <= i < s.level, s.pa@.len() == g.len(), s.pa@[u]@.len() == s.level,
        forall|x: int| 0 <= x < g.len() && x != u ==> #[trigger] s.pa@[x] == s0.pa@[x],
        forall|j: int| 0 <= j < i ==> (#[trigger] s.pa@[u]@[j]) == jump(t, u, pow2(j as nat) as int),
    ensures
        0 <= s.pa@[u]@[i - 1] < g.len(), s.pa@[s.pa@[u]@[i - 1] as int]@.len() == s.level, s.pa@[s.pa@[u]@[i - 1] as int]@[i - 1] == jump(t, u, pow2(i as nat) as int),
{
    lemma_ready(g, s0, u, p, t0, t);
    let h = pow2((i - 1) as nat) as int;
    let a = jump(t, u, h);
    assert(s.pa@[u]@[i - 1] == a);
    lemma_pow2_pos((i - 1) as nat);
    lemma_pow2_unfold(i as nat);
    lemma_jump(t, u, h);
    lemma_jump_add(t, u, h, h);
    assert(h + h == pow2(i as nat) as int);
    if a != u {
        assert(tanc(t, a, u));
        assert(lifted(s0, t, a)) by { reveal(ready); }
        assert(s.pa@[a] == s0.pa@[a]);
        reveal(lifted);
        assert(s0.pa@[a]@[i - 1] == jump(t, a, h));
    } else {
        assert(s.pa@[u]@[i - 1] == jump(t, u, h));
    }
}
pub proof fn lemma_begin(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, u: int, p: int, t0: int, t: Tree)
    requires
        ready(g, s0, u, p, t0, t), shape(s, g.len() as int), s.level == s0.level, s.dep@ == s0.dep@, s.tout@ == s0.tout@, s.tin@ == s0.tin@.update(u, t0 as usize), t0 <= usize::MAX,
        forall|x: int| 0 <= x < g.len() && x != u ==> #[trigger] s.pa@[x] == s0.pa@[x],
        forall|j: int| 0 <= j < s.level ==> (#[trigger] s.pa@[u]@[j]) == jump(t, u, pow2(j as nat) as int),
    ensures doing(g, s0, s, u, t0, t0 + 1, 0, t),
{
    lemma_ready(g, s0, u, p, t0, t);
    reveal(ready);
    reveal(doing);
    lemma_part_zero(g, t, u);
    assert(lifted(s, t, u)) by { reveal(lifted); }
}
/// before the recursive call for the child v
pub proof fn lemma_down(g: Seq<Vec<usize>>, s0: BinaryLifting, s1: BinaryLifting, sd: BinaryLifting, u: int, p: int, t0: int, t1: int, k: int, t: Tree)
    requires
        ready(g, s0, u, p, t0, t), doing(g, s0, s1, u, t0, t1, k, t), 0 <= k < g[u]@.len(), g[u]@[k] != p,
        sd.pa@ == s1.pa@, sd.tin@ == s1.tin@, sd.tout@ == s1.tout@, sd.level == s1.level, sd.dep@ == s1.dep@.update(g[u]@[k] as int, (s1.dep@[u] + 1) as usize), s1.dep@[u] + 1 <= usize::MAX,
    ensures ready(g, sd, g[u]@[k] as int, u, t1, t),
{
    lemma_ready(g, s0, u, p, t0, t);
    let v = g[u]@[k] as int;
    lemma_entry(g, t, u, k);
    lemma_part_step(g, t, u, k);
    lemma_part_le(g, t, u, k + 1);
    reveal(doing);
    reveal(ready);
    assert forall|a: int| 0 <= a < g.len() && tanc(t, a, v) && a != v implies #[trigger] lifted(sd, t, a) by {
        lemma_tanc(t, a, v);
        lemma_tanc(t, u, v);
        lemma_par_anc(t, v);
        lemma_chain_of(t, a, u, v);
        lemma_tanc(t, a, u);
        if a != u {
            if part(g, t, u, k, a) { lemma_part_in(g, t, u, k, a); lemma_tanc(t, u, a); }
            assert(same_at(s0, s1, a));
            assert(lifted(s0, t, a));
        }
        reveal(lifted);
    }
}
pub proof fn lemma_up(g: Seq<Vec<usize>>, s0: BinaryLifting, s1: BinaryLifting, sd: BinaryLifting, s2: BinaryLifting, u: int, p: int, t0: int, t1: int, t2: int, k: int, t: Tree)
    requires
        ready(g, s0, u, p, t0, t), doing(g, s0, s1, u, t0, t1, k, t), 0 <= k < g[u]@.len(), g[u]@[k] != p,
        sd.pa@ == s1.pa@, sd.tin@ == s1.tin@, sd.tout@ == s1.tout@, sd.level == s1.level, sd.dep@ == s1.dep@.update(g[u]@[k] as int, (s1.dep@[u] + 1) as usize),
        visited(g, sd, s2, g[u]@[k] as int, t1, t2, t),
    ensures doing(g, s0, s2, u, t0, t2, k + 1, t),
{
    lemma_ready(g, s0, u, p, t0, t);
    let v = g[u]@[k] as int;
    lemma_entry(g, t, u, k);
    lemma_part_step(g, t, u, k);
    lemma_tanc_refl(t, v);
    assert(!tanc(t, v, u)) by { lemma_tanc(t, v, u); }
    lemma_count_bounds(below(t, v));
    reveal(doing);
    reveal(visited);
    assert forall|x: int| 0 <= x < g.len() && !tanc(t, v, x) implies #[trigger] same_at(s1, s2, x) by { assert(same_at(sd, s2, x)); }
    assert(same_at(s1, s2, u));
    assert(lifted(s2, t, u)) by { reveal(lifted); }
    assert forall|x: int| 0 <= x < g.len() && !part(g, t, u, k + 1, x) implies #[trigger] same_at(s0, s2, x) by {
        assert(!part(g, t, u, k, x) && !tanc(t, v, x));
        assert(same_at(s0, s1, x) && same_at(s1, s2, x));
    }
    assert forall|x: int| 0 <= x < g.len() && part(g, t, u, k, x) implies #[trigger] same_at(s1, s2, x) by {
        if tanc(t, v, x) { lemma_part_new(g, t, u, k, x); }
    }
    assert forall|x: int| 0 <= x < g.len() && part(g, t, u, k + 1, x) && x != u implies #[trigger] filled(s2, t, x, t0 + 1, t2) by {
        if tanc(t, v, x) {
            assert(filled(s2, t, x, t1, t2));
        } else {
            assert(part(g, t, u, k, x) && same_at(s1, s2, x));
            assert(filled(s1, t, x, t0 + 1, t1));
            reveal(lifted);
        }
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && part(g, t, u, k + 1, x) && x != u && part(g, t, u, k + 1, y) implies #[trigger] nested(s2, t, x, y) by {
        if tanc(t, v, x) {
            assert(filled(s2, t, x, t1, t2));
            if tanc(t, v, y) {
                assert(nested(s2, t, x, y));
            } else {
                assert(part(g, t, u, k, y) && same_at(s1, s2, y));
                if y != u { assert(filled(s1, t, y, t0 + 1, t1)); }
                assert(!tanc(t, x, y)) by { if tanc(t, x, y) { lemma_tanc_trans(t, v, x, y); } }
            }
        } else {
            assert(part(g, t, u, k, x) && same_at(s1, s2, x));
            assert(filled(s1, t, x, t0 + 1, t1));
            if tanc(t, v, y) {
                assert(filled(s2, t, y, t1, t2));
                assert(!tanc(t, x, y)) by { if tanc(t, x, y) { lemma_apart(g, t, u, k, x, y); } }
            } else {
                assert(part(g, t, u, k, y) && same_at(s1, s2, y));
                assert(nested(s1, t, x, y));
            }
        }
    }
}
/// nothing below an earlier child is an ancestor of something below the next one
pub proof fn lemma_apart(g: Seq<Vec<usize>>, t: Tree, u: int, k: int, x: int, y: int)
    requires
        lists_tree(g, t), 0 <= u < g.len(), 0 <= k < g[u]@.len(), g[u]@[k] != t.par[u], 0 <= x < g.len(), 0 <= y < g.len(), x != u,
        part(g, t, u, k, x), tanc(t, g[u]@[k] as int, y), tanc(t, x, y),
    ensures false,
{
    let i = choose|i: int| 0 <= i < k && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x);
    let c = g[u]@[i] as int;
    lemma_tanc_trans(t, c, x, y);
    assert(part(g, t, u, k, y));
    lemma_part_new(g, t, u, k, y);
}
pub proof fn lemma_skip(g: Seq<Vec<usize>>, s0: BinaryLifting, s1: BinaryLifting, u: int, p: int, t0: int, t1: int, k: int, t: Tree)
    requires ready(g, s0, u, p, t0, t), doing(g, s0, s1, u, t0, t1, k, t), 0 <= k < g[u]@.len(), g[u]@[k] == p,
    ensures doing(g, s0, s1, u, t0, t1, k + 1, t),
{
    lemma_ready(g, s0, u, p, t0, t);
    lemma_part_step(g, t, u, k);
    reveal(doing);
    assert forall|x: int| 0 <= x < g.len() implies part(g, t, u, k, x) == #[trigger] part(g, t, u, k + 1, x) by {}
    assert forall|x: int| 0 <= x < g.len() && !part(g, t, u, k + 1, x) implies #[trigger] same_at(s0, s1, x) by { assert(!part(g, t, u, k, x)); }
    assert forall|x: int| 0 <= x < g.len() && part(g, t, u, k + 1, x) && x != u implies #[trigger] filled(s1, t, x, t0 + 1, t1) by { assert(part(g, t, u, k, x)); }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && part(g, t, u, k + 1, x) && x != u && part(g, t, u, k + 1, y) implies #[trigger] nested(s1, t, x, y) by {
        assert(part(g, t, u, k, x) && part(g, t, u, k, y));
    }
}
pub proof fn lemma_finish(g: Seq<Vec<usize>>, s0: BinaryLifting, s1: BinaryLifting, s2: BinaryLifting, u: int, p: int, t0: int, t1: int, t: Tree)
    requires
        ready(g, s0, u, p, t0, t), doing(g, s0, s1, u, t0, t1, g[u]@.len() as int, t),
        s2.pa@ == s1.pa@, s2.tin@ == s1.tin@, s2.dep@ == s1.dep@, s2.level == s1.level, s2.tout@ == s1.tout@.update(u, t1 as usize), t1 <= usize::MAX,
    ensures visited(g, s0, s2, u, t0, t1, t),
{
    let m = g[u]@.len() as int;
    lemma_ready(g, s0, u, p, t0, t);
    lemma_part_all(g, t, u);
    reveal(doing);
    reveal(visited);
    lemma_tanc_refl(t, u);
    assert forall|x: int| 0 <= x < g.len() implies tanc(t, u, x) == #[trigger] part(g, t, u, m, x) by {}
    assert forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) implies #[trigger] same_at(s0, s2, x) by { assert(!part(g, t, u, m, x)); assert(same_at(s0, s1, x)); }
    assert forall|x: int| 0 <= x < g.len() && tanc(t, u, x) implies #[trigger] filled(s2, t, x, t0, t1) by {
        assert(part(g, t, u, m, x));
        if x != u { assert(filled(s1, t, x, t0 + 1, t1)); }
        reveal(lifted);
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && tanc(t, u, x) && tanc(t, u, y) implies #[trigger] nested(s2, t, x, y) by {
        assert(part(g, t, u, m, x) && part(g, t, u, m, y));
        assert(filled(s2, t, y, t0, t1));
        if x != u { assert(nested(s1, t, x, y)); }
    }
}

impl BinaryLifting {
//@fn graph/binary_lifting.rs | BinaryLifting::dfs
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| ready(g@, *old(self), u as int, p as int, *old(timer) as int, t),
    ensures forall|t: Tree| #[trigger] ready(g@, *old(self), u as int, p as int, *old(timer) as int, t) ==> visited(g@, *old(self), *final(self), u as int, *old(timer) as int, *final(timer) as int, t),
    decreases g@.len() - old(self).dep@[u as int],
//@entry
    let ghost s0 = *self;
    let ghost gg = g@;
    let ghost ui = u as int;
    let ghost pi = p as int;
    let ghost t0 = *timer as int;
    let ghost tt = choose|t: Tree| ready(gg, s0, ui, pi, t0, t);
    proof { lemma_ready(gg, s0, ui, pi, t0, tt); }
//@loop 0
    invariant
        self.level == sl.level, 1 <= i <= self.level, self.dep@ == sl.dep@, self.tout@ == sl.tout@, self.tin@ == sl.tin@, shape(*self, gg.len() as int),
        forall|x: int| 0 <= x < gg.len() && x != ui ==> #[trigger] self.pa@[x] == sl.pa@[x],
        forall|t: Tree, j: int| #[trigger] ready(gg, s0, ui, pi, t0, t) && 0 <= j < i ==> (#[trigger] self.pa@[ui]@[j]) == jump(t, ui, pow2(j as nat) as int),
    decreases self.level - i,
//@at loop0.before
    let ghost sl = *self;
    proof {
        lemma2_to64();
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies self.pa@[ui]@[0] == jump(t, ui, 1) by {
            lemma_ready(gg, s0, ui, pi, t0, t);
            assert(jump(t, ui, 1) == t.par[jump(t, ui, 0)]);
        }
    }
//@at loop0.head
    let ghost sb = *self;
    proof {
        lemma_row(gg, s0, sb, ui, pi, t0, i as int, tt);
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies self.pa@[self.pa@[ui]@[i - 1] as int]@[i - 1] == jump(t, ui, pow2(i as nat) as int) by {
            lemma_row(gg, s0, sb, ui, pi, t0, i as int, t);
        }
    }
//@at loop1.before
    proof {
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies doing(gg, s0, *self, ui, t0, t0 + 1, 0, t) by {
            lemma_begin(gg, s0, *self, ui, pi, t0, t);
        }
    }
//@loop 1
    invariant
        forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) ==> doing(gg, s0, *self, ui, t0, *timer as int, vx_k1 as int, t), vx_k1 <= gg[ui]@.len(),
    decreases gg[ui]@.len() - vx_k1,
//@at loop1.head
    let ghost s1 = *self;
    let ghost t1 = *timer as int;
    proof {
        lemma_doing(gg, s0, s1, ui, t0, t1, vx_k1 as int, tt);
        lemma_entry(gg, tt, ui, vx_k1 as int);
        assert(g.len() <= usize::MAX);
    }
//@at call:dfs#0.before
    let ghost sd = *self;
    proof {
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies ready(gg, sd, v as int, ui, t1, t) by {
            lemma_down(gg, s0, s1, sd, ui, pi, t0, t1, vx_k1 as int, t);
        }
        assert(ready(gg, sd, v as int, ui, t1, tt));
    }
//@at call:dfs#0.after
    proof {
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies doing(gg, s0, *self, ui, t0, *timer as int, vx_k1 + 1, t) by {
            lemma_down(gg, s0, s1, sd, ui, pi, t0, t1, vx_k1 as int, t);
            lemma_up(gg, s0, s1, sd, *self, ui, pi, t0, t1, *timer as int, vx_k1 as int, t);
        }
    }
//@at loop1.bodyend
    proof {
        if v == p {
            assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies doing(gg, s0, *self, ui, t0, *timer as int, vx_k1 + 1, t) by {
                lemma_skip(gg, s0, s1, ui, pi, t0, t1, vx_k1 as int, t);
            }
        }
    }
//@at set:tout#0.before
    let ghost s1 = *self;
    proof { lemma_doing(gg, s0, s1, ui, t0, *timer as int, gg[ui]@.len() as int, tt); }
//@exit
    proof {
        assert forall|t: Tree| #[trigger] ready(gg, s0, ui, pi, t0, t) implies visited(gg, s0, *self, ui, t0, *timer as int, t) by {
            lemma_finish(gg, s0, s1, *self, ui, pi, t0, *timer as int, t);
        }
    }
//@end
    /// the table is that of the tree t
    pub open spec fn of(self, t: Tree) -> bool {
        &&& tree_ok(t) && shape(self, t.par.len() as int) && pow2(self.level as nat) > t.par.len()
        &&& forall|x: int| 0 <= x < t.par.len() ==> #[trigger] row_ok(self, t, x)
        &&& forall|x: int, y: int| 0 <= x < t.par.len() && 0 <= y < t.par.len() ==> #[trigger] nested(self, t, x, y)
    }
//@fn graph/binary_lifting.rs | BinaryLifting::from | ret=ret
//@spec
    requires exists|t: Tree| lists_tree(g@, t) && t.root == root,
    ensures forall|t: Tree| #[trigger] lists_tree(g@, t) && t.root == root ==> ret.of(t),
//@entry
    let ghost tt = choose|t: Tree| lists_tree(g@, t) && t.root == root;
    let ghost gg = g@;
    let ghost r = root as int;
    proof { assert(gg.len() > 0); assert(g.len() <= usize::MAX); }
//@at call:dfs#0.before
    let ghost s0 = ret;
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(gg, t) && t.root == root implies ready(gg, s0, r, r, 0, t) by { lemma_start(gg, s0, r, t); }
        assert(ready(gg, s0, r, r, 0, tt));
    }
//@at call:dfs#0.after
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(gg, t) && t.root == root implies ret.of(t) by {
            assert(ready(gg, s0, r, r, 0, t)) by { lemma_start(gg, s0, r, t); }
            lemma_built(gg, s0, ret, r, timer as int, t);
        }
    }
//@end
//@fn graph/binary_lifting.rs | BinaryLifting::is_ancestor | ret=ret
//@spec
    requires u < self.tin@.len(), v < self.tin@.len(), u < self.tout@.len(),
    ensures
        ret == (self.tin@[u as int] <= self.tin@[v as int] < self.tout@[u as int]),
        forall|t: Tree| #[trigger] self.of(t) && u < t.par.len() && v < t.par.len() ==> ret == tanc(t, u as int, v as int) && ret == onwalks(t, t.root, v as int, u as int),
//@exit
    proof {
        assert forall|t: Tree| #[trigger] self.of(t) && u < t.par.len() && v < t.par.len() implies tanc(t, u as int, v as int) == onwalks(t, t.root, v as int, u as int) by {
            lemma_anc_walks(t, u as int, v as int);
        }
        assert forall|t: Tree| #[trigger] self.of(t) && u < t.par.len() && v < t.par.len() implies (self.tin@[u as int] <= self.tin@[v as int] < self.tout@[u as int]) == tanc(t, u as int, v as int) by {
            assert(nested(*self, t, u as int, v as int));
        }
    }
//@end
//@fn graph/binary_lifting.rs | BinaryLifting::lca | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| self.of(t), u < self.tin@.len(), v < self.tin@.len(),
    ensures forall|t: Tree| #[trigger] self.of(t) ==> is_lca(t, u as int, v as int, ret as int),
//@entry
    let ghost t = choose|t: Tree| self.of(t);
    let ghost n = t.par.len() as int;
    let ghost u0 = u as int;
    let ghost vi = v as int;
    proof {
        lemma_unique(*self, t);
        lemma_tanc_refl(t, u0);
        lemma_tanc_refl(t, vi);
    }
//@at return0
    proof { lemma_lca_of(t, u0, vi, u0); }
//@at return1
    proof { lemma_lca_of(t, vi, u0, vi); }
//@at loop0.before
    proof { lemma_far(t, u0, vi, self.level as int); }
//@loop 0
    invariant
        self.of(t), 0 <= vx_k0 <= self.level, n == t.par.len(), u < n, v == vi, v < n, tanc(t, u as int, u0), !tanc(t, u as int, vi), tanc(t, jump(t, u as int, pow2(vx_k0 as nat) as int), vi),
    decreases vx_k0,
//@at loop0.head
    let ghost ub = u as int;
    let ghost kb = (vx_k0 - 1) as nat;
    proof {
        let h = pow2(kb) as int;
        lemma_pow2_pos(kb);
        lemma_pow2_unfold(kb + 1);
        assert(row_ok(*self, t, ub));
        assert(self.pa@[ub]@[kb as int] == jump(t, ub, h)) by { reveal(lifted); }
        lemma_jump(t, ub, h);
        lemma_jump_add(t, ub, h, h);
        assert(tanc(t, jump(t, ub, h), ub));
        lemma_tanc_trans(t, jump(t, ub, h), ub, u0);
    }
//@at loop0.after
    proof {
        lemma2_to64();
        assert(row_ok(*self, t, u as int));
        assert(self.pa@[u as int]@[0] == jump(t, u as int, pow2(0) as int)) by { reveal(lifted); }
        assert(jump(t, u as int, 1) == t.par[jump(t, u as int, 0)]);
        lemma_lca_found(t, u0, vi, u as int);
    }
//@end
//@fn graph/binary_lifting.rs | BinaryLifting::dis | ret=ret
//@spec
    requires exists|t: Tree| self.of(t), u < self.tin@.len(), v < self.tin@.len(), self.tin@.len() <= usize::MAX / 2,
    ensures forall|t: Tree| #[trigger] self.of(t) ==> least_edges(t, u as int, v as int, ret as int),
//@entry
    let ghost t = choose|t: Tree| self.of(t);
    proof { lemma_unique(*self, t); lemma_depth(t, u as int); lemma_depth(t, v as int); }
//@at let:l#0.after
    proof {
        assert(is_lca(t, u as int, v as int, l as int));
        lemma_tanc(t, l as int, u as int);
        lemma_tanc(t, l as int, v as int);
        assert(t.d[l as int] >= 0);
        assert(row_ok(*self, t, l as int) && row_ok(*self, t, u as int) && row_ok(*self, t, v as int));
        lemma_least(t, u as int, v as int, l as int);
    }
//@end
}
/// w is the deepest common ancestor of u and v
pub open spec fn is_lca(t: Tree, u: int, v: int, w: int) -> bool {
    &&& 0 <= w < t.par.len() && tanc(t, w, u) && tanc(t, w, v)
    &&& forall|x: int| 0 <= x < t.par.len() && tanc(t, x, u) && tanc(t, x, v) ==> (#[trigger] t.d[x]) <= t.d[w]
}
/// an ancestor a of u that is an ancestor of v too, where u = a
pub proof fn lemma_lca_of(t: Tree, a: int, v: int, u: int)
    requires tree_ok(t), 0 <= a < t.par.len(), 0 <= v < t.par.len(), a == u, tanc(t, a, v),
    ensures is_lca(t, a, v, a), is_lca(t, v, a, a),
{
    lemma_tanc_refl(t, a);
    assert forall|x: int| 0 <= x < t.par.len() && tanc(t, x, a) implies (#[trigger] t.d[x]) <= t.d[a] by { lemma_tanc(t, x, a); }
}
/// jumping 2^level steps leads to the root
pub proof fn lemma_far(t: Tree, u: int, v: int, level: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), level >= 0, pow2(level as nat) > t.par.len(),
    ensures tanc(t, jump(t, u, pow2(level as nat) as int), v),
{
    let k = pow2(level as nat) as int;
    lemma_depth(t, u);
    lemma_jump(t, u, k);
    lemma_troot(t, jump(t, u, k));
    lemma_root_anc(t, v);
}
/// u lies below (or is) the child of the answer on the way to u0
pub proof fn lemma_lca_found(t: Tree, u0: int, v: int, u: int)
    requires tree_ok(t), 0 <= u0 < t.par.len(), 0 <= v < t.par.len(), 0 <= u < t.par.len(), tanc(t, u, u0), !tanc(t, u, v), tanc(t, t.par[u], v),
    ensures is_lca(t, u0, v, t.par[u]),
{
    let w = t.par[u];
    assert(0 <= w < t.par.len());
    lemma_par_anc(t, u);
    lemma_tanc_trans(t, w, u, u0);
    assert forall|x: int| 0 <= x < t.par.len() && tanc(t, x, u0) && tanc(t, x, v) implies (#[trigger] t.d[x]) <= t.d[w] by {
        if t.d[x] >= t.d[u] {
            lemma_chain_of(t, u, x, u0);
            lemma_tanc_trans(t, u, x, v);
        }
        if u == t.root { lemma_tanc(t, x, v); lemma_root_anc(t, v); }
    }
}
/// only one tree fits the table
pub proof fn lemma_unique(s: BinaryLifting, t: Tree)
    requires s.of(t),
    ensures forall|t2: Tree| #[trigger] s.of(t2) ==> t2 == t, t.par.len() == s.tin@.len(), t.par.len() == s.tout@.len(),
{
    lemma2_to64();
    assert forall|t2: Tree| #[trigger] s.of(t2) implies t2 == t by {
        assert forall|x: int| 0 <= x < t.par.len() implies t2.par[x] == t.par[x] && t2.d[x] == t.d[x] by {
            assert(row_ok(s, t, x) && row_ok(s, t2, x));
            reveal(lifted);
            assert(s.pa@[x]@[0] == jump(t, x, 1));
            assert(s.pa@[x]@[0] == jump(t2, x, 1));
            assert(jump(t, x, 1) == t.par[jump(t, x, 0)]);
            assert(jump(t2, x, 1) == t2.par[jump(t2, x, 0)]);
        }
        assert(t2.par =~= t.par);
        assert(t2.d =~= t.d);
        lemma_troot(t, t2.root);
    }
}
pub proof fn lemma_start(g: Seq<Vec<usize>>, s0: BinaryLifting, r: int, t: Tree)
    requires lists_tree(g, t), t.root == r, shape(s0, g.len() as int), s0.dep@[r] == 0, g.len() <= usize::MAX,
    ensures ready(g, s0, r, r, 0, t),
{
    reveal(ready);
    lemma_part_le(g, t, r, 0);
    assert forall|a: int| 0 <= a < g.len() && tanc(t, a, r) && a != r implies #[trigger] lifted(s0, t, a) by {
        lemma_tanc(t, a, r);
        assert(t.d[a] >= 0);
        lemma_troot(t, a);
    }
}
pub proof fn lemma_built(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, r: int, t1: int, t: Tree)
    requires lists_tree(g, t), t.root == r, visited(g, s0, s, r, 0, t1, t), pow2(s0.level as nat) > g.len(),
    ensures s.of(t),
{
    reveal(visited);
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] row_ok(s, t, x) by {
        lemma_root_anc(t, x);
        assert(filled(s, t, x, 0, t1));
    }
    assert forall|x: int, y: int| 0 <= x < t.par.len() && 0 <= y < t.par.len() implies #[trigger] nested(s, t, x, y) by {
        lemma_root_anc(t, x);
        lemma_root_anc(t, y);
    }
}
pub proof fn lemma_doing(g: Seq<Vec<usize>>, s0: BinaryLifting, s: BinaryLifting, u: int, t0: int, t1: int, k: int, t: Tree)
    requires doing(g, s0, s, u, t0, t1, k, t),
    ensures shape(s, g.len() as int), s.level == s0.level, s.dep@[u] == t.d[u],
{
    reveal(doing);
}
}
