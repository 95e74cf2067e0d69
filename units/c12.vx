//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/bits.vx
//@include lib/util.vx
//@include lib/monoid.vx
//@include lib/segtree_spec.vx
//@include lib/lazy_spec.vx
//@include lib/lazy.vx
//@include lib/pigeon.vx
//@include lib/tree.vx
//@include lib/kids.vx
//@include lib/walk.vx
//@struct graph/heavy_light_decomp.rs | HLD

pub closed spec fn hlen<T: MapMonoid>(s: HLD<T>, n: int) -> bool {
    s.parent@.len() == n && s.dep@.len() == n && s.heavy_child@.len() == n && s.head@.len() == n && s.pos@.len() == n && s.pos_r@.len() == n
}
pub closed spec fn known<T: MapMonoid>(s: HLD<T>, t: Tree, x: int) -> bool { s.parent@[x] == t.par[x] && s.dep@[x] == t.d[x] }
/// the heavy child, if any, is a child
pub closed spec fn hv_ok<T: MapMonoid>(s: HLD<T>, t: Tree, x: int) -> bool {
    s.heavy_child@[x] is Some ==> s.heavy_child@[x]->0 < t.par.len() && s.heavy_child@[x]->0 != t.root && t.par[s.heavy_child@[x]->0 as int] == x
}
pub closed spec fn same1<T: MapMonoid>(s0: HLD<T>, s: HLD<T>, x: int) -> bool {
    s.parent@[x] == s0.parent@[x] && s.dep@[x] == s0.dep@[x] && s.heavy_child@[x] == s0.heavy_child@[x]
}
#[verifier::opaque]
pub closed spec fn pre1<T: MapMonoid>(g: Seq<Vec<usize>>, s: HLD<T>, u: int, t: Tree) -> bool {
    &&& lists_tree(g, t) && hlen(s, g.len() as int) && 0 <= u < g.len() && known(s, t, u)
    &&& forall|x: int| 0 <= x < g.len() ==> #[trigger] hv_ok(s, t, x)
}
#[verifier::opaque]
pub closed spec fn mid1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, t: Tree) -> bool {
    &&& hlen(s, g.len() as int) && known(s, t, u) && kids_ok(t, u, cs) && sz == count_true(kmask(t, u, cs))
    &&& s.data == s0.data && s.head == s0.head && s.pos == s0.pos && s.pos_r == s0.pos_r
    &&& forall|x: int| 0 <= x < g.len() ==> #[trigger] hv_ok(s, t, x)
    &&& forall|x: int| 0 <= x < g.len() && kin(t, u, cs, x) ==> #[trigger] known(s, t, x)
    &&& forall|x: int| 0 <= x < g.len() && !kin(t, u, cs, x) ==> #[trigger] same1(s0, s, x)
    &&& forall|i: int| 0 <= i < cs.len() ==> seen(g, u, k, #[trigger] cs[i])
    &&& forall|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) != t.par[u] ==> is_in(cs, g[u]@[j] as int)
}
/// v is among the first k entries of the list of u
pub open spec fn seen(g: Seq<Vec<usize>>, u: int, k: int, v: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == v }
#[verifier::opaque]
pub closed spec fn post1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, sz: int, t: Tree) -> bool {
    &&& hlen(s, g.len() as int) && sz == size(t, u)
    &&& s.data == s0.data && s.head == s0.head && s.pos == s0.pos && s.pos_r == s0.pos_r
    &&& forall|x: int| 0 <= x < g.len() ==> #[trigger] hv_ok(s, t, x)
    &&& forall|x: int| 0 <= x < g.len() && tanc(t, u, x) ==> #[trigger] known(s, t, x)
    &&& forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) ==> #[trigger] same1(s0, s, x)
}
proof fn lemma_pre1<T: MapMonoid>(g: Seq<Vec<usize>>, s: HLD<T>, u: int, t: Tree)
    requires pre1(g, s, u, t),
    ensures lists_tree(g, t), tree_ok(t), t.par.len() == g.len(), hlen(s, g.len() as int), 0 <= u < g.len(), s.parent@[u] == t.par[u], 0 <= s.dep@[u] == t.d[u] < g.len(),
        0 <= t.par[u] < g.len(),
{
    reveal(pre1);
    lemma_depth(t, u);
    assert(0 <= t.par[u] < g.len());
}
proof fn lemma_mid1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, t: Tree)
    requires pre1(g, s0, u, t), mid1(g, s0, s, u, cs, k, sz, t),
    ensures hlen(s, g.len() as int), s.parent@[u] == t.par[u], s.dep@[u] == t.d[u], 1 <= sz <= g.len(),
{
    lemma_pre1(g, s0, u, t);
    reveal(mid1);
    lemma_kin_le(t, u, cs);
}
proof fn lemma_begin1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, u: int, t: Tree)
    requires pre1(g, s0, u, t),
    ensures mid1(g, s0, s0, u, seq![], 0, 1, t),
{
    lemma_pre1(g, s0, u, t);
    reveal(pre1);
    reveal(mid1);
    lemma_kin_zero(t, u);
}
proof fn lemma_new_child<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, t: Tree)
    requires pre1(g, s0, u, t), mid1(g, s0, s1, u, cs, k, sz, t), 0 <= k < g[u]@.len(), g[u]@[k] != t.par[u],
    ensures !is_in(cs, g[u]@[k] as int), g[u]@[k] < g.len(), g[u]@[k] != t.root, t.par[g[u]@[k] as int] == u, t.d[g[u]@[k] as int] == t.d[u] + 1,
{
    lemma_pre1(g, s0, u, t);
    reveal(mid1);
    lemma_entry(g, t, u, k);
    let v = g[u]@[k] as int;
    if is_in(cs, v) {
        let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == v;
        assert(seen(g, u, k, cs[i]));
        let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == v;
    }
}
proof fn lemma_down1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, sd: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, t: Tree)
    requires
        pre1(g, s0, u, t), mid1(g, s0, s1, u, cs, k, sz, t), 0 <= k < g[u]@.len(), g[u]@[k] != t.par[u],
        sd.data == s1.data, sd.head == s1.head, sd.pos == s1.pos, sd.pos_r == s1.pos_r, sd.heavy_child == s1.heavy_child,
        sd.parent@ == s1.parent@.update(g[u]@[k] as int, u as usize), sd.dep@ == s1.dep@.update(g[u]@[k] as int, (t.d[u] + 1) as usize), t.d[u] + 1 <= usize::MAX, u <= usize::MAX,
    ensures pre1(g, sd, g[u]@[k] as int, t),
{
    let v = g[u]@[k] as int;
    lemma_pre1(g, s0, u, t);
    lemma_new_child(g, s0, s1, u, cs, k, sz, t);
    reveal(mid1);
    reveal(pre1);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] hv_ok(sd, t, x) by { assert(hv_ok(s1, t, x)); }
}
/// after the recursive call for the child g[u][k], and possibly the choice of it as the heavy child
proof fn lemma_up1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, sd: HLD<T>, s2: HLD<T>, s3: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, c: int, t: Tree)
    requires
        pre1(g, s0, u, t), mid1(g, s0, s1, u, cs, k, sz, t), 0 <= k < g[u]@.len(), g[u]@[k] != t.par[u],
        sd.data == s1.data, sd.head == s1.head, sd.pos == s1.pos, sd.pos_r == s1.pos_r, sd.heavy_child == s1.heavy_child,
        sd.parent@ == s1.parent@.update(g[u]@[k] as int, u as usize), sd.dep@ == s1.dep@.update(g[u]@[k] as int, (t.d[u] + 1) as usize), t.d[u] + 1 <= usize::MAX, u <= usize::MAX,
        post1(g, sd, s2, g[u]@[k] as int, c, t),
        s3.data == s2.data, s3.head == s2.head, s3.pos == s2.pos, s3.pos_r == s2.pos_r, s3.parent == s2.parent, s3.dep == s2.dep,
        s3.heavy_child@ == s2.heavy_child@ || s3.heavy_child@ == s2.heavy_child@.update(u, Some(g[u]@[k])),
    ensures mid1(g, s0, s3, u, cs.push(g[u]@[k] as int), k + 1, sz + c, t), sz + c <= g.len(),
{
    let v = g[u]@[k] as int;
    let cs2 = cs.push(v);
    lemma_pre1(g, s0, u, t);
    lemma_new_child(g, s0, s1, u, cs, k, sz, t);
    reveal(mid1);
    reveal(post1);
    lemma_kin_push(t, u, cs, v);
    lemma_kid(t, u, v);
    assert(same1(sd, s2, u));
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] hv_ok(s3, t, x) by { assert(hv_ok(s2, t, x)); }
    assert(kin(t, u, cs, u));
    assert forall|x: int| 0 <= x < g.len() && kin(t, u, cs2, x) implies #[trigger] known(s3, t, x) by {
        if tanc(t, v, x) {
            assert(known(s2, t, x));
        } else {
            assert(kin(t, u, cs, x));
            assert(known(s1, t, x) && same1(sd, s2, x));
        }
    }
    assert forall|x: int| 0 <= x < g.len() && !kin(t, u, cs2, x) implies #[trigger] same1(s0, s3, x) by {
        assert(!kin(t, u, cs, x) && !tanc(t, v, x));
        assert(same1(s0, s1, x) && same1(sd, s2, x));
    }
    assert forall|i: int| 0 <= i < cs2.len() implies seen(g, u, k + 1, #[trigger] cs2[i]) by {
        if i < cs.len() {
            assert(seen(g, u, k, cs[i]));
            let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == cs[i];
            assert(g[u]@[j] == cs2[i]);
        } else {
            assert(g[u]@[k] == cs2[i]);
        }
    }
    assert forall|j: int| 0 <= j < k + 1 && (#[trigger] g[u]@[j]) != t.par[u] implies is_in(cs2, g[u]@[j] as int) by {
        if j < k {
            assert(is_in(cs, g[u]@[j] as int));
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == g[u]@[j];
            assert(cs2[i] == g[u]@[j]);
        } else {
            assert(cs2[cs.len() as int] == v);
        }
    }
}
proof fn lemma_skip1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, u: int, cs: Seq<int>, k: int, sz: int, t: Tree)
    requires pre1(g, s0, u, t), mid1(g, s0, s1, u, cs, k, sz, t), 0 <= k < g[u]@.len(), g[u]@[k] == t.par[u],
    ensures mid1(g, s0, s1, u, cs, k + 1, sz, t),
{
    reveal(mid1);
    assert forall|i: int| 0 <= i < cs.len() implies seen(g, u, k + 1, #[trigger] cs[i]) by {
        assert(seen(g, u, k, cs[i]));
        let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == cs[i];
        assert(g[u]@[j] == cs[i]);
    }
}
proof fn lemma_end1<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, u: int, cs: Seq<int>, sz: int, t: Tree)
    requires pre1(g, s0, u, t), mid1(g, s0, s1, u, cs, g[u]@.len() as int, sz, t),
    ensures post1(g, s0, s1, u, sz, t),
{
    lemma_pre1(g, s0, u, t);
    reveal(mid1);
    reveal(post1);
    assert forall|v: int| 0 <= v < t.par.len() && v != t.root && (#[trigger] t.par[v]) == u implies is_in(cs, v) by {
        let j = lemma_listed(g, t, u, v);
        assert(is_in(cs, g[u]@[j] as int));
    }
    lemma_kin_all(t, u, cs);
    assert forall|x: int| 0 <= x < g.len() && tanc(t, u, x) implies #[trigger] known(s1, t, x) by { assert(kin(t, u, cs, x)); }
    assert forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) implies #[trigger] same1(s0, s1, x) by { assert(!kin(t, u, cs, x)); }
}

impl<T: MapMonoid> HLD<T> {
//@fn graph/heavy_light_decomp.rs | HLD::dfs1 | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| pre1(g@, *old(self), u as int, t),
    ensures forall|t: Tree| #[trigger] pre1(g@, *old(self), u as int, t) ==> post1(g@, *old(self), *final(self), u as int, ret as int, t),
    decreases g@.len() - old(self).dep@[u as int],
//@entry
    let ghost s0 = *self;
    let ghost gg = g@;
    let ghost ui = u as int;
    let ghost mut cs = Seq::<int>::empty();
    let ghost tt = choose|t: Tree| pre1(gg, s0, ui, t);
    proof {
        lemma_pre1(gg, s0, ui, tt);
        assert(g.len() <= usize::MAX);
        assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies mid1(gg, s0, s0, ui, cs, 0, 1, t) by { lemma_begin1(gg, s0, ui, t); assert(cs =~= seq![]); }
    }
//@loop 0
    invariant
        vx_k0 <= gg[ui]@.len(),
        forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) ==> mid1(gg, s0, *self, ui, cs, vx_k0 as int, size as int, t),
    decreases gg[ui]@.len() - vx_k0,
//@at loop0.head
    let ghost s1 = *self;
    let ghost cs1 = cs;
    let ghost sz1 = size as int;
    let ghost v0 = gg[ui]@[vx_k0 as int] as int;
    proof {
        lemma_mid1(gg, s0, s1, ui, cs, vx_k0 as int, size as int, tt);
        lemma_entry(gg, tt, ui, vx_k0 as int);
    }
//@at call:dfs1#0.before
    let ghost sd = *self;
    proof {
        assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies pre1(gg, sd, v0, t) by {
            lemma_mid1(gg, s0, s1, ui, cs, vx_k0 as int, size as int, t);
            lemma_pre1(gg, s0, ui, t);
            lemma_down1(gg, s0, s1, sd, ui, cs, vx_k0 as int, sz1, t);
        }
        assert(pre1(gg, sd, v0, tt));
        lemma_pre1(gg, sd, v0, tt);
    }
//@at call:dfs1#0.after
    let ghost s2 = *self;
    proof {
        lemma_pre1(gg, s0, ui, tt);
        lemma_up1(gg, s0, s1, sd, s2, s2, ui, cs1, vx_k0 as int, sz1, child_size as int, tt);
        assert(hlen(s2, gg.len() as int)) by { reveal(post1); }
        cs = cs.push(v0);
        assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies post1(gg, sd, s2, v0, child_size as int, t) by { assert(pre1(gg, sd, v0, t)); }
    }
//@at if0.thenend
    proof {
        assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies mid1(gg, s0, *self, ui, cs, vx_k0 + 1, size as int, t) by {
            lemma_pre1(gg, s0, ui, t);
            lemma_mid1(gg, s0, s1, ui, cs1, vx_k0 as int, sz1, t);
            lemma_up1(gg, s0, s1, sd, s2, *self, ui, cs1, vx_k0 as int, sz1, child_size as int, t);
        }
    }
//@at loop0.bodyend
    proof {
        if v0 == tt.par[ui] {
            assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies mid1(gg, s0, *self, ui, cs, vx_k0 + 1, size as int, t) by {
                lemma_pre1(gg, s0, ui, t);
                lemma_mid1(gg, s0, s1, ui, cs1, vx_k0 as int, sz1, t);
                lemma_skip1(gg, s0, s1, ui, cs1, vx_k0 as int, sz1, t);
            }
        }
    }
//@exit
    proof {
        assert forall|t: Tree| #[trigger] pre1(gg, s0, ui, t) implies post1(gg, s0, *self, ui, size as int, t) by {
            lemma_end1(gg, s0, *self, ui, cs, size as int, t);
        }
    }
//@end
}

// ---- second pass: positions and heads
/// the interval of x holds the position of y exactly if x is an ancestor of y
pub closed spec fn nested<T: MapMonoid>(s: HLD<T>, t: Tree, x: int, y: int) -> bool {
    tanc(t, x, y) <==> s.pos@[x] <= s.pos@[y] < s.pos_r@[x]
}
pub closed spec fn placed<T: MapMonoid>(s: HLD<T>, x: int, t0: int, t1: int) -> bool { t0 <= s.pos@[x] < s.pos_r@[x] <= t1 }
/// a heavy child continues the chain of its parent, another child starts one
pub closed spec fn linked<T: MapMonoid>(s: HLD<T>, t: Tree, x: int) -> bool {
    if s.heavy_child@[t.par[x]] == Some(x as usize) { s.head@[x] == s.head@[t.par[x]] && s.pos@[x] == s.pos@[t.par[x]] + 1 } else { s.head@[x] == x }
}
pub closed spec fn same2<T: MapMonoid>(s0: HLD<T>, s: HLD<T>, x: int) -> bool {
    s.head@[x] == s0.head@[x] && s.pos@[x] == s0.pos@[x] && s.pos_r@[x] == s0.pos_r@[x]
}
pub closed spec fn same_tree<T: MapMonoid>(s0: HLD<T>, s: HLD<T>) -> bool {
    s.data == s0.data && s.parent == s0.parent && s.dep == s0.dep && s.heavy_child == s0.heavy_child
}
#[verifier::opaque]
pub closed spec fn pre2<T: MapMonoid>(g: Seq<Vec<usize>>, s: HLD<T>, u: int, t0: int, t: Tree) -> bool {
    &&& lists_tree(g, t) && hlen(s, g.len() as int) && 0 <= u < g.len() && 0 <= t0 && t0 + size(t, u) <= usize::MAX
    &&& forall|x: int| 0 <= x < g.len() ==> #[trigger] hv_ok(s, t, x)
    &&& forall|x: int| 0 <= x < g.len() ==> #[trigger] known(s, t, x)
}
#[verifier::opaque]
pub closed spec fn mid2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, h: int, t0: int, t1: int, cs: Seq<int>, t: Tree) -> bool {
    &&& hlen(s, g.len() as int) && same_tree(s0, s) && kids_ok(t, u, cs) && t1 == t0 + count_true(kmask(t, u, cs))
    &&& s.head@[u] == h && s.pos@[u] == t0
    &&& forall|x: int| 0 <= x < g.len() && !kin(t, u, cs, x) ==> #[trigger] same2(s0, s, x)
    &&& forall|x: int| 0 <= x < g.len() && kin(t, u, cs, x) && x != u ==> #[trigger] placed(s, x, t0 + 1, t1)
    &&& forall|x: int| 0 <= x < g.len() && kin(t, u, cs, x) && x != u ==> #[trigger] linked(s, t, x)
    &&& forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && kin(t, u, cs, x) && x != u && kin(t, u, cs, y) ==> #[trigger] nested(s, t, x, y)
}
/// the children visited: the heavy one, and those among the first k entries
pub closed spec fn round<T: MapMonoid>(g: Seq<Vec<usize>>, s: HLD<T>, u: int, cs: Seq<int>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> s.heavy_child@[u] == Some((#[trigger] cs[i]) as usize) || seen(g, u, k, cs[i])
    &&& s.heavy_child@[u] is Some ==> is_in(cs, s.heavy_child@[u]->0 as int)
    &&& forall|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) != s.parent@[u] ==> is_in(cs, g[u]@[j] as int)
}
#[verifier::opaque]
pub closed spec fn post2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, h: int, t0: int, t1: int, t: Tree) -> bool {
    &&& hlen(s, g.len() as int) && same_tree(s0, s) && t1 == t0 + size(t, u)
    &&& s.head@[u] == h && s.pos@[u] == t0
    &&& forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) ==> #[trigger] same2(s0, s, x)
    &&& forall|x: int| 0 <= x < g.len() && tanc(t, u, x) ==> #[trigger] placed(s, x, t0, t1)
    &&& forall|x: int| 0 <= x < g.len() && tanc(t, u, x) && x != u ==> #[trigger] linked(s, t, x)
    &&& forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && tanc(t, u, x) && tanc(t, u, y) ==> #[trigger] nested(s, t, x, y)
}
pub proof fn lemma_pre2<T: MapMonoid>(g: Seq<Vec<usize>>, s: HLD<T>, u: int, t0: int, t: Tree)
    requires pre2(g, s, u, t0, t),
    ensures lists_tree(g, t), tree_ok(t), t.par.len() == g.len(), hlen(s, g.len() as int), 0 <= u < g.len(), s.parent@[u] == t.par[u], 0 <= s.dep@[u] == t.d[u] < g.len(),
        0 <= t.par[u] < g.len(), size(t, u) >= 1, 0 <= t0, t0 + size(t, u) <= usize::MAX, hv_ok(s, t, u),
{
    reveal(pre2);
    lemma_depth(t, u);
    lemma_kin_zero(t, u);
    lemma_kin_le(t, u, seq![]);
    assert(known(s, t, u));
}
pub proof fn lemma_mid2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, h: int, t0: int, t1: int, cs: Seq<int>, t: Tree)
    requires pre2(g, s0, u, t0, t), mid2(g, s0, s, u, h, t0, t1, cs, t),
    ensures hlen(s, g.len() as int), same_tree(s0, s), t0 < t1 <= t0 + size(t, u), t1 <= usize::MAX,
{
    lemma_pre2(g, s0, u, t0, t);
    reveal(mid2);
    lemma_kin_le(t, u, cs);
}
pub proof fn lemma_begin2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s: HLD<T>, u: int, h: usize, t0: int, t: Tree)
    requires pre2(g, s0, u, t0, t), same_tree(s0, s), s.head@ == s0.head@.update(u, h), s.pos@ == s0.pos@.update(u, t0 as usize), s.pos_r@ == s0.pos_r@,
    ensures mid2(g, s0, s, u, h as int, t0, t0 + 1, seq![], t), s0.heavy_child@[u] is None ==> round(g, s0, u, seq![], 0),
{
    lemma_pre2(g, s0, u, t0, t);
    reveal(mid2);
    lemma_kin_zero(t, u);
}
/// the next child to visit
pub closed spec fn next2<T: MapMonoid>(s0: HLD<T>, u: int, cs: Seq<int>, v: int, t: Tree) -> bool {
    0 <= v < t.par.len() && v != t.root && t.par[v] == u && !is_in(cs, v)
}
pub proof fn lemma_next_heavy<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, u: int, t0: int, t: Tree)
    requires pre2(g, s0, u, t0, t), s0.heavy_child@[u] is Some,
    ensures next2(s0, u, seq![], s0.heavy_child@[u]->0 as int, t), round(g, s0, u, seq![s0.heavy_child@[u]->0 as int], 0),
{
    lemma_pre2(g, s0, u, t0, t);
    let v = s0.heavy_child@[u]->0 as int;
    assert(seq![v][0] == v);
}
pub proof fn lemma_next_light<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, u: int, t0: int, cs: Seq<int>, k: int, t: Tree)
    requires pre2(g, s0, u, t0, t), kids_ok(t, u, cs), round(g, s0, u, cs, k), 0 <= k < g[u]@.len(), g[u]@[k] != s0.parent@[u], s0.heavy_child@[u] != Some(g[u]@[k]),
    ensures next2(s0, u, cs, g[u]@[k] as int, t), round(g, s0, u, cs.push(g[u]@[k] as int), k + 1),
{
    lemma_pre2(g, s0, u, t0, t);
    lemma_entry(g, t, u, k);
    let v = g[u]@[k] as int;
    let cs2 = cs.push(v);
    if is_in(cs, v) {
        let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == v;
        assert(seen(g, u, k, cs[i]));
        let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == v;
    }
    assert forall|i: int| 0 <= i < cs2.len() implies s0.heavy_child@[u] == Some((#[trigger] cs2[i]) as usize) || seen(g, u, k + 1, cs2[i]) by {
        if i < cs.len() {
            assert(cs2[i] == cs[i]);
            if seen(g, u, k, cs[i]) {
                let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == cs[i];
                assert(g[u]@[j] == cs2[i]);
            }
        } else {
            assert(g[u]@[k] == cs2[i]);
        }
    }
    assert forall|w: int| is_in(cs, w) || w == v implies #[trigger] is_in(cs2, w) by {
        if w == v { assert(cs2[cs.len() as int] == v); } else {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == w;
            assert(cs2[i] == w);
        }
    }
}
pub proof fn lemma_next_none<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, u: int, t0: int, cs: Seq<int>, k: int, t: Tree)
    requires pre2(g, s0, u, t0, t), round(g, s0, u, cs, k), 0 <= k < g[u]@.len(), g[u]@[k] == s0.parent@[u] || s0.heavy_child@[u] == Some(g[u]@[k]),
    ensures round(g, s0, u, cs, k + 1),
{
    assert forall|i: int| 0 <= i < cs.len() implies s0.heavy_child@[u] == Some((#[trigger] cs[i]) as usize) || seen(g, u, k + 1, cs[i]) by {
        if seen(g, u, k, cs[i]) {
            let j = choose|j: int| 0 <= j < k && (#[trigger] g[u]@[j]) == cs[i];
            assert(g[u]@[j] == cs[i]);
        }
    }
}
pub proof fn lemma_down2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, u: int, h: int, t0: int, t1: int, cs: Seq<int>, v: int, t: Tree)
    requires pre2(g, s0, u, t0, t), mid2(g, s0, s1, u, h, t0, t1, cs, t), next2(s0, u, cs, v, t),
    ensures pre2(g, s1, v, t1, t), t.d[v] == t.d[u] + 1,
{
    lemma_pre2(g, s0, u, t0, t);
    reveal(mid2);
    lemma_kin_push(t, u, cs, v);
    lemma_kid(t, u, v);
    reveal(pre2);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] hv_ok(s1, t, x) by { assert(hv_ok(s0, t, x)); }
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] known(s1, t, x) by { assert(known(s0, t, x)); }
}
pub proof fn lemma_up2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, s2: HLD<T>, u: int, h: int, t0: int, t1: int, t2: int, cs: Seq<int>, v: int, hv: int, t: Tree)
    requires
        pre2(g, s0, u, t0, t), mid2(g, s0, s1, u, h, t0, t1, cs, t), next2(s0, u, cs, v, t), post2(g, s1, s2, v, hv, t1, t2, t),
        if s0.heavy_child@[u] == Some(v as usize) { hv == h && t1 == t0 + 1 } else { hv == v },
    ensures mid2(g, s0, s2, u, h, t0, t2, cs.push(v), t),
{
    let cs2 = cs.push(v);
    lemma_pre2(g, s0, u, t0, t);
    reveal(mid2);
    reveal(post2);
    lemma_kin_push(t, u, cs, v);
    lemma_kid(t, u, v);
    assert(kin(t, u, cs, u));
    assert forall|x: int| 0 <= x < g.len() && kin(t, u, cs, x) implies #[trigger] same2(s1, s2, x) by {
        if tanc(t, v, x) { lemma_kin_new(t, u, cs, v, x); }
    }
    assert(same2(s1, s2, u));
    assert forall|x: int| 0 <= x < g.len() && !kin(t, u, cs2, x) implies #[trigger] same2(s0, s2, x) by {
        assert(!kin(t, u, cs, x) && !tanc(t, v, x));
        assert(same2(s0, s1, x) && same2(s1, s2, x));
    }
    assert forall|x: int| 0 <= x < g.len() && kin(t, u, cs2, x) && x != u implies #[trigger] placed(s2, x, t0 + 1, t2) by {
        if tanc(t, v, x) {
            assert(placed(s2, x, t1, t2));
        } else {
            assert(kin(t, u, cs, x) && same2(s1, s2, x));
            assert(placed(s1, x, t0 + 1, t1));
        }
    }
    assert forall|x: int| 0 <= x < g.len() && kin(t, u, cs2, x) && x != u implies #[trigger] linked(s2, t, x) by {
        if x == v {
        } else if tanc(t, v, x) {
            assert(linked(s2, t, x));
        } else {
            assert(kin(t, u, cs, x) && same2(s1, s2, x));
            assert(linked(s1, t, x));
            lemma_kin_in(t, u, cs, x);
            lemma_kin_par(t, u, cs, x);
            assert(same2(s1, s2, t.par[x]));
        }
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && kin(t, u, cs2, x) && x != u && kin(t, u, cs2, y) implies #[trigger] nested(s2, t, x, y) by {
        if tanc(t, v, x) {
            assert(placed(s2, x, t1, t2));
            if tanc(t, v, y) {
                assert(nested(s2, t, x, y));
            } else {
                assert(kin(t, u, cs, y) && same2(s1, s2, y));
                if y != u { assert(placed(s1, y, t0 + 1, t1)); }
                assert(!tanc(t, x, y)) by { if tanc(t, x, y) { lemma_tanc_trans(t, v, x, y); } }
            }
        } else {
            assert(kin(t, u, cs, x) && same2(s1, s2, x));
            assert(placed(s1, x, t0 + 1, t1));
            if tanc(t, v, y) {
                assert(placed(s2, y, t1, t2));
                assert(!tanc(t, x, y)) by { if tanc(t, x, y) { lemma_kin_apart(t, u, cs, v, x, y); } }
            } else {
                assert(kin(t, u, cs, y) && same2(s1, s2, y));
                assert(nested(s1, t, x, y));
            }
        }
    }
}
pub proof fn lemma_end2<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, s2: HLD<T>, u: int, h: int, t0: int, t1: int, cs: Seq<int>, t: Tree)
    requires
        pre2(g, s0, u, t0, t), mid2(g, s0, s1, u, h, t0, t1, cs, t), round(g, s0, u, cs, g[u]@.len() as int),
        same_tree(s1, s2), s2.head == s1.head, s2.pos == s1.pos, s2.pos_r@ == s1.pos_r@.update(u, t1 as usize), t1 <= usize::MAX,
    ensures post2(g, s0, s2, u, h, t0, t1, t),
{
    lemma_pre2(g, s0, u, t0, t);
    reveal(mid2);
    reveal(post2);
    assert forall|v: int| 0 <= v < t.par.len() && v != t.root && (#[trigger] t.par[v]) == u implies is_in(cs, v) by {
        let j = lemma_listed(g, t, u, v);
        assert(is_in(cs, g[u]@[j] as int));
    }
    lemma_kin_all(t, u, cs);
    lemma_kin_le(t, u, cs);
    assert forall|x: int| 0 <= x < g.len() implies tanc(t, u, x) == #[trigger] kin(t, u, cs, x) by {}
    lemma_tanc_refl(t, u);
    assert forall|x: int| 0 <= x < g.len() && !tanc(t, u, x) implies #[trigger] same2(s0, s2, x) by { assert(!kin(t, u, cs, x)); assert(same2(s0, s1, x)); }
    assert forall|x: int| 0 <= x < g.len() && tanc(t, u, x) implies #[trigger] placed(s2, x, t0, t1) by {
        assert(kin(t, u, cs, x));
        if x != u { assert(placed(s1, x, t0 + 1, t1)); }
    }
    assert forall|x: int| 0 <= x < g.len() && tanc(t, u, x) && x != u implies #[trigger] linked(s2, t, x) by {
        assert(kin(t, u, cs, x));
        assert(linked(s1, t, x));
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && tanc(t, u, x) && tanc(t, u, y) implies #[trigger] nested(s2, t, x, y) by {
        assert(kin(t, u, cs, x) && kin(t, u, cs, y));
        assert(placed(s2, y, t0, t1));
        if x != u { assert(nested(s1, t, x, y)); }
    }
}

impl<T: MapMonoid> HLD<T> {
//@fn graph/heavy_light_decomp.rs | HLD::dfs2
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| pre2(g@, *old(self), u as int, *old(timer) as int, t), 
    ensures forall|t: Tree| #[trigger] pre2(g@, *old(self), u as int, *old(timer) as int, t) ==> post2(g@, *old(self), *final(self), u as int, head as int, *old(timer) as int, *final(timer) as int, t),
    decreases g@.len() - old(self).dep@[u as int],
//@entry
    let ghost s0 = *self;
    let ghost gg = g@;
    let ghost ui = u as int;
    let ghost hi = head as int;
    let ghost t0 = *timer as int;
    let ghost mut cs = Seq::<int>::empty();
    let ghost tt = choose|t: Tree| pre2(gg, s0, ui, t0, t);
    proof { lemma_pre2(gg, s0, ui, t0, tt); }
//@at let:v#0.before
    let ghost sa = *self;
    proof {
        assert(cs =~= seq![]);
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies mid2(gg, s0, sa, ui, hi, t0, t0 + 1, cs, t) by { lemma_begin2(gg, s0, sa, ui, head, t0, t); }
        lemma_begin2(gg, s0, sa, ui, head, t0, tt);
    }
//@at call:dfs2#0.before
    let ghost v0 = s0.heavy_child@[ui]->0 as int;
    proof {
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies pre2(gg, sa, v0, t0 + 1, t) by {
            lemma_next_heavy(gg, s0, ui, t0, t);
            lemma_down2(gg, s0, sa, ui, hi, t0, t0 + 1, cs, v0, t);
        }
        assert(pre2(gg, sa, v0, t0 + 1, tt));
        lemma_pre2(gg, sa, v0, t0 + 1, tt);
        lemma_next_heavy(gg, s0, ui, t0, tt);
        lemma_down2(gg, s0, sa, ui, hi, t0, t0 + 1, cs, v0, tt);
    }
//@at call:dfs2#0.after
    proof {
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies mid2(gg, s0, *self, ui, hi, t0, *timer as int, cs.push(v0), t) by {
            assert(pre2(gg, sa, v0, t0 + 1, t));
            lemma_next_heavy(gg, s0, ui, t0, t);
            lemma_up2(gg, s0, sa, *self, ui, hi, t0, t0 + 1, *timer as int, cs, v0, hi, t);
        }
        assert(cs.push(v0) =~= seq![v0]);
        cs = cs.push(v0);
    }
//@loop 0
    invariant
        vx_k0 <= gg[ui]@.len(), round(gg, s0, ui, cs, vx_k0 as int),
        forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) ==> mid2(gg, s0, *self, ui, hi, t0, *timer as int, cs, t),
    decreases gg[ui]@.len() - vx_k0,
//@at loop0.head
    let ghost s1 = *self;
    let ghost cs1 = cs;
    let ghost t1 = *timer as int;
    let ghost v1 = gg[ui]@[vx_k0 as int] as int;
    proof {
        lemma_mid2(gg, s0, s1, ui, hi, t0, t1, cs, tt);
        lemma_entry(gg, tt, ui, vx_k0 as int);
        if v1 == s0.parent@[ui] || s0.heavy_child@[ui] == Some(v1 as usize) { lemma_next_none(gg, s0, ui, t0, cs, vx_k0 as int, tt); }
    }
//@at call:dfs2#1.before
    proof {
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies pre2(gg, s1, v1, t1, t) && next2(s0, ui, cs, v1, t) by {
            assert(kids_ok(t, ui, cs)) by { reveal(mid2); }
            lemma_next_light(gg, s0, ui, t0, cs, vx_k0 as int, t);
            lemma_down2(gg, s0, s1, ui, hi, t0, t1, cs, v1, t);
        }
        assert(pre2(gg, s1, v1, t1, tt));
        lemma_pre2(gg, s1, v1, t1, tt);
        lemma_down2(gg, s0, s1, ui, hi, t0, t1, cs, v1, tt);
        assert(kids_ok(tt, ui, cs)) by { reveal(mid2); }
        lemma_next_light(gg, s0, ui, t0, cs, vx_k0 as int, tt);
    }
//@at call:dfs2#1.after
    proof {
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies mid2(gg, s0, *self, ui, hi, t0, *timer as int, cs.push(v1), t) by {
            assert(pre2(gg, s1, v1, t1, t) && next2(s0, ui, cs, v1, t));
            lemma_up2(gg, s0, s1, *self, ui, hi, t0, t1, *timer as int, cs, v1, v1, t);
        }
        cs = cs.push(v1);
    }
//@at set:pos_r#0.before
    let ghost s1 = *self;
    proof { lemma_mid2(gg, s0, s1, ui, hi, t0, *timer as int, cs, tt); }
//@exit
    proof {
        assert forall|t: Tree| #[trigger] pre2(gg, s0, ui, t0, t) implies post2(gg, s0, *self, ui, hi, t0, *timer as int, t) by {
            lemma_mid2(gg, s0, s1, ui, hi, t0, *timer as int, cs, t);
            lemma_end2(gg, s0, s1, *self, ui, hi, t0, *timer as int, cs, t);
        }
    }
//@end
}

// ---- the finished decomposition
pub closed spec fn seat<T: MapMonoid>(s: HLD<T>, p: int, n: int) -> bool { exists|x: int| 0 <= x < n && (#[trigger] s.pos@[x]) == p }
pub closed spec fn spot<T: MapMonoid>(s: HLD<T>, x: int, n: int) -> bool { 0 <= s.pos@[x] < n && s.pos_r@[x] <= n && s.pos@[x] < s.pos_r@[x] && s.head@[x] < n }
pub closed spec fn same_layout<T: MapMonoid>(s0: HLD<T>, s: HLD<T>) -> bool {
    s.parent == s0.parent && s.dep == s0.dep && s.heavy_child == s0.heavy_child && s.head == s0.head && s.pos == s0.pos && s.pos_r == s0.pos_r
}
impl<T: MapMonoid> HLD<T> {
    /// the decomposition is one of the tree t
    #[verifier::opaque]
    pub closed spec fn of(self, t: Tree) -> bool {
        let n = t.par.len() as int;
        &&& tree_ok(t) && hlen(self, n) && self.data.wf() && self.data@.len() == n && self.head@[t.root] == t.root
        &&& forall|x: int| 0 <= x < n ==> #[trigger] known(self, t, x)
        &&& forall|x: int| 0 <= x < n ==> #[trigger] hv_ok(self, t, x)
        &&& forall|x: int| 0 <= x < n ==> #[trigger] spot(self, x, n)
        &&& forall|x: int| 0 <= x < n && x != t.root ==> #[trigger] linked(self, t, x)
        &&& forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] nested(self, t, x, y)
        &&& forall|p: int| 0 <= p < n ==> #[trigger] seat(self, p, n)
    }
    /// the values of the vertices
    pub closed spec fn val(self) -> Seq<<T::M as Monoid>::S> { Seq::new(self.pos@.len(), |x: int| self.data@[self.pos@[x] as int]) }
}
pub proof fn lemma_of<T: MapMonoid>(s: HLD<T>, t: Tree)
    requires s.of(t),
    ensures tree_ok(t), hlen(s, t.par.len() as int), s.data.wf(), s.data@.len() == t.par.len(), s.val().len() == t.par.len(),
        forall|x: int| 0 <= x < t.par.len() ==> (#[trigger] s.pos@[x]) < t.par.len(),
        forall|x: int| 0 <= x < t.par.len() ==> s.pos@[x] < (#[trigger] s.pos_r@[x]) <= t.par.len(),
        forall|x: int| 0 <= x < t.par.len() ==> (#[trigger] s.head@[x]) < t.par.len(),
        forall|x: int| 0 <= x < t.par.len() ==> (#[trigger] s.parent@[x]) == t.par[x],
        forall|x: int| 0 <= x < t.par.len() ==> (#[trigger] s.dep@[x]) == t.d[x],
{
    reveal(HLD::of);
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] s.pos@[x]) < t.par.len() by { assert(spot(s, x, t.par.len() as int)); }
    assert forall|x: int| 0 <= x < t.par.len() implies s.pos@[x] < (#[trigger] s.pos_r@[x]) <= t.par.len() by { assert(spot(s, x, t.par.len() as int)); }
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] s.head@[x]) < t.par.len() by { assert(spot(s, x, t.par.len() as int)); }
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] s.parent@[x]) == t.par[x] by { assert(known(s, t, x)); }
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] s.dep@[x]) == t.d[x] by { assert(known(s, t, x)); }
}
/// only one tree fits
pub proof fn lemma_unique<T: MapMonoid>(s: HLD<T>, t: Tree)
    requires s.of(t),
    ensures forall|t2: Tree| #[trigger] s.of(t2) ==> t2 == t,
{
    lemma_of(s, t);
    assert forall|t2: Tree| #[trigger] s.of(t2) implies t2 == t by {
        lemma_of(s, t2);
        assert forall|x: int| 0 <= x < t.par.len() implies t2.par[x] == t.par[x] && t2.d[x] == t.d[x] by {
            assert(s.parent@[x] == t.par[x] && s.parent@[x] == t2.par[x]);
            assert(s.dep@[x] == t.d[x] && s.dep@[x] == t2.d[x]);
        }
        assert(t2.par =~= t.par);
        assert(t2.d =~= t.d);
        lemma_troot(t, t2.root);
    }
}
pub proof fn lemma_layout<T: MapMonoid>(s0: HLD<T>, s: HLD<T>, t: Tree)
    requires s0.of(t), same_layout(s0, s), s.data.wf(), s.data@.len() == s0.data@.len(),
    ensures s.of(t),
{
    reveal(HLD::of);
    let n = t.par.len() as int;
    assert forall|x: int| 0 <= x < n implies #[trigger] known(s, t, x) by { assert(known(s0, t, x)); }
    assert forall|x: int| 0 <= x < n implies #[trigger] hv_ok(s, t, x) by { assert(hv_ok(s0, t, x)); }
    assert forall|x: int| 0 <= x < n implies #[trigger] spot(s, x, n) by { assert(spot(s0, x, n)); }
    assert forall|x: int| 0 <= x < n && x != t.root implies #[trigger] linked(s, t, x) by { assert(linked(s0, t, x)); }
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies #[trigger] nested(s, t, x, y) by { assert(nested(s0, t, x, y)); }
    assert forall|p: int| 0 <= p < n implies #[trigger] seat(s, p, n) by { assert(seat(s0, p, n)); }
}
/// no two vertices share a position, and each position is taken
pub proof fn lemma_seats<T: MapMonoid>(s: HLD<T>, t: Tree)
    requires s.of(t),
    ensures
        forall|x: int, y: int| 0 <= x < t.par.len() && 0 <= y < t.par.len() && (#[trigger] s.pos@[x]) == (#[trigger] s.pos@[y]) ==> x == y,
        forall|p: int| 0 <= p < t.par.len() ==> #[trigger] seat(s, p, t.par.len() as int),
        forall|x: int, y: int| 0 <= x < t.par.len() && 0 <= y < t.par.len() ==> #[trigger] tanc(t, x, y) == (s.pos@[x] <= s.pos@[y] < s.pos_r@[x]),
{
    reveal(HLD::of);
    let n = t.par.len() as int;
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && (#[trigger] s.pos@[x]) == (#[trigger] s.pos@[y]) implies x == y by {
        assert(spot(s, x, n) && spot(s, y, n) && nested(s, t, x, y) && nested(s, t, y, x));
        lemma_tanc(t, x, y);
        lemma_tanc(t, y, x);
    }
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies #[trigger] tanc(t, x, y) == (s.pos@[x] <= s.pos@[y] < s.pos_r@[x]) by {
        assert(nested(s, t, x, y));
    }
}
pub proof fn lemma_built<T: MapMonoid>(g: Seq<Vec<usize>>, s1: HLD<T>, s: HLD<T>, r: int, t1: int, t: Tree)
    requires
        lists_tree(g, t), t.root == r, pre2(g, s1, r, 0, t), post2(g, s1, s, r, r, 0, t1, t), s1.data.wf(), s1.data@.len() == g.len(),
    ensures s.of(t), s.data == s1.data,
{
    let n = g.len() as int;
    reveal(HLD::of);
    reveal(post2);
    lemma_kin_le(t, r, seq![]);
    assert forall|x: int| 0 <= x < n implies #[trigger] tanc(t, r, x) by { lemma_root_anc(t, x); }
    assert(below(t, r) =~= Seq::new(n as nat, |i: int| true));
    lemma_count_bounds(below(t, r));
    assert forall|x: int| 0 <= x < n implies #[trigger] known(s, t, x) by { assert(known(s1, t, x)) by { reveal(pre2); } }
    assert forall|x: int| 0 <= x < n implies #[trigger] hv_ok(s, t, x) by { assert(hv_ok(s1, t, x)) by { reveal(pre2); } }
    assert forall|x: int| 0 <= x < n && x != t.root implies #[trigger] linked(s, t, x) by { assert(tanc(t, r, x)); }
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies #[trigger] nested(s, t, x, y) by { assert(tanc(t, r, x) && tanc(t, r, y)); }
    assert forall|x: int| 0 <= x < n implies 0 <= (#[trigger] s.pos@[x]) < s.pos_r@[x] <= n by { assert(tanc(t, r, x)); assert(placed(s, x, 0, t1)); }
    assert forall|x: int| 0 <= x < n implies (#[trigger] s.head@[x]) < n by { lemma_head_bound(s, t, x); }
    assert forall|x: int| 0 <= x < n implies #[trigger] spot(s, x, n) by { assert(s.pos@[x] < s.pos_r@[x] <= n && s.head@[x] < n); }
    let ps = Seq::new(n as nat, |x: int| s.pos@[x] as int);
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && (#[trigger] s.pos@[x]) == (#[trigger] s.pos@[y]) implies x == y by {
        assert(nested(s, t, x, y) && nested(s, t, y, x));
        lemma_tanc(t, x, y);
        lemma_tanc(t, y, x);
    }
    assert forall|p: int| 0 <= p < n implies #[trigger] seat(s, p, n) by {
        if !seat(s, p, n) {
            let q = Seq::new(n as nat, |i: int| i != p);
            let all = Seq::new(n as nat, |i: int| true);
            assert forall|i: int| 0 <= i < ps.len() implies 0 <= #[trigger] ps[i] < q.len() && q[ps[i]] by { assert(s.pos@[i] != p); assert(s.pos@[i] < s.pos_r@[i]); }
            assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && #[trigger] ps[i] == #[trigger] ps[j] implies i == j by { assert(s.pos@[i] == s.pos@[j]); }
            lemma_pigeon(ps, q);
            assert(!q[p] && all[p]);
            lemma_count_mono(q, all);
            lemma_count_bounds(all);
        }
    }
}
/// heads are vertices
pub proof fn lemma_head_bound<T: MapMonoid>(s: HLD<T>, t: Tree, x: int)
    requires
        tree_ok(t), hlen(s, t.par.len() as int), 0 <= x < t.par.len(), s.head@[t.root] == t.root,
        forall|y: int| 0 <= y < t.par.len() && y != t.root ==> #[trigger] linked(s, t, y),
    ensures s.head@[x] < t.par.len(),
    decreases t.d[x],
{
    assert(0 <= t.par[x] < t.par.len());
    assert(t.d[t.par[x]] >= 0);
    if x != t.root {
        assert(linked(s, t, x));
        lemma_head_bound(s, t, t.par[x]);
    }
}
pub proof fn lemma_start<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, r: int, t: Tree)
    requires lists_tree(g, t), t.root == r, hlen(s0, g.len() as int), s0.parent@[r] == r, s0.dep@[r] == 0, forall|x: int| 0 <= x < g.len() ==> (#[trigger] s0.heavy_child@[x]) is None,
    ensures pre1(g, s0, r, t),
{
    reveal(pre1);
}
pub proof fn lemma_between<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, r: int, sz: int, t: Tree)
    requires lists_tree(g, t), t.root == r, post1(g, s0, s1, r, sz, t), g.len() <= usize::MAX,
    ensures pre2(g, s1, r, 0, t), s1.data == s0.data,
{
    reveal(post1);
    reveal(pre2);
    lemma_kin_le(t, r, seq![]);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] known(s1, t, x) by { lemma_root_anc(t, x); }
}
// ---- chains
pub closed spec fn on_chain<T: MapMonoid>(s: HLD<T>, t: Tree, h: int, y: int) -> bool { s.head@[y] == h && s.pos@[y] - s.pos@[h] == t.d[y] - t.d[h] }
pub proof fn lemma_head<T: MapMonoid>(s: HLD<T>, t: Tree, x: int)
    requires s.of(t), 0 <= x < t.par.len(),
    ensures ({
        let h = s.head@[x] as int;
        &&& 0 <= h < t.par.len() && tanc(t, h, x) && s.head@[h] == h && s.pos@[x] - s.pos@[h] == t.d[x] - t.d[h] && t.d[h] <= t.d[x]
        &&& forall|y: int| 0 <= y < t.par.len() && tanc(t, h, y) && tanc(t, y, x) ==> #[trigger] on_chain(s, t, h, y)
    }),
    decreases t.d[x],
{
    lemma_of(s, t);
    let n = t.par.len() as int;
    let h = s.head@[x] as int;
    assert(0 <= t.par[x] < n);
    assert(t.d[t.par[x]] >= 0);
    lemma_tanc_refl(t, x);
    if x != t.root && s.heavy_child@[t.par[x]] == Some(x as usize) {
        let p = t.par[x];
        assert(linked(s, t, x)) by { reveal(HLD::of); }
        lemma_head(s, t, p);
        lemma_par_anc(t, x);
        lemma_tanc_trans(t, h, p, x);
        assert forall|y: int| 0 <= y < n && tanc(t, h, y) && tanc(t, y, x) implies #[trigger] on_chain(s, t, h, y) by {
            if y != x {
                lemma_tanc(t, y, x);
                lemma_chain_of(t, y, p, x);
                lemma_tanc(t, y, p);
            }
        }
        assert(s.head@[h] == h) by { lemma_tanc_refl(t, h); }
    } else {
        if x != t.root { assert(linked(s, t, x)) by { reveal(HLD::of); } } else { assert(s.head@[x] == x) by { reveal(HLD::of); } }
        assert forall|y: int| 0 <= y < n && tanc(t, h, y) && tanc(t, y, x) implies #[trigger] on_chain(s, t, h, y) by {
            lemma_tanc(t, h, y);
            lemma_tanc(t, y, x);
        }
    }
}
/// a stretch of a chain: consecutive positions
pub proof fn lemma_stretch<T: MapMonoid>(s: HLD<T>, t: Tree, y: int, x: int)
    requires s.of(t), 0 <= x < t.par.len(), 0 <= y < t.par.len(), s.head@[y] == s.head@[x], s.pos@[y] <= s.pos@[x],
    ensures
        tanc(t, y, x),
        forall|z: int| 0 <= z < t.par.len() ==> (s.pos@[y] <= (#[trigger] s.pos@[z]) <= s.pos@[x]) == (tanc(t, y, z) && tanc(t, z, x)),
{
    lemma_of(s, t);
    lemma_head(s, t, x);
    lemma_head(s, t, y);
    let n = t.par.len() as int;
    let h = s.head@[x] as int;
    lemma_seat_on(s, t, x, s.pos@[y] as int);
    lemma_seats(s, t);
    assert(tanc(t, y, x));
    assert forall|z: int| 0 <= z < n implies (s.pos@[y] <= (#[trigger] s.pos@[z]) <= s.pos@[x]) == (tanc(t, y, z) && tanc(t, z, x)) by {
        if tanc(t, y, z) && tanc(t, z, x) {
            lemma_tanc_trans(t, h, y, z);
            assert(on_chain(s, t, h, z));
            lemma_tanc(t, y, z);
            lemma_tanc(t, z, x);
        }
        if s.pos@[y] <= s.pos@[z] <= s.pos@[x] {
            let w = lemma_seat_on(s, t, x, s.pos@[z] as int);
            assert(s.pos@[w] == s.pos@[z]);
            lemma_chain_of(t, y, w, x);
        }
    }
}
/// the positions from that of the head to that of x belong to ancestors of x
pub proof fn lemma_seat_on<T: MapMonoid>(s: HLD<T>, t: Tree, x: int, p: int) -> (w: int)
    requires s.of(t), 0 <= x < t.par.len(), s.pos@[s.head@[x] as int] <= p <= s.pos@[x],
    ensures 0 <= w < t.par.len(), tanc(t, w, x), s.pos@[w] == p, t.d[w] == t.d[x] - (s.pos@[x] - p), forall|y: int| 0 <= y < t.par.len() && (#[trigger] s.pos@[y]) == p ==> y == w,
{
    lemma_of(s, t);
    lemma_head(s, t, x);
    lemma_seats(s, t);
    let h = s.head@[x] as int;
    let k = s.pos@[x] - p;
    let w = jump(t, x, k);
    lemma_jump(t, x, k);
    assert(t.d[h] >= 0) by { assert(0 <= t.par[h] < t.par.len()); }
    assert(tanc(t, w, x));
    lemma_chain_of(t, h, w, x);
    assert(on_chain(s, t, h, w));
    w
}
/// climbing from u to the parent of the head of its chain
pub proof fn lemma_climb<T: MapMonoid>(s: HLD<T>, t: Tree, u: int, v: int)
    requires s.of(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), s.head@[u] != s.head@[v], t.d[s.head@[u] as int] >= t.d[s.head@[v] as int],
    ensures ({
        let h = s.head@[u] as int;
        &&& h < t.par.len() && h != t.root && s.pos@[h] <= s.pos@[u] && 0 <= t.par[h] < t.par.len() && t.d[t.par[h]] < t.d[h] <= t.d[u]
        &&& forall|x: int| 0 <= x < t.par.len() ==> #[trigger] onpath(t, u, v, x) == (onpath(t, t.par[h], v, x) || s.pos@[h] <= s.pos@[x] <= s.pos@[u])
        &&& forall|x: int| 0 <= x < t.par.len() && s.pos@[h] <= (#[trigger] s.pos@[x]) <= s.pos@[u] ==> !onpath(t, t.par[h], v, x)
    }),
{
    lemma_of(s, t);
    lemma_head(s, t, u);
    lemma_head(s, t, v);
    let n = t.par.len() as int;
    let h = s.head@[u] as int;
    let hv = s.head@[v] as int;
    let p = t.par[h];
    lemma_stretch(s, t, h, u);
    if tanc(t, h, v) {
        lemma_chain_of(t, hv, h, v);
        assert(on_chain(s, t, hv, h));
    }
    if h == t.root { lemma_root_anc(t, v); }
    lemma_par_anc(t, h);
    lemma_tanc_trans(t, p, h, u);
    assert(t.d[p] >= 0 && t.d[h] == t.d[p] + 1) by { assert(0 <= t.par[h] < n); assert(0 <= t.par[p] < n); }
    assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, p) by {
        lemma_above(t, c, v);
        lemma_split(t, h, u, c);
        if tanc(t, h, c) { lemma_tanc_trans(t, h, c, v); }
    }
    assert forall|x: int| 0 <= x < n && tanc(t, h, x) implies !#[trigger] onpath(t, p, v, x) by {
        if tanc(t, x, p) { lemma_tanc(t, x, p); lemma_tanc(t, h, x); }
        if tanc(t, x, v) { lemma_tanc_trans(t, h, x, v); }
    }
    assert forall|x: int| 0 <= x < n implies #[trigger] onpath(t, u, v, x) == (onpath(t, p, v, x) || s.pos@[h] <= s.pos@[x] <= s.pos@[u]) by {
        assert((s.pos@[h] <= s.pos@[x] <= s.pos@[u]) == (tanc(t, h, x) && tanc(t, x, u)));
        if onpath(t, u, v, x) {
            if tanc(t, x, u) { lemma_split(t, h, u, x); }
            assert forall|c: int| #[trigger] tanc(t, c, p) && tanc(t, c, v) implies tanc(t, c, x) by { lemma_tanc_trans(t, c, p, u); }
        }
        if onpath(t, p, v, x) {
            if tanc(t, x, p) { lemma_tanc_trans(t, x, p, u); }
            assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, x) by { assert(tanc(t, c, p)); }
        }
        if tanc(t, h, x) && tanc(t, x, u) {
            assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, x) by {
                assert(tanc(t, c, p));
                lemma_tanc_trans(t, c, p, h);
                lemma_tanc_trans(t, c, h, x);
            }
        }
    }
}
pub proof fn lemma_above(t: Tree, c: int, v: int)
    requires tree_ok(t), 0 <= v < t.par.len(), tanc(t, c, v),
    ensures 0 <= c < t.par.len(),
{
    let k = choose|k: int| k >= 0 && #[trigger] jump(t, v, k) == c;
    lemma_jump(t, v, k);
}
/// an ancestor of u is below h or above the parent of h
pub proof fn lemma_split(t: Tree, h: int, u: int, x: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= h < t.par.len(), tanc(t, h, u), tanc(t, x, u), h != t.root,
    ensures tanc(t, h, x) || tanc(t, x, t.par[h]),
{
    lemma_above(t, x, u);
    if t.d[x] >= t.d[h] {
        lemma_chain_of(t, h, x, u);
    } else {
        assert(0 <= t.par[h] < t.par.len());
        lemma_par_anc(t, h);
        lemma_tanc_trans(t, t.par[h], h, u);
        lemma_chain_of(t, x, t.par[h], u);
    }
}
/// the last stretch
pub proof fn lemma_last<T: MapMonoid>(s: HLD<T>, t: Tree, u: int, v: int)
    requires s.of(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), s.head@[u] == s.head@[v], s.pos@[u] <= s.pos@[v],
    ensures forall|x: int| 0 <= x < t.par.len() ==> #[trigger] onpath(t, u, v, x) == (s.pos@[u] <= s.pos@[x] <= s.pos@[v]),
{
    lemma_of(s, t);
    lemma_stretch(s, t, u, v);
    lemma_tanc_refl(t, u);
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] onpath(t, u, v, x) == (s.pos@[u] <= s.pos@[x] <= s.pos@[v]) by {
        assert((s.pos@[u] <= s.pos@[x] <= s.pos@[v]) == (tanc(t, u, x) && tanc(t, x, v)));
        if onpath(t, u, v, x) {
            assert(tanc(t, u, u) && tanc(t, u, v));
            if tanc(t, x, u) { lemma_tanc_trans(t, x, u, v); }
        }
        if tanc(t, u, x) && tanc(t, x, v) {
            assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, x) by { lemma_tanc_trans(t, c, u, x); }
        }
    }
}
pub proof fn lemma_path_swap(t: Tree, u: int, v: int)
    ensures forall|x: int| #[trigger] onpath(t, v, u, x) == onpath(t, u, v, x),
{
    assert forall|x: int| #[trigger] onpath(t, v, u, x) == onpath(t, u, v, x) by {
        if onpath(t, u, v, x) { assert forall|c: int| #[trigger] tanc(t, c, v) && tanc(t, c, u) implies tanc(t, c, x) by { assert(tanc(t, c, u)); } }
        if onpath(t, v, u, x) { assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, x) by { assert(tanc(t, c, v)); } }
    }
}
/// m marks what of the path u0..v0 is done when u..v is left
pub open spec fn done(t: Tree, u0: int, v0: int, u: int, v: int, m: Seq<bool>) -> bool {
    &&& m.len() == t.par.len()
    &&& forall|x: int| 0 <= x < t.par.len() ==> (#[trigger] m[x]) == (onpath(t, u0, v0, x) && !onpath(t, u, v, x))
    &&& forall|x: int| 0 <= x < t.par.len() && #[trigger] onpath(t, u, v, x) ==> onpath(t, u0, v0, x)
}
/// the vertices at the positions lo..hi join
pub closed spec fn joined<T: MapMonoid>(s: HLD<T>, m: Seq<bool>, m2: Seq<bool>, lo: int, hi: int) -> bool {
    &&& m.len() == m2.len()
    &&& forall|x: int| 0 <= x < m.len() ==> (#[trigger] m2[x]) == (m[x] || lo <= s.pos@[x] < hi)
    &&& forall|x: int| 0 <= x < m.len() && lo <= (#[trigger] s.pos@[x]) < hi ==> !m[x]
}
pub closed spec fn join<T: MapMonoid>(s: HLD<T>, m: Seq<bool>, lo: int, hi: int) -> Seq<bool> { Seq::new(m.len(), |x: int| m[x] || lo <= s.pos@[x] < hi) }
pub proof fn lemma_done_swap(t: Tree, u0: int, v0: int, u: int, v: int, m: Seq<bool>)
    requires done(t, u0, v0, u, v, m),
    ensures done(t, u0, v0, v, u, m),
{
    lemma_path_swap(t, u, v);
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] m[x]) == (onpath(t, u0, v0, x) && !onpath(t, v, u, x)) by { assert(onpath(t, v, u, x) == onpath(t, u, v, x)); }
}
pub proof fn lemma_done_climb<T: MapMonoid>(s: HLD<T>, t: Tree, u0: int, v0: int, u: int, v: int, m: Seq<bool>)
    requires s.of(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), s.head@[u] != s.head@[v], t.d[s.head@[u] as int] >= t.d[s.head@[v] as int], done(t, u0, v0, u, v, m),
    ensures ({
        let h = s.head@[u] as int;
        let m2 = join(s, m, s.pos@[h] as int, s.pos@[u] + 1);
        &&& h < t.par.len() && s.pos@[h] <= s.pos@[u] < t.par.len() && 0 <= t.par[h] < t.par.len() && t.d[t.par[h]] < t.d[u]
        &&& done(t, u0, v0, t.par[h], v, m2) && joined(s, m, m2, s.pos@[h] as int, s.pos@[u] + 1)
    }),
{
    lemma_of(s, t);
    lemma_climb(s, t, u, v);
    let h = s.head@[u] as int;
    let p = t.par[h];
    let m2 = join(s, m, s.pos@[h] as int, s.pos@[u] + 1);
    assert forall|x: int| 0 <= x < t.par.len() implies onpath(t, u, v, x) == (#[trigger] onpath(t, p, v, x) || s.pos@[h] <= s.pos@[x] <= s.pos@[u]) by {
        assert(onpath(t, u, v, x) == (onpath(t, p, v, x) || s.pos@[h] <= s.pos@[x] <= s.pos@[u]));
    }
    assert forall|x: int| 0 <= x < m.len() && s.pos@[h] <= (#[trigger] s.pos@[x]) < s.pos@[u] + 1 implies !m[x] by {
        assert(onpath(t, u, v, x));
        assert(m[x] == (onpath(t, u0, v0, x) && !onpath(t, u, v, x)));
    }
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] m2[x]) == (onpath(t, u0, v0, x) && !onpath(t, p, v, x)) by {
        assert(m[x] == (onpath(t, u0, v0, x) && !onpath(t, u, v, x)));
        assert(onpath(t, u, v, x) ==> onpath(t, u0, v0, x));
        assert(onpath(t, u, v, x) == (onpath(t, p, v, x) || s.pos@[h] <= s.pos@[x] <= s.pos@[u]));
        if s.pos@[h] <= s.pos@[x] <= s.pos@[u] { assert(!onpath(t, p, v, x)); }
    }
    assert forall|x: int| 0 <= x < t.par.len() && #[trigger] onpath(t, p, v, x) implies onpath(t, u0, v0, x) by { assert(onpath(t, u, v, x)); }
}
pub proof fn lemma_done_last<T: MapMonoid>(s: HLD<T>, t: Tree, u0: int, v0: int, u: int, v: int, m: Seq<bool>)
    requires s.of(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), s.head@[u] == s.head@[v], s.pos@[u] <= s.pos@[v], done(t, u0, v0, u, v, m),
    ensures joined(s, m, path(t, u0, v0), s.pos@[u] as int, s.pos@[v] + 1),
{
    lemma_of(s, t);
    lemma_last(s, t, u, v);
    let m2 = path(t, u0, v0);
    assert forall|x: int| 0 <= x < m.len() implies (#[trigger] m2[x]) == (m[x] || s.pos@[u] <= s.pos@[x] < s.pos@[v] + 1) && (s.pos@[u] <= s.pos@[x] < s.pos@[v] + 1 ==> !m[x]) by {
        assert(m[x] == (onpath(t, u0, v0, x) && !onpath(t, u, v, x)));
        assert(onpath(t, u, v, x) ==> onpath(t, u0, v0, x));
        assert(onpath(t, u, v, x) == (s.pos@[u] <= s.pos@[x] <= s.pos@[v]));
    }
    assert forall|x: int| 0 <= x < m.len() && s.pos@[u] <= (#[trigger] s.pos@[x]) < s.pos@[v] + 1 implies !m[x] by { assert(m2[x] || !m2[x]); }
}
pub proof fn lemma_done_none(t: Tree, u: int, v: int, m: Seq<bool>)
    requires m == Seq::new(t.par.len(), |x: int| false),
    ensures done(t, u, v, u, v, m),
{
}
// ---- products over sets of vertices
pub open spec fn commutes<M: Monoid>() -> bool { forall|a: M::S, b: M::S| #[trigger] M::m_op(a, b) == M::m_op(b, a) }
/// the product of the values marked by m
pub open spec fn mprod<M: Monoid>(val: Seq<M::S>, m: Seq<bool>) -> M::S
    decreases m.len(),
{
    if m.len() == 0 { M::m_id() } else if m.last() { M::m_op(mprod::<M>(val, m.drop_last()), val[m.len() - 1]) } else { mprod::<M>(val, m.drop_last()) }
}
pub proof fn lemma_mprod_none<M: Monoid>(val: Seq<M::S>, m: Seq<bool>)
    requires forall|i: int| 0 <= i < m.len() ==> !(#[trigger] m[i]),
    ensures mprod::<M>(val, m) == M::m_id(),
    decreases m.len(),
{
    if m.len() > 0 {
        assert(!m[m.len() - 1]);
        assert forall|i: int| 0 <= i < m.drop_last().len() implies !(#[trigger] m.drop_last()[i]) by { assert(!m[i]); }
        lemma_mprod_none::<M>(val, m.drop_last());
    }
}
pub proof fn lemma_mprod_add<M: Monoid>(val: Seq<M::S>, m: Seq<bool>, x: int)
    requires commutes::<M>(), 0 <= x < m.len(), !m[x],
    ensures mprod::<M>(val, m.update(x, true)) == M::m_op(mprod::<M>(val, m), val[x]),
    decreases m.len(),
{
    let k = m.len() - 1;
    let m2 = m.update(x, true);
    if x == k {
        assert(m2.drop_last() =~= m.drop_last());
    } else {
        assert(m2.drop_last() =~= m.drop_last().update(x, true));
        lemma_mprod_add::<M>(val, m.drop_last(), x);
        if m[k] {
            let a = mprod::<M>(val, m.drop_last());
            M::law_assoc(a, val[x], val[k]);
            M::law_assoc(a, val[k], val[x]);
            assert(M::m_op(val[x], val[k]) == M::m_op(val[k], val[x]));
        }
    }
}
/// adding the vertices at the positions lo..hi multiplies by the product of that range
pub proof fn lemma_mprod_range<T: MapMonoid>(s: HLD<T>, t: Tree, m: Seq<bool>, m2: Seq<bool>, lo: int, hi: int)
    requires
        s.of(t), commutes::<T::M>(), m.len() == t.par.len(), m2.len() == t.par.len(), 0 <= lo <= hi <= t.par.len(),
        joined(s, m, m2, lo, hi),
    ensures mprod::<T::M>(s.val(), m2) == <T::M as Monoid>::m_op(mprod::<T::M>(s.val(), m), fr::<T::M>(s.data@, lo, hi)),
    decreases hi - lo,
{
    lemma_of(s, t);
    let n = t.par.len() as int;
    if lo == hi {
        assert(m2 =~= m);
        lemma_fr_empty::<T::M>(s.data@, lo);
        <T::M as Monoid>::law_id(mprod::<T::M>(s.val(), m));
    } else {
        lemma_seats(s, t);
        assert(seat(s, hi - 1, n));
        let x = choose|x: int| 0 <= x < n && (#[trigger] s.pos@[x]) == hi - 1;
        let m3 = m2.update(x, false);
        assert forall|y: int| 0 <= y < n implies (#[trigger] m3[y]) == (m[y] || lo <= s.pos@[y] < hi - 1) by {
            assert(m2[y] == (m[y] || lo <= s.pos@[y] < hi));
            assert(lo <= s.pos@[x] < hi);
        }
        assert(joined(s, m, m3, lo, hi - 1));
        lemma_mprod_range(s, t, m, m3, lo, hi - 1);
        assert(m3.update(x, true) =~= m2) by { assert(m2[x]); }
        lemma_mprod_add::<T::M>(s.val(), m3, x);
        lemma_fr_split::<T::M>(s.data@, lo, hi - 1, hi);
        lemma_fr_one::<T::M>(s.data@, hi - 1);
        <T::M as Monoid>::law_assoc(mprod::<T::M>(s.val(), m), fr::<T::M>(s.data@, lo, hi - 1), s.data@[hi - 1]);
    }
}
impl<T: MapMonoid> HLD<T> {
//@fn graph/heavy_light_decomp.rs | HLD::new | ret=ret
//@spec
    requires exists|t: Tree| lists_tree(g@, t) && t.root == root, g@.len() <= 0xffff_ffff,
    ensures
        forall|t: Tree| #[trigger] lists_tree(g@, t) && t.root == root ==> ret.of(t),
        ret.val().len() == g@.len(), forall|x: int| 0 <= x < g@.len() ==> (#[trigger] ret.val()[x]) == <T::M as Monoid>::m_id(),
//@entry
    let ghost gg = g@;
    let ghost r = root as int;
    let ghost tt = choose|t: Tree| lists_tree(g@, t) && t.root == root;
//@at call:dfs1#0.before
    let ghost s0 = res;
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(gg, t) && t.root == root implies pre1(gg, s0, r, t) by { lemma_start(gg, s0, r, t); }
        assert(pre1(gg, s0, r, tt));
    }
//@at call:dfs2#0.before
    let ghost s1 = res;
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(gg, t) && t.root == root implies pre2(gg, s1, r, 0, t) && s1.data == s0.data by {
            assert(pre1(gg, s0, r, t));
            lemma_size_of(gg, s0, s1, r, t);
        }
        assert(pre2(gg, s1, r, 0, tt));
    }
//@at call:dfs2#0.after
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(gg, t) && t.root == root implies res.of(t) && res.data == s1.data by {
            assert(pre2(gg, s1, r, 0, t));
            lemma_built(gg, s1, res, r, timer as int, t);
        }
        assert(res.of(tt));
        lemma_of(res, tt);
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::with_init_value | ret=ret
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires exists|t: Tree| lists_tree(g@, t) && t.root == root, g@.len() <= 0xffff_ffff, v@.len() == g@.len(),
    ensures forall|t: Tree| #[trigger] lists_tree(g@, t) && t.root == root ==> ret.of(t), ret.val() == v@,
//@entry
    let ghost tt = choose|t: Tree| lists_tree(g@, t) && t.root == root;
    let ghost n = g@.len() as int;
//@loop 0
    invariant
        i <= v.len(), a@.len() == n, forall|x: int| 0 <= x < i ==> a@[(#[trigger] res.pos@[x]) as int] == v@[x],
    decreases v.len() - i,
//@at let:res#0.after
    let ghost s0 = res;
    proof {
        assert(res.of(tt));
        lemma_of(res, tt);
        lemma_seats(res, tt);
    }
//@at loop0.head
    let ghost a0 = a@;
//@at loop0.bodyend
    proof {
        <T::M as Monoid>::law_clone(v@[i as int], a@[res.pos@[i as int] as int]);
        assert forall|x: int| 0 <= x < i + 1 implies a@[(#[trigger] res.pos@[x]) as int] == v@[x] by {
            if x < i { assert(a0[res.pos@[x] as int] == v@[x]); assert(res.pos@[x] != res.pos@[i as int]); }
        }
    }
//@exit
    proof {
        assert forall|t: Tree| #[trigger] lists_tree(g@, t) && t.root == root implies res.of(t) by { assert(s0.of(t)); lemma_layout(s0, res, t); }
        assert(res.val() =~= v@);
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::apply_path
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len() && v < t.par.len(),
    ensures
        forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == upd::<T>(old(self).val(), wpath(t, u as int, v as int), f),
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len() && v < t.par.len();
    let ghost s0 = *self;
    let ghost n = t.par.len() as int;
    let ghost (u0, v0) = (u as int, v as int);
    let ghost mut m = Seq::new(n as nat, |x: int| false);
    proof {
        lemma_unique(s0, t);
        lemma_of(s0, t);
        lemma_done_none(t, u0, v0, m);
        assert(upd::<T>(s0.val(), m, f) =~= s0.val());
        assert forall|a: T::F, b: T::F| #[trigger] call_ensures(<T::F as Clone>::clone, (&a,), b) implies b == a by { T::law_clone_f(a, b); }
    }
//@loop 0
    invariant
        0 <= u < n, 0 <= v < n, same_layout(s0, *self), self.of(t), done(t, u0, v0, u as int, v as int, m), self.val() == upd::<T>(s0.val(), m, f),
    ensures self.head@[u as int] == self.head@[v as int],
    decreases t.d[u as int] + t.d[v as int],
//@at loop0.head
    let ghost s1 = *self;
    let ghost m1 = m;
    proof {
        lemma_of(s1, t);
        lemma_done_swap(t, u0, v0, u as int, v as int, m);
        lemma_depth(t, u as int);
        lemma_depth(t, v as int);
    }
//@at call:apply_range#0.before
    let ghost (u1, v1) = (u as int, v as int);
    proof { lemma_done_climb(s1, t, u0, v0, u1, v1, m1); }
//@at call:apply_range#0.after
    proof {
        lemma_layout(s1, *self, t);
        let h = s1.head@[u1] as int;
        m = join(s1, m1, s1.pos@[h] as int, s1.pos@[u1] + 1);
        lemma_upd(s0, s1, *self, t, m1, m, f, s1.pos@[h] as int, s1.pos@[u1] + 1);
        lemma_depth(t, t.par[h]);
    }
//@at loop0.after
    let ghost s2 = *self;
    proof {
        lemma_of(s2, t);
        lemma_done_swap(t, u0, v0, u as int, v as int, m);
    }
//@at call:apply_range#1.before
    let ghost (u2, v2) = (u as int, v as int);
    proof { lemma_done_last(s2, t, u0, v0, u2, v2, m); }
//@exit
    proof {
        lemma_layout(s2, *self, t);
        lemma_wpath(t, u0, v0);
        lemma_upd(s0, s2, *self, t, m, path(t, u0, v0), f, s2.pos@[u2] as int, s2.pos@[v2] + 1);
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::path_prod | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len() && v < t.par.len(), commutes::<T::M>(),
    ensures
        forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == old(self).val() && ret == mprod::<T::M>(old(self).val(), wpath(t, u as int, v as int)),
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len() && v < t.par.len();
    let ghost s0 = *self;
    let ghost n = t.par.len() as int;
    let ghost (u0, v0) = (u as int, v as int);
    let ghost mut m = Seq::new(n as nat, |x: int| false);
    proof {
        lemma_unique(s0, t);
        lemma_of(s0, t);
        lemma_done_none(t, u0, v0, m);
        lemma_mprod_none::<T::M>(s0.val(), m);
    }
//@loop 0
    invariant
        0 <= u < n, 0 <= v < n, same_layout(s0, *self), self.data@ == s0.data@, self.of(t), done(t, u0, v0, u as int, v as int, m), res == mprod::<T::M>(s0.val(), m),
    ensures self.head@[u as int] == self.head@[v as int],
    decreases t.d[u as int] + t.d[v as int],
//@at loop0.head
    let ghost s1 = *self;
    let ghost m1 = m;
    proof {
        lemma_of(s1, t);
        lemma_done_swap(t, u0, v0, u as int, v as int, m);
        lemma_depth(t, u as int);
        lemma_depth(t, v as int);
    }
//@at call:prod#0.before
    let ghost (u1, v1) = (u as int, v as int);
    proof { lemma_done_climb(s1, t, u0, v0, u1, v1, m1); }
//@at set:res#0.after
    proof {
        lemma_layout(s1, *self, t);
        let h = s1.head@[u1] as int;
        m = join(s1, m1, s1.pos@[h] as int, s1.pos@[u1] + 1);
        lemma_mprod_range(s1, t, m1, m, s1.pos@[h] as int, s1.pos@[u1] + 1);
        assert(s1.val() =~= s0.val());
        lemma_depth(t, t.par[h]);
    }
//@at loop0.after
    let ghost s2 = *self;
    proof {
        lemma_of(s2, t);
        lemma_done_swap(t, u0, v0, u as int, v as int, m);
    }
//@at call:prod#1.before
    let ghost (u2, v2) = (u as int, v as int);
    proof { lemma_done_last(s2, t, u0, v0, u2, v2, m); }
//@exit
    proof {
        lemma_layout(s2, *self, t);
        lemma_wpath(t, u0, v0);
        lemma_mprod_range(s2, t, m, path(t, u0, v0), s2.pos@[u2] as int, s2.pos@[v2] + 1);
        assert(s2.val() =~= s0.val());
        assert(self.val() =~= s0.val());
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::apply_subtree
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len(),
    ensures forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == upd::<T>(old(self).val(), wbelow(t, u as int), f),
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len();
    let ghost s0 = *self;
    proof { lemma_unique(s0, t); lemma_of(s0, t); lemma_seats(s0, t); assert(s0.pos_r@[u as int] <= t.par.len()); }
//@exit
    proof {
        lemma_layout(s0, *self, t);
        lemma_wbelow(t, u as int);
        assert(self.val() =~= upd::<T>(s0.val(), below(t, u as int), f)) by {
            assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] self.val()[x]) == upd::<T>(s0.val(), below(t, u as int), f)[x] by {
                assert(tanc(t, u as int, x) == (s0.pos@[u as int] <= s0.pos@[x] < s0.pos_r@[u as int]));
            }
        }
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::subtree_prod | ret=ret
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len(), commutes::<T::M>(),
    ensures forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == old(self).val() && ret == mprod::<T::M>(old(self).val(), wbelow(t, u as int)),
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len();
    let ghost s0 = *self;
    proof { lemma_unique(s0, t); lemma_of(s0, t); lemma_seats(s0, t); assert(s0.pos_r@[u as int] <= t.par.len()); }
//@exit
    proof {
        lemma_layout(s0, *self, t);
        let m = Seq::new(t.par.len(), |x: int| false);
        lemma_mprod_none::<T::M>(s0.val(), m);
        assert forall|x: int| 0 <= x < m.len() implies (#[trigger] below(t, u as int)[x]) == (m[x] || s0.pos@[u as int] <= s0.pos@[x] < s0.pos_r@[u as int]) by { assert(tanc(t, u as int, x) == tanc(t, u as int, x)); }
        lemma_mprod_range(s0, t, m, below(t, u as int), s0.pos@[u as int] as int, s0.pos_r@[u as int] as int);
        <T::M as Monoid>::law_id(ret);
        lemma_wbelow(t, u as int);
        assert(self.val() =~= s0.val());
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::get | ret=ret
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len(),
    ensures forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == old(self).val() && ret == old(self).val()[u as int],
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len();
    let ghost s0 = *self;
    proof { lemma_unique(s0, t); lemma_of(s0, t); }
//@exit
    proof {
        lemma_layout(s0, *self, t);
        assert(self.val() =~= s0.val());
    }
//@end
//@fn graph/heavy_light_decomp.rs | HLD::set
//@spec
    requires exists|t: Tree| old(self).of(t) && u < t.par.len(),
    ensures forall|t: Tree| #[trigger] old(self).of(t) ==> final(self).of(t) && final(self).val() == old(self).val().update(u as int, x),
//@entry
    let ghost t = choose|t: Tree| old(self).of(t) && u < t.par.len();
    let ghost s0 = *self;
    proof { lemma_unique(s0, t); lemma_of(s0, t); lemma_seats(s0, t); }
//@exit
    proof {
        lemma_layout(s0, *self, t);
        assert(self.val() =~= s0.val().update(u as int, x)) by {
            assert forall|y: int| 0 <= y < t.par.len() implies (#[trigger] self.val()[y]) == s0.val().update(u as int, x)[y] by {
                assert(s0.pos@[y] < t.par.len() && (s0.pos@[y] == s0.pos@[u as int] ==> y == u));
            }
        }
    }
//@end
}
/// the subtree of u: the vertices that cannot be reached from the root without passing u
pub open spec fn wbelow(t: Tree, u: int) -> Seq<bool> { Seq::new(t.par.len(), |x: int| onwalks(t, t.root, x, u)) }
pub proof fn lemma_wbelow(t: Tree, u: int)
    requires tree_ok(t), 0 <= u < t.par.len(),
    ensures below(t, u) == wbelow(t, u),
{
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] below(t, u)[x] == wbelow(t, u)[x] by { lemma_anc_walks(t, u, x); }
    assert(below(t, u) =~= wbelow(t, u));
}
/// the vertices of the path between u and v, that no walk from u to v avoids
pub open spec fn wpath(t: Tree, u: int, v: int) -> Seq<bool> { Seq::new(t.par.len(), |x: int| onwalks(t, u, v, x)) }
pub proof fn lemma_wpath(t: Tree, u: int, v: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(),
    ensures path(t, u, v) == wpath(t, u, v),
{
    let l = lemma_lca_exists(t, u, v);
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] path(t, u, v)[x] == wpath(t, u, v)[x] by {
        lemma_on_walks(t, u, v, l, x);
        if onpath(t, u, v, x) { assert(tanc(t, l, u) && tanc(t, l, v) ==> tanc(t, l, x)); }
        if tanc(t, l, x) {
            assert forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) implies tanc(t, c, x) by {
                let k = choose|k: int| k >= 0 && #[trigger] jump(t, u, k) == c;
                lemma_jump(t, u, k);
                assert(t.d[c] <= t.d[l]);
                lemma_chain_of(t, c, l, u);
                lemma_tanc_trans(t, c, l, x);
            }
        }
    }
    assert(path(t, u, v) =~= wpath(t, u, v));
}
/// the marked values mapped by f
pub open spec fn upd<T: MapMonoid>(val: Seq<<T::M as Monoid>::S>, m: Seq<bool>, f: T::F) -> Seq<<T::M as Monoid>::S> {
    Seq::new(val.len(), |x: int| if m[x] { T::mm_map(f, val[x]) } else { val[x] })
}
pub proof fn lemma_upd<T: MapMonoid>(s0: HLD<T>, s1: HLD<T>, s2: HLD<T>, t: Tree, m: Seq<bool>, m2: Seq<bool>, f: T::F, lo: int, hi: int)
    requires
        s0.of(t), s1.of(t), same_layout(s0, s1), same_layout(s1, s2), m.len() == t.par.len(), m2.len() == t.par.len(), s1.val() == upd::<T>(s0.val(), m, f), s2.data@.len() == s1.data@.len(),
        forall|i: int| 0 <= i < s1.data@.len() ==> (#[trigger] s2.data@[i]) == if lo <= i < hi { T::mm_map(f, s1.data@[i]) } else { s1.data@[i] },
        joined(s1, m, m2, lo, hi),
    ensures s2.val() == upd::<T>(s0.val(), m2, f),
{
    lemma_of(s0, t);
    lemma_of(s1, t);
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] s2.val()[x]) == upd::<T>(s0.val(), m2, f)[x] by {
        let p = s1.pos@[x] as int;
        assert(s2.data@[p] == if lo <= p < hi { T::mm_map(f, s1.data@[p]) } else { s1.data@[p] });
        assert(s1.val()[x] == s1.data@[p]);
        assert(m2[x] == (m[x] || lo <= p < hi));
        assert(s1.val()[x] == upd::<T>(s0.val(), m, f)[x]);
    }
    assert(s2.val() =~= upd::<T>(s0.val(), m2, f));
}
pub proof fn lemma_size_of<T: MapMonoid>(g: Seq<Vec<usize>>, s0: HLD<T>, s1: HLD<T>, r: int, t: Tree)
    requires lists_tree(g, t), t.root == r, exists|sz: int| post1(g, s0, s1, r, sz, t), g.len() <= usize::MAX,
    ensures pre2(g, s1, r, 0, t), s1.data == s0.data,
{
    let sz = choose|sz: int| post1(g, s0, s1, r, sz, t);
    lemma_between(g, s0, s1, r, sz, t);
}
}
