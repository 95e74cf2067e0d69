//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/pigeon.vx
//@include lib/reach.vx
//@struct graph/tarjan.rs | SCC

pub open spec fn found(order: Seq<i32>) -> Seq<bool> { Seq::new(order.len(), |i: int| order[i] != -1) }
/// x belongs to the finished component number i
pub open spec fn in_comp(c: Seq<Vec<usize>>, x: int, i: int) -> bool {
    0 <= i < c.len() && exists|a: int| 0 <= a < c[i]@.len() && (#[trigger] c[i]@[a]) == x
}
/// x belongs to one of the first m components
pub open spec fn done(c: Seq<Vec<usize>>, x: int, m: int) -> bool { exists|i: int| i < m && in_comp(c, x, i) }
/// finished components: non-empty, disjoint, mutually reachable, edges lead to the same or an earlier one
#[verifier::opaque]
pub open spec fn comps(g: Seq<Vec<usize>>, c: Seq<Vec<usize>>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@.len() > 0
    &&& forall|x: int, i: int| #[trigger] in_comp(c, x, i) ==> 0 <= x < g.len()
    &&& forall|x: int, i: int, j: int| #[trigger] in_comp(c, x, i) && #[trigger] in_comp(c, x, j) ==> i == j
    &&& forall|x: int, y: int, i: int| #[trigger] in_comp(c, x, i) && #[trigger] in_comp(c, y, i) ==> reach(g, x, y)
    &&& forall|x: int, y: int, i: int| #[trigger] in_comp(c, x, i) && #[trigger] edge(g, x, y) ==> done(c, y, i + 1)
}
/// x reaches a vertex of the stack whose number is low[x]
pub open spec fn lowok(g: Seq<Vec<usize>>, s: SCC, x: int) -> bool {
    &&& 0 <= s.low@[x] <= s.order@[x]
    &&& exists|y: int| 0 <= y < g.len() && #[trigger] s.on_stack@[y] && s.order@[y] == s.low@[x] && reach(g, x, y)
}
#[verifier::opaque]
pub open spec fn nums(g: Seq<Vec<usize>>, s: SCC) -> bool {
    let n = g.len() as int;
    &&& n <= i32::MAX && gok(g)
    &&& s.order@.len() == n && s.low@.len() == n && s.on_stack@.len() == n
    &&& s.pos == count_true(found(s.order@))
    &&& forall|x: int| 0 <= x < n ==> -1 <= #[trigger] s.order@[x] < s.pos
    &&& forall|i: int| 0 <= i < s.stack@.len() ==> (#[trigger] s.stack@[i]) < n && s.on_stack@[s.stack@[i] as int]
    &&& forall|i: int, j: int| 0 <= i < j < s.stack@.len() ==> s.order@[(#[trigger] s.stack@[i]) as int] < s.order@[(#[trigger] s.stack@[j]) as int]
    &&& forall|x: int| 0 <= x < n && #[trigger] s.on_stack@[x] ==> s.order@[x] >= 0 && top(s, 0, x)
}
/// w is in the part of the stack that starts at b
pub open spec fn top(s: SCC, b: int, w: int) -> bool { exists|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == w }
#[verifier::opaque]
pub open spec fn lows(g: Seq<Vec<usize>>, s: SCC) -> bool {
    forall|x: int| 0 <= x < g.len() && #[trigger] s.on_stack@[x] ==> lowok(g, s, x)
}
#[verifier::opaque]
pub open spec fn fin(g: Seq<Vec<usize>>, s: SCC) -> bool {
    &&& comps(g, s.component@)
    &&& forall|x: int| 0 <= x < g.len() ==> (#[trigger] done(s.component@, x, s.component@.len() as int) <==> s.order@[x] != -1 && !s.on_stack@[x])
}
pub open spec fn basic(g: Seq<Vec<usize>>, s: SCC) -> bool { nums(g, s) && lows(g, s) && fin(g, s) }
/// what was on the stack stays as it was, numbers are kept
pub open spec fn kept(g: Seq<Vec<usize>>, s0: SCC, s: SCC) -> bool {
    &&& s0.stack@.len() <= s.stack@.len() && s.stack@.take(s0.stack@.len() as int) =~= s0.stack@
    &&& s0.pos <= s.pos
    &&& forall|x: int| 0 <= x < g.len() && #[trigger] s0.order@[x] != -1 ==> s.order@[x] == s0.order@[x]
    &&& forall|x: int| 0 <= x < g.len() && #[trigger] s0.on_stack@[x] ==> s.low@[x] == s0.low@[x] && s.on_stack@[x]
    &&& forall|x: int| 0 <= x < g.len() && #[trigger] s0.order@[x] != -1 && !s0.on_stack@[x] ==> !s.on_stack@[x]
}
/// y is known, and if it is on the stack its number is at least l
pub open spec fn seen(s: SCC, y: int, l: i32) -> bool { s.order@[y] != -1 && (s.on_stack@[y] ==> l <= s.order@[y]) }
/// the edges of x lead to vertices seen
pub open spec fn out_ok(g: Seq<Vec<usize>>, s: SCC, x: int, l: i32) -> bool { forall|y: int| #[trigger] edge(g, x, y) ==> seen(s, y, l) }
/// w reaches the first b entries of the stack
pub open spec fn down(g: Seq<Vec<usize>>, s: SCC, w: int, b: int) -> bool { exists|j: int| 0 <= j < b && reach(g, w, (#[trigger] s.stack@[j]) as int) }
/// while u, the entry b of the stack, is being searched and k of its edges are through; edges down the stack lead to l or more
#[verifier::opaque]
pub open spec fn frame(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int, k: int, l: i32) -> bool {
    let b = s0.stack@.len() as int;
    &&& basic(g, s) && nums(g, s0) && kept(g, s0, s) && 0 <= u < g.len() && 0 <= k <= g[u]@.len()
    &&& b < s.stack@.len() && s.stack@[b] == u && s.order@[u] == s0.pos && s0.pos < s.pos && s0.order@[u] == -1 && !s0.on_stack@[u]
    &&& forall|i: int| b <= i < s.stack@.len() ==> reach(g, u, (#[trigger] s.stack@[i]) as int)
    &&& forall|i: int| b < i < s.stack@.len() ==> down(g, s, (#[trigger] s.stack@[i]) as int, b + 1) && out_ok(g, s, s.stack@[i] as int, l)
    &&& forall|i: int| 0 <= i < k ==> seen(s, (#[trigger] g[u]@[i]) as int, l)
}
/// the search from u is through
#[verifier::opaque]
pub open spec fn after(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int) -> bool {
    let b = s0.stack@.len() as int;
    &&& basic(g, s) && kept(g, s0, s) && 0 <= u < g.len() && s.order@[u] != -1 && s0.pos < s.pos
    &&& b < s.stack@.len() ==> s.stack@[b] == u
    &&& forall|i: int| b <= i < s.stack@.len() ==> reach(g, u, (#[trigger] s.stack@[i]) as int) && down(g, s, s.stack@[i] as int, b) && out_ok(g, s, s.stack@[i] as int, s.low@[u])
}
pub proof fn lemma_shape(g: Seq<Vec<usize>>, s: SCC)
    requires basic(g, s),
    ensures
        s.order@.len() == g.len(), s.low@.len() == g.len(), s.on_stack@.len() == g.len(), gok(g), 0 <= s.pos <= g.len() <= i32::MAX,
        forall|x: int| 0 <= x < g.len() && #[trigger] s.order@[x] == -1 ==> s.pos < g.len(),
{
    reveal(nums);
    lemma_count_bounds(found(s.order@));
    let all = Seq::new(g.len(), |i: int| true);
    lemma_count_mono(found(s.order@), all);
    lemma_count_bounds(all);
    assert forall|x: int| 0 <= x < g.len() && #[trigger] s.order@[x] == -1 implies s.pos < g.len() by {
        assert(!found(s.order@)[x] && all[x]);
    }
}
pub open spec fn entered(s0: SCC, s: SCC, u: int) -> bool {
    &&& s0.order@[u] == -1 && s.component@ == s0.component@
    &&& s.order@ == s0.order@.update(u, s0.pos) && s.low@ == s0.low@.update(u, s0.pos) && s.pos == s0.pos + 1
    &&& s.stack@ == s0.stack@.push(u as usize) && s.on_stack@ == s0.on_stack@.update(u, true)
}
pub proof fn lemma_enter_nums(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int)
    requires nums(g, s0), 0 <= u < g.len(), entered(s0, s, u), u <= usize::MAX,
    ensures nums(g, s), !s0.on_stack@[u],
{
    reveal(nums);
    lemma_count_up(s0.order@, s.order@, u);
    lemma_count_bounds(found(s0.order@));
    assert(!s0.on_stack@[u]);
    assert forall|i: int| 0 <= i < s.stack@.len() implies (#[trigger] s.stack@[i]) < g.len() && s.on_stack@[s.stack@[i] as int] by {
        if i < s0.stack@.len() { assert(s.stack@[i] == s0.stack@[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.stack@.len() implies s.order@[(#[trigger] s.stack@[i]) as int] < s.order@[(#[trigger] s.stack@[j]) as int] by {
        assert(s.stack@[i] == s0.stack@[i]);
        assert(s0.on_stack@[s0.stack@[i] as int]);
        if j < s0.stack@.len() { assert(s.stack@[j] == s0.stack@[j]); assert(s0.on_stack@[s0.stack@[j] as int]); }
    }
    assert forall|x: int| 0 <= x < g.len() && #[trigger] s.on_stack@[x] implies s.order@[x] >= 0 && top(s, 0, x) by {
        if x != u {
            assert(s0.on_stack@[x]);
            let i = choose|i: int| 0 <= i < s0.stack@.len() && (#[trigger] s0.stack@[i]) == x;
            assert(s.stack@[i] == x);
        } else {
            assert(s.stack@[s0.stack@.len() as int] == u);
        }
    }
}
pub proof fn lemma_enter(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int)
    requires basic(g, s0), 0 <= u < g.len(), entered(s0, s, u), u <= usize::MAX,
    ensures frame(g, s0, s, u, 0, s.low@[u]),
{
    lemma_shape(g, s0);
    lemma_enter_nums(g, s0, s, u);
    lemma_reach_refl(g, u);
    assert(lows(g, s)) by {
        reveal(lows);
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s.on_stack@[x] implies lowok(g, s, x) by {
            if x != u {
                assert(s0.on_stack@[x]);
                assert(lowok(g, s0, x));
                let y = choose|y: int| 0 <= y < g.len() && #[trigger] s0.on_stack@[y] && s0.order@[y] == s0.low@[x] && reach(g, x, y);
                assert(s.on_stack@[y]);
            }
        }
    }
    assert(fin(g, s)) by {
        reveal(fin);
        assert forall|x: int| 0 <= x < g.len() implies (#[trigger] done(s.component@, x, s.component@.len() as int) <==> s.order@[x] != -1 && !s.on_stack@[x]) by {
            assert(done(s0.component@, x, s0.component@.len() as int) <==> s0.order@[x] != -1 && !s0.on_stack@[x]);
        }
    }
    reveal(frame);
    assert(s.stack@.take(s0.stack@.len() as int) =~= s0.stack@);
}
pub proof fn lemma_count_up(o1: Seq<i32>, o2: Seq<i32>, u: int)
    requires 0 <= u < o1.len(), o1[u] == -1, o2.len() == o1.len(), o2[u] != -1, forall|i: int| 0 <= i < o1.len() && i != u ==> o2[i] == o1[i],
    ensures count_true(found(o2)) == count_true(found(o1)) + 1,
    decreases o1.len(),
{
    let n = o1.len() - 1;
    assert(found(o1).drop_last() =~= found(o1.drop_last()));
    assert(found(o2).drop_last() =~= found(o2.drop_last()));
    if u < n {
        lemma_count_up(o1.drop_last(), o2.drop_last(), u);
    } else {
        assert(o1.drop_last() =~= o2.drop_last());
    }
}

/// a recursive search from v, the end of edge k of u
pub proof fn lemma_call(g: Seq<Vec<usize>>, s0: SCC, s1: SCC, s2: SCC, u: int, k: int, l: i32, l2: i32, v: int)
    requires
        frame(g, s0, s1, u, k, l), after(g, s1, s2, v), 0 <= k < g[u]@.len(), g[u]@[k] == v, l2 <= l, s2.on_stack@[v] ==> l2 <= s2.low@[v],
    ensures frame(g, s0, s2, u, k, l2), s2.order@[v] != -1, s2.low@[u] == s1.low@[u],
{
    reveal(frame);
    reveal(after);
    lemma_shape(g, s1);
    lemma_shape(g, s2);
    let b = s0.stack@.len() as int;
    let b1 = s1.stack@.len() as int;
    assert forall|i: int| 0 <= i < b1 implies s2.stack@[i] == #[trigger] s1.stack@[i] by { assert(s2.stack@.take(b1)[i] == s1.stack@[i]); }
    assert(s1.on_stack@[u]) by { lemma_pos(g, s1, b, b); }
    assert(s1.order@[u] >= 0) by { reveal(nums); }
    assert(s2.order@[u] == s1.order@[u]);
    assert(kept(g, s0, s2)) by {
        assert(s2.stack@.take(b) =~= s0.stack@) by {
            assert forall|i: int| 0 <= i < b implies s2.stack@[i] == s0.stack@[i] by { assert(s1.stack@.take(b)[i] == s0.stack@[i]); assert(s1.stack@[i] == s0.stack@[i]); }
        }
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s0.order@[x] != -1 implies s2.order@[x] == s0.order@[x] by { assert(s1.order@[x] == s0.order@[x]); }
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s0.on_stack@[x] implies s2.low@[x] == s0.low@[x] && s2.on_stack@[x] by { assert(s1.on_stack@[x]); }
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s0.order@[x] != -1 && !s0.on_stack@[x] implies !s2.on_stack@[x] by { assert(s1.order@[x] != -1); assert(!s1.on_stack@[x]); }
    }
    assert(edge(g, u, v));
    lemma_reach_edge(g, u, v);
    assert forall|y: int, ll: i32| 0 <= y < g.len() && l2 <= ll && #[trigger] seen(s1, y, ll) implies seen(s2, y, l2) by {
        assert(s1.order@[y] != -1);
        assert(s2.order@[y] == s1.order@[y]);
    }
    assert forall|i: int| b <= i < s2.stack@.len() implies reach(g, u, (#[trigger] s2.stack@[i]) as int) by {
        if i < b1 { assert(s2.stack@[i] == s1.stack@[i]); } else { lemma_reach_trans(g, u, v, s2.stack@[i] as int); }
    }
    assert forall|i: int| b < i < s2.stack@.len() implies down(g, s2, (#[trigger] s2.stack@[i]) as int, b + 1) && out_ok(g, s2, s2.stack@[i] as int, l2) by {
        let w = s2.stack@[i] as int;
        if i < b1 {
            assert(s2.stack@[i] == s1.stack@[i]);
            assert(down(g, s1, w, b + 1) && out_ok(g, s1, w, l));
            let j = choose|j: int| 0 <= j < b + 1 && reach(g, w, (#[trigger] s1.stack@[j]) as int);
            assert(s2.stack@[j] == s1.stack@[j]);
            assert forall|y: int| #[trigger] edge(g, w, y) implies seen(s2, y, l2) by { assert(seen(s1, y, l)); }
        } else {
            assert(down(g, s2, w, b1) && out_ok(g, s2, w, s2.low@[v]));
            assert(b1 < s2.stack@.len() && s2.stack@[b1] == v);
            assert(s2.on_stack@[v]) by { lemma_pos(g, s2, b1, b1); }
            assert forall|y: int| #[trigger] edge(g, w, y) implies seen(s2, y, l2) by { assert(seen(s2, y, s2.low@[v])); }
            let j = choose|j: int| 0 <= j < b1 && reach(g, w, (#[trigger] s2.stack@[j]) as int);
            assert(s2.stack@[j] == s1.stack@[j]);
            if j > b {
                let z = s1.stack@[j] as int;
                assert(down(g, s1, z, b + 1));
                let j2 = choose|j2: int| 0 <= j2 < b + 1 && reach(g, z, (#[trigger] s1.stack@[j2]) as int);
                assert(s2.stack@[j2] == s1.stack@[j2]);
                lemma_reach_trans(g, w, z, s2.stack@[j2] as int);
            }
        }
    }
    assert forall|i: int| 0 <= i < k implies seen(s2, (#[trigger] g[u]@[i]) as int, l2) by { assert(seen(s1, g[u]@[i] as int, l)); }
    assert(s2.stack@[b] == s1.stack@[b]);
}
pub proof fn lemma_visit_nums(g: Seq<Vec<usize>>, s2: SCC, s3: SCC)
    requires nums(g, s2), s3.order@ == s2.order@, s3.on_stack@ == s2.on_stack@, s3.stack@ == s2.stack@, s3.pos == s2.pos, s3.low@.len() == s2.low@.len(),
    ensures nums(g, s3),
{
    reveal(nums);
    assert forall|x: int| 0 <= x < g.len() && #[trigger] s3.on_stack@[x] implies s3.order@[x] >= 0 && top(s3, 0, x) by {
        assert(top(s2, 0, x));
        let i = choose|i: int| 0 <= i < s2.stack@.len() && (#[trigger] s2.stack@[i]) == x;
        assert(s3.stack@[i] == x);
    }
}
/// low[u] becomes l2, the minimum with low[v] for a v on the stack
pub proof fn lemma_visit(g: Seq<Vec<usize>>, s0: SCC, s2: SCC, s3: SCC, u: int, k: int, l: i32, v: int)
    requires
        frame(g, s0, s2, u, k, l), 0 <= k < g[u]@.len(), g[u]@[k] == v, s2.order@[v] != -1, s3.low@[u] <= l,
        s3.order@ == s2.order@, s3.on_stack@ == s2.on_stack@, s3.stack@ == s2.stack@, s3.pos == s2.pos, s3.component@ == s2.component@,
        s3.low@ == s2.low@.update(u, if s2.on_stack@[v] && s2.low@[v] < s2.low@[u] { s2.low@[v] } else { s2.low@[u] }),
    ensures frame(g, s0, s3, u, k + 1, s3.low@[u]),
{
    assert(basic(g, s2)) by { reveal(frame); }
    lemma_shape(g, s2);
    reveal(frame);
    let b = s0.stack@.len() as int;
    let l2 = s3.low@[u];
    assert(edge(g, u, v));
    lemma_reach_edge(g, u, v);
    assert(s2.on_stack@[u]) by { lemma_pos(g, s2, b, b); }
    assert(lowok(g, s2, u)) by { reveal(lows); }
    assert(s2.on_stack@[v] ==> lowok(g, s2, v)) by { reveal(lows); }
    assert(nums(g, s3)) by { lemma_visit_nums(g, s2, s3); }
    assert(fin(g, s3)) by { reveal(fin); }
    assert(lows(g, s3)) by {
        reveal(lows);
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s3.on_stack@[x] implies lowok(g, s3, x) by {
            assert(lowok(g, s2, x));
            if x != u || !(s2.on_stack@[v] && s2.low@[v] < s2.low@[u]) {
                let y = choose|y: int| 0 <= y < g.len() && #[trigger] s2.on_stack@[y] && s2.order@[y] == s2.low@[x] && reach(g, x, y);
                assert(s3.on_stack@[y]);
            } else {
                let y = choose|y: int| 0 <= y < g.len() && #[trigger] s2.on_stack@[y] && s2.order@[y] == s2.low@[v] && reach(g, v, y);
                assert(s3.on_stack@[y]);
                lemma_reach_trans(g, u, v, y);
            }
        }
    }
    assert(kept(g, s0, s3));
    assert forall|y: int| 0 <= y < g.len() && #[trigger] seen(s2, y, l) implies seen(s3, y, l2) by {}
    assert forall|i: int| b < i < s3.stack@.len() implies down(g, s3, (#[trigger] s3.stack@[i]) as int, b + 1) && out_ok(g, s3, s3.stack@[i] as int, l2) by {
        let w = s2.stack@[i] as int;
        assert(down(g, s2, w, b + 1) && out_ok(g, s2, w, l));
        let j = choose|j: int| 0 <= j < b + 1 && reach(g, w, (#[trigger] s2.stack@[j]) as int);
        assert(reach(g, w, s3.stack@[j] as int));
        assert forall|y: int| #[trigger] edge(g, w, y) implies seen(s3, y, l2) by { assert(seen(s2, y, l)); }
    }
    assert forall|i: int| 0 <= i < k + 1 implies seen(s3, (#[trigger] g[u]@[i]) as int, l2) by {
        if i < k { assert(seen(s2, g[u]@[i] as int, l)); }
    }
}
pub proof fn lemma_pos(g: Seq<Vec<usize>>, s: SCC, x: int, y: int)
    requires nums(g, s), 0 <= x < s.stack@.len(), 0 <= y < s.stack@.len(),
    ensures
        s.order@[s.stack@[x] as int] < s.order@[s.stack@[y] as int] <==> x < y, s.stack@[x] < g.len(), s.on_stack@[s.stack@[x] as int],
        s.stack@[x] == s.stack@[y] ==> x == y,
{
    reveal(nums);
    assert(s.on_stack@[s.stack@[x] as int] && s.on_stack@[s.stack@[y] as int]);
    if x < y {} else if y < x {}
}
/// u stays on the stack: it reaches something further down
pub proof fn lemma_stay(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int)
    requires frame(g, s0, s, u, g[u]@.len() as int, s.low@[u]), s.low@[u] != s.order@[u],
    ensures after(g, s0, s, u),
{
    assert(basic(g, s)) by { reveal(frame); }
    lemma_shape(g, s);
    reveal(frame);
    reveal(after);
    let b = s0.stack@.len() as int;
    lemma_pos(g, s, b, b);
    assert(lowok(g, s, u)) by { reveal(lows); }
    let y = choose|y: int| 0 <= y < g.len() && #[trigger] s.on_stack@[y] && s.order@[y] == s.low@[u] && reach(g, u, y);
    assert(top(s, 0, y)) by { reveal(nums); }
    let iy = choose|i: int| 0 <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == y;
    lemma_pos(g, s, iy, b);
    assert forall|i: int| b <= i < s.stack@.len() implies reach(g, u, (#[trigger] s.stack@[i]) as int) && down(g, s, s.stack@[i] as int, b) && out_ok(g, s, s.stack@[i] as int, s.low@[u]) by {
        let w = s.stack@[i] as int;
        if i == b {
            assert(reach(g, w, s.stack@[iy] as int));
            assert forall|z: int| #[trigger] edge(g, w, z) implies seen(s, z, s.low@[u]) by {
                let k = choose|k: int| 0 <= k < g[u]@.len() && (#[trigger] g[u]@[k]) == z;
                assert(seen(s, g[u]@[k] as int, s.low@[u]));
            }
        } else {
            assert(down(g, s, w, b + 1));
            let j = choose|j: int| 0 <= j < b + 1 && reach(g, w, (#[trigger] s.stack@[j]) as int);
            if j == b {
                lemma_reach_trans(g, w, u, y);
                assert(reach(g, w, s.stack@[iy] as int));
            } else {
                assert(reach(g, w, s.stack@[j] as int));
            }
        }
    }
}
/// u and everything above it on the stack become a component
pub proof fn lemma_pop(g: Seq<Vec<usize>>, s0: SCC, s: SCC, s2: SCC, u: int, c: Vec<usize>)
    requires
        frame(g, s0, s, u, g[u]@.len() as int, s.low@[u]), s.low@[u] == s.order@[u],
        s2.order@ == s.order@, s2.low@ == s.low@, s2.pos == s.pos, s2.stack@ == s0.stack@, s2.component@ == s.component@.push(c),
        s2.on_stack@.len() == s.on_stack@.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] s2.on_stack@[x] == (s.on_stack@[x] && !top(s, s0.stack@.len() as int, x)),
        c@.len() == s.stack@.len() - s0.stack@.len(), forall|a: int| 0 <= a < c@.len() ==> #[trigger] c@[a] == s.stack@[s.stack@.len() - 1 - a],
    ensures after(g, s0, s2, u),
{
    assert(basic(g, s)) by { reveal(frame); }
    lemma_shape(g, s);
    reveal(frame);
    reveal(after);
    let b = s0.stack@.len() as int;
    let len = s.stack@.len() as int;
    let m = s.component@.len() as int;
    let c1 = s.component@;
    let c2 = s2.component@;
    lemma_pos(g, s, b, b);
    assert forall|w: int| #[trigger] top(s, b, w) implies 0 <= w < g.len() && s.on_stack@[w] && s.order@[w] >= s.order@[u] && reach(g, u, w) by {
        let i = choose|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == w;
        lemma_pos(g, s, i, b);
    }
    assert(top(s, b, u));
    // no edge leaves the top part and the finished components
    assert forall|w: int, y: int| #[trigger] edge(g, w, y) && top(s, b, w) implies top(s, b, y) || done(c1, y, m) by {
        let i = choose|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == w;
        assert(seen(s, y, s.low@[u])) by {
            if i == b {
                let k = choose|k: int| 0 <= k < g[u]@.len() && (#[trigger] g[u]@[k]) == y;
                assert(seen(s, g[u]@[k] as int, s.low@[u]));
            } else {
                assert(out_ok(g, s, s.stack@[i] as int, s.low@[u]));
            }
        }
        if s.on_stack@[y] {
            assert(top(s, 0, y)) by { reveal(nums); }
            let iy = choose|i: int| 0 <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == y;
            lemma_pos(g, s, iy, b);
            assert(s.stack@[iy] == y);
        } else {
            reveal(fin);
            assert(done(c1, y, m) <==> s.order@[y] != -1 && !s.on_stack@[y]);
        }
    }
    assert forall|x: int, y: int| #[trigger] edge(g, x, y) && done(c1, x, m) implies done(c1, y, m) by {
        reveal(fin);
        reveal(comps);
        let i = choose|i: int| i < m && in_comp(c1, x, i);
        assert(done(c1, y, i + 1));
        let j = choose|j: int| j < i + 1 && in_comp(c1, y, j);
        assert(j < m && in_comp(c1, y, j));
    }
    let a = |w: int| top(s, b, w) || done(c1, w, m);
    assert forall|w: int| #[trigger] top(s, b, w) implies reach(g, w, u) by {
        let i = choose|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == w;
        if i == b {
            lemma_reach_refl(g, u);
        } else {
            assert(down(g, s, w, b + 1));
            let j = choose|j: int| 0 <= j < b + 1 && reach(g, w, (#[trigger] s.stack@[j]) as int);
            if j < b {
                let z = s.stack@[j] as int;
                lemma_closed_reach(g, a, w, z);
                lemma_pos(g, s, j, b);
                assert(!done(c1, z, m)) by { reveal(fin); }
                let iz = choose|iz: int| b <= iz < s.stack@.len() && (#[trigger] s.stack@[iz]) == z;
                lemma_pos(g, s, j, iz);
            }
        }
    }
    // membership in the new list of components
    assert forall|x: int, i: int| i != m implies #[trigger] in_comp(c2, x, i) == in_comp(c1, x, i) by {
        if 0 <= i < m { assert(c2[i] == c1[i]); }
    }
    assert forall|x: int| #[trigger] in_comp(c2, x, m) == top(s, b, x) by {
        assert(c2[m] == c);
        if in_comp(c2, x, m) {
            let q = choose|q: int| 0 <= q < c@.len() && (#[trigger] c@[q]) == x;
            assert(s.stack@[len - 1 - q] == x);
        }
        if top(s, b, x) {
            let i = choose|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == x;
            assert(c@[len - 1 - i] == x);
        }
    }
    assert forall|x: int, k: int| k <= m implies #[trigger] done(c2, x, k) == done(c1, x, k) by {
        if done(c1, x, k) { let i = choose|i: int| i < k && in_comp(c1, x, i); assert(in_comp(c2, x, i)); }
        if done(c2, x, k) { let i = choose|i: int| i < k && in_comp(c2, x, i); assert(in_comp(c1, x, i)); }
    }
    assert forall|x: int| #[trigger] done(c2, x, m + 1) == (done(c1, x, m) || top(s, b, x)) by {
        if done(c1, x, m) { let i = choose|i: int| i < m && in_comp(c1, x, i); assert(in_comp(c2, x, i)); }
        if top(s, b, x) { assert(in_comp(c2, x, m)); }
        if done(c2, x, m + 1) { let i = choose|i: int| i < m + 1 && in_comp(c2, x, i); if i < m { assert(in_comp(c1, x, i)); } }
    }
    assert(forall|x: int| #[trigger] top(s, b, x) ==> !done(c1, x, m)) by { reveal(fin); }
    assert(comps(g, c2)) by {
        assert(comps(g, c1)) by { reveal(fin); }
        reveal(comps);
        assert forall|i: int| 0 <= i < c2.len() implies (#[trigger] c2[i])@.len() > 0 by { if i < m { assert(c2[i] == c1[i]); } }
        assert forall|x: int, i: int| #[trigger] in_comp(c2, x, i) implies 0 <= x < g.len() by {
            if i == m { assert(top(s, b, x)); } else { assert(in_comp(c1, x, i)); }
        }
        assert forall|x: int, i: int, j: int| #[trigger] in_comp(c2, x, i) && #[trigger] in_comp(c2, x, j) implies i == j by {
            if i == m { assert(top(s, b, x)); } else { assert(in_comp(c1, x, i)); assert(done(c1, x, m)); }
            if j == m { assert(top(s, b, x)); } else { assert(in_comp(c1, x, j)); assert(done(c1, x, m)); }
        }
        assert forall|x: int, y: int, i: int| #[trigger] in_comp(c2, x, i) && #[trigger] in_comp(c2, y, i) implies reach(g, x, y) by {
            if i == m {
                assert(top(s, b, x) && top(s, b, y));
                lemma_reach_trans(g, x, u, y);
            } else {
                assert(in_comp(c1, x, i) && in_comp(c1, y, i));
            }
        }
        assert forall|x: int, y: int, i: int| #[trigger] in_comp(c2, x, i) && #[trigger] edge(g, x, y) implies done(c2, y, i + 1) by {
            if i == m {
                assert(top(s, b, x));
            } else {
                assert(in_comp(c1, x, i));
                assert(done(c1, y, i + 1));
            }
        }
    }
    lemma_pop_basic(g, s0, s, s2, u, c);
    assert(kept(g, s0, s2)) by {
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s0.on_stack@[x] implies s2.low@[x] == s0.low@[x] && s2.on_stack@[x] by {
            assert(s.on_stack@[x]);
            if top(s, b, x) {
                let i = choose|i: int| b <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == x;
                lemma_pos(g, s, i, b);
                assert(s0.order@[x] != -1 && s0.order@[x] < s0.pos) by { reveal(nums); }
                assert(s.order@[x] == s0.order@[x]);
            }
        }
    }
    assert(s2.order@[u] != -1) by { reveal(nums); }
    assert(kept(g, s0, s2));
    assert(s0.pos < s2.pos);
}
pub proof fn lemma_pop_basic(g: Seq<Vec<usize>>, s0: SCC, s: SCC, s2: SCC, u: int, c: Vec<usize>)
    requires
        frame(g, s0, s, u, g[u]@.len() as int, s.low@[u]), s.low@[u] == s.order@[u],
        s2.order@ == s.order@, s2.low@ == s.low@, s2.pos == s.pos, s2.stack@ == s0.stack@, s2.component@ == s.component@.push(c),
        s2.on_stack@.len() == s.on_stack@.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] s2.on_stack@[x] == (s.on_stack@[x] && !top(s, s0.stack@.len() as int, x)),
        comps(g, s2.component@), 
        forall|x: int| #[trigger] done(s2.component@, x, s.component@.len() + 1int) == (done(s.component@, x, s.component@.len() as int) || top(s, s0.stack@.len() as int, x)),
        forall|w: int| #[trigger] top(s, s0.stack@.len() as int, w) ==> 0 <= w < g.len() && s.on_stack@[w] && s.order@[w] >= s.order@[u],
    ensures basic(g, s2),
{
    let b = s0.stack@.len() as int;
    assert(basic(g, s) && kept(g, s0, s) && 0 <= u < g.len() && b < s.stack@.len() && s.stack@[b] == u) by { reveal(frame); }
    lemma_shape(g, s);
    lemma_pop_nums(g, s0, s, s2, u);
    assert(lows(g, s2)) by {
        reveal(lows);
        assert forall|x: int| 0 <= x < g.len() && #[trigger] s2.on_stack@[x] implies lowok(g, s2, x) by {
            assert(s.on_stack@[x] && lowok(g, s, x));
            let y = choose|y: int| 0 <= y < g.len() && #[trigger] s.on_stack@[y] && s.order@[y] == s.low@[x] && reach(g, x, y);
            assert(s.order@[x] < s.order@[u]) by { lemma_below(g, s, b, x); }
            assert(s2.on_stack@[y]);
        }
    }
    assert(fin(g, s2)) by {
        reveal(fin);
        assert forall|x: int| 0 <= x < g.len() implies (#[trigger] done(s2.component@, x, s2.component@.len() as int) <==> s2.order@[x] != -1 && !s2.on_stack@[x]) by {
            assert(done(s.component@, x, s.component@.len() as int) <==> s.order@[x] != -1 && !s.on_stack@[x]);
            if top(s, b, x) { assert(s.on_stack@[x]); assert(s.order@[x] >= 0) by { reveal(nums); } }
        }
    }
}
/// on the stack but not in its top part: below
pub proof fn lemma_below(g: Seq<Vec<usize>>, s: SCC, b: int, x: int)
    requires nums(g, s), 0 <= x < g.len(), s.on_stack@[x], !top(s, b, x), 0 <= b < s.stack@.len(),
    ensures s.order@[x] < s.order@[s.stack@[b] as int],
{
    assert(top(s, 0, x)) by { reveal(nums); }
    let i = choose|i: int| 0 <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == x;
    lemma_pos(g, s, i, b);
}
pub proof fn lemma_pop_nums(g: Seq<Vec<usize>>, s0: SCC, s: SCC, s2: SCC, u: int)
    requires
        nums(g, s), kept(g, s0, s), 0 <= u < g.len(), s.on_stack@.len() == g.len(),
        s2.order@ == s.order@, s2.low@ == s.low@, s2.pos == s.pos, s2.stack@ == s0.stack@,
        s2.on_stack@.len() == s.on_stack@.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] s2.on_stack@[x] == (s.on_stack@[x] && !top(s, s0.stack@.len() as int, x)),
    ensures nums(g, s2),
{
    let b = s0.stack@.len() as int;
    assert forall|i: int| 0 <= i < b implies s.stack@[i] == #[trigger] s0.stack@[i] by { assert(s.stack@.take(b)[i] == s0.stack@[i]); }
    assert forall|i: int| 0 <= i < b implies !top(s, b, (#[trigger] s.stack@[i]) as int) by {
        if top(s, b, s.stack@[i] as int) {
            let j = choose|j: int| b <= j < s.stack@.len() && (#[trigger] s.stack@[j]) == s.stack@[i] as int;
            lemma_pos(g, s, i, j);
        }
    }
    reveal(nums);
    assert forall|i: int| 0 <= i < s2.stack@.len() implies (#[trigger] s2.stack@[i]) < g.len() && s2.on_stack@[s2.stack@[i] as int] by {
        assert(s.stack@[i] == s0.stack@[i]);
        assert(s.on_stack@[s.stack@[i] as int]);
    }
    assert forall|i: int, j: int| 0 <= i < j < s2.stack@.len() implies s2.order@[(#[trigger] s2.stack@[i]) as int] < s2.order@[(#[trigger] s2.stack@[j]) as int] by {
        assert(s.stack@[i] == s0.stack@[i] && s.stack@[j] == s0.stack@[j]);
    }
    assert forall|x: int| 0 <= x < g.len() && #[trigger] s2.on_stack@[x] implies s2.order@[x] >= 0 && top(s2, 0, x) by {
        assert(s.on_stack@[x] && top(s, 0, x));
        let i = choose|i: int| 0 <= i < s.stack@.len() && (#[trigger] s.stack@[i]) == x;
        if i >= b { assert(top(s, b, x)); }
        assert(s2.stack@[i] == x);
    }
}
pub proof fn lemma_frame_shape(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int, k: int, l: i32)
    requires frame(g, s0, s, u, k, l),
    ensures
        basic(g, s), 0 <= u < g.len(), s.order@.len() == g.len(), s.low@.len() == g.len(), s.on_stack@.len() == g.len(), gok(g), s0.pos < s.pos <= g.len(),
        0 <= k <= g[u]@.len(),
{
    reveal(frame);
    lemma_shape(g, s);
}
pub proof fn lemma_after_shape(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int)
    requires after(g, s0, s, u),
    ensures basic(g, s), s.order@.len() == g.len(), s.low@.len() == g.len(), s.on_stack@.len() == g.len(), gok(g), s.pos > s0.pos,
{
    reveal(after);
    lemma_shape(g, s);
}
/// the stack is distinct and u is its entry b
pub proof fn lemma_stack(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int, k: int, l: i32)
    requires frame(g, s0, s, u, k, l),
    ensures
        s0.stack@.len() < s.stack@.len(), s.stack@[s0.stack@.len() as int] == u, s.stack@.take(s0.stack@.len() as int) == s0.stack@,
        forall|i: int| 0 <= i < s.stack@.len() ==> (#[trigger] s.stack@[i]) < g.len(),
        forall|i: int, j: int| 0 <= i < s.stack@.len() && 0 <= j < s.stack@.len() && (#[trigger] s.stack@[i]) == (#[trigger] s.stack@[j]) ==> i == j,
{
    reveal(frame);
    assert forall|i: int| 0 <= i < s.stack@.len() implies (#[trigger] s.stack@[i]) < g.len() by { lemma_pos(g, s, i, i); }
    assert forall|i: int, j: int| 0 <= i < s.stack@.len() && 0 <= j < s.stack@.len() && (#[trigger] s.stack@[i]) == (#[trigger] s.stack@[j]) implies i == j by { lemma_pos(g, s, i, j); }
}

impl SCC {
//@fn graph/tarjan.rs | SCC::new | ret=ret
//@spec
    requires n <= i32::MAX,
    ensures
        ret.pos == 0, ret.stack@.len() == 0, ret.component@.len() == 0, ret.order@.len() == n, ret.low@.len() == n, ret.on_stack@.len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] ret.order@[i]) == -1, forall|i: int| 0 <= i < n ==> !(#[trigger] ret.on_stack@[i]),
//@end
//@fn graph/tarjan.rs | SCC::dfs
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires basic(g@, *old(self)), u < g@.len(), old(self).order@[u as int] == -1,
    ensures after(g@, *old(self), *final(self), u as int),
    decreases g@.len() - old(self).pos,
//@entry
    let ghost s0 = *self;
    let ghost gg = g@;
    let ghost ui = u as int;
    proof { lemma_shape(gg, s0); }
//@at loop0.before
    proof { lemma_enter(gg, s0, *self, ui); }
//@loop 0
    invariant
        gg == g@, ui == u, ui < gg.len(), frame(gg, s0, *self, ui, vx_k0 as int, self.low@[ui]), vx_k0 <= gg[ui]@.len(),
    decreases gg[ui]@.len() - vx_k0,
//@at loop0.head
    let ghost s1 = *self;
    let ghost l1 = self.low@[ui];
    proof {
        lemma_frame_shape(gg, s0, s1, ui, vx_k0 as int, l1);
        assert(gg[ui]@[vx_k0 as int] < gg.len());
    }
//@at if0.after
    let ghost s2 = *self;
    let ghost vi = v as int;
    let ghost l2 = if s2.on_stack@[vi] && s2.low@[vi] < l1 { s2.low@[vi] } else { l1 };
    proof {
        if s1.order@[vi] == -1 {
            lemma_after_shape(gg, s1, s2, vi);
            lemma_call(gg, s0, s1, s2, ui, vx_k0 as int, l1, l2, vi);
        } else {
            assert(s2 == s1);
        }
    }
//@at if1.after
    proof {
        let m = if s2.on_stack@[vi] && s2.low@[vi] < s2.low@[ui] { s2.low@[vi] } else { s2.low@[ui] };
        if s2.on_stack@[vi] { assert(self.low@[ui] == m); } else { assert(s2.low@.update(ui, m) =~= s2.low@); }
        assert(self.low@ =~= s2.low@.update(ui, m));
        lemma_visit(gg, s0, s2, *self, ui, vx_k0 as int, if s1.order@[vi] == -1 { l2 } else { l1 }, vi);
    }
//@at loop0.after
    proof { lemma_frame_shape(gg, s0, *self, ui, gg[ui]@.len() as int, self.low@[ui]); }
//@at if2.then
    let ghost st = *self;
    let ghost b = s0.stack@.len() as int;
    let ghost ss = st.stack@;
    let ghost cc = st.component@;
    proof { lemma_stack(gg, s0, st, ui, gg[ui]@.len() as int, st.low@[ui]); }
//@at loop1.before
    proof { assert(self.component@.drop_last() =~= cc); assert(ss.take(ss.len() as int) =~= ss); }
//@loop 1
    invariant_except_break
        self.stack@.len() > b,
    invariant
        gg == g@, ui == u, ui < gg.len(), b == s0.stack@.len(), b <= self.stack@.len() <= ss.len(), self.stack@ == ss.take(self.stack@.len() as int),
        self.order@ == st.order@, self.low@ == st.low@, self.pos == st.pos, self.component@.len() == cc.len() + 1, self.component@.drop_last() == cc,
        self.component@.last()@.len() == ss.len() - self.stack@.len(),
        forall|a: int| 0 <= a < ss.len() - self.stack@.len() ==> #[trigger] self.component@.last()@[a] == ss[ss.len() - 1 - a],
        self.on_stack@.len() == gg.len(),
        forall|x: int| 0 <= x < gg.len() ==> #[trigger] self.on_stack@[x] == (st.on_stack@[x] && !top(st, self.stack@.len() as int, x)),
    ensures
        self.stack@.len() == b,
    decreases self.stack@.len(),
//@at loop1.head
    let ghost sb = *self;
    let ghost m = self.stack@.len() as int;
//@at loop1.bodyend
    proof {}
//@at if3.before
    proof {
        assert(self.stack@ =~= ss.take(m - 1));
        assert(v == ss[m - 1]);
        assert(self.component@.drop_last() =~= sb.component@.drop_last());
        assert forall|x: int| 0 <= x < gg.len() implies #[trigger] self.on_stack@[x] == (st.on_stack@[x] && !top(st, m - 1, x)) by {
            assert(sb.on_stack@[x] == (st.on_stack@[x] && !top(st, m, x)));
            assert(top(st, m - 1, x) == (top(st, m, x) || x == v)) by {
                if top(st, m - 1, x) {
                    let i = choose|i: int| m - 1 <= i < ss.len() && (#[trigger] ss[i]) == x;
                    if i >= m { assert(ss[i] == x); }
                }
            }
        }
    }
//@at loop1.after
    proof {
        let c = self.component@.last();
        assert(self.component@ =~= cc.push(c));
        assert(self.stack@ =~= s0.stack@);
        lemma_pop(gg, s0, st, *self, ui, c);
    }
//@at if2.after
    proof {
        assert(self.low@[ui] != self.order@[ui] ==> after(gg, s0, *self, ui)) by {
            if self.low@[ui] != self.order@[ui] { lemma_stay(gg, s0, *self, ui); }
        }
    }
//@end
}

pub proof fn lemma_init(g: Seq<Vec<usize>>, s: SCC)
    requires
        g.len() <= i32::MAX, gok(g), s.pos == 0, s.stack@.len() == 0, s.component@.len() == 0,
        s.order@.len() == g.len(), s.low@.len() == g.len(), s.on_stack@.len() == g.len(),
        forall|i: int| 0 <= i < g.len() ==> (#[trigger] s.order@[i]) == -1, forall|i: int| 0 <= i < g.len() ==> !(#[trigger] s.on_stack@[i]),
    ensures basic(g, s),
{
    reveal(nums);
    reveal(lows);
    reveal(fin);
    reveal(comps);
    lemma_none(found(s.order@));
}
pub proof fn lemma_none(p: Seq<bool>)
    requires forall|i: int| 0 <= i < p.len() ==> !(#[trigger] p[i]),
    ensures count_true(p) == 0,
    decreases p.len(),
{
    if p.len() > 0 {
        assert(!p[p.len() - 1]);
        assert forall|i: int| 0 <= i < p.drop_last().len() implies !(#[trigger] p.drop_last()[i]) by { assert(!p[i]); }
        lemma_none(p.drop_last());
    }
}
/// a search that starts with an empty stack leaves it empty
pub proof fn lemma_root(g: Seq<Vec<usize>>, s0: SCC, s: SCC, u: int)
    requires after(g, s0, s, u), s0.stack@.len() == 0,
    ensures s.stack@.len() == 0, s.order@[u] != -1, forall|x: int| 0 <= x < g.len() && s0.order@[x] != -1 ==> (#[trigger] s.order@[x]) != -1,
{
    reveal(after);
    if s.stack@.len() > 0 { assert(down(g, s, s.stack@[0] as int, 0)); }
    assert forall|x: int| 0 <= x < g.len() && s0.order@[x] != -1 implies (#[trigger] s.order@[x]) != -1 by { assert(s.order@[x] == s0.order@[x]); }
}
/// all vertices are in components
pub proof fn lemma_all(g: Seq<Vec<usize>>, s: SCC)
    requires basic(g, s), s.stack@.len() == 0, forall|x: int| 0 <= x < g.len() ==> (#[trigger] s.order@[x]) != -1,
    ensures
        comps(g, s.component@), forall|x: int| 0 <= x < g.len() ==> #[trigger] done(s.component@, x, s.component@.len() as int),
        forall|i: int, a: int| 0 <= i < s.component@.len() && 0 <= a < s.component@[i]@.len() ==> (#[trigger] s.component@[i]@[a]) < g.len(),
{
    reveal(fin);
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] done(s.component@, x, s.component@.len() as int) by {
        if s.on_stack@[x] { assert(top(s, 0, x)) by { reveal(nums); } }
        assert(s.order@[x] != -1);
    }
    reveal(comps);
    assert forall|i: int, a: int| 0 <= i < s.component@.len() && 0 <= a < s.component@[i]@.len() implies (#[trigger] s.component@[i]@[a]) < g.len() by {
        assert(in_comp(s.component@, s.component@[i]@[a] as int, i));
    }
}
/// what scc promises
pub open spec fn scc_ok(g: Seq<Vec<usize>>, cnt: int, color: Seq<usize>) -> bool {
    &&& color.len() == g.len()
    &&& forall|x: int| 0 <= x < g.len() ==> (#[trigger] color[x]) < cnt
    &&& forall|i: int| 0 <= i < cnt ==> #[trigger] used(color, i)
    &&& forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() ==> ((#[trigger] color[x]) == (#[trigger] color[y]) <==> reach(g, x, y) && reach(g, y, x))
    &&& forall|x: int, y: int| #[trigger] edge(g, x, y) ==> color[y] <= color[x]
}
pub open spec fn used(color: Seq<usize>, i: int) -> bool { exists|x: int| 0 <= x < color.len() && (#[trigger] color[x]) == i }
pub proof fn lemma_scc(g: Seq<Vec<usize>>, c: Seq<Vec<usize>>, color: Seq<usize>)
    requires
        comps(g, c), color.len() == g.len(), forall|x: int| 0 <= x < g.len() ==> #[trigger] done(c, x, c.len() as int),
        forall|x: int, i: int| #[trigger] in_comp(c, x, i) ==> color[x] == i,
    ensures scc_ok(g, c.len() as int, color),
{
    reveal(comps);
    assert forall|x: int| 0 <= x < g.len() implies (#[trigger] color[x]) < c.len() && in_comp(c, x, color[x] as int) by {
        assert(done(c, x, c.len() as int));
        let i = choose|i: int| i < c.len() && in_comp(c, x, i);
        assert(in_comp(c, x, i));
    }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] used(color, i) by {
        assert(c[i]@.len() > 0);
        let x = c[i]@[0] as int;
        assert(in_comp(c, x, i));
        assert(color[x] == i);
    }
    assert forall|x: int, y: int| #[trigger] edge(g, x, y) implies color[y] <= color[x] by {
        let i = color[x] as int;
        assert(in_comp(c, x, i));
        assert(done(c, y, i + 1));
        let j = choose|j: int| j < i + 1 && in_comp(c, y, j);
        assert(in_comp(c, y, j));
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && reach(g, x, y) implies (#[trigger] color[y]) <= (#[trigger] color[x]) by {
        let a = |w: int| 0 <= w < g.len() && color[w] <= color[x];
        assert forall|p: int, q: int| #[trigger] edge(g, p, q) && a(p) implies a(q) by {}
        lemma_closed_reach(g, a, x, y);
    }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() implies ((#[trigger] color[x]) == (#[trigger] color[y]) <==> reach(g, x, y) && reach(g, y, x)) by {
        if color[x] == color[y] {
            assert(in_comp(c, x, color[x] as int) && in_comp(c, y, color[x] as int));
        }
    }
}
/// the members of the first m components and the first k of the next have their colour
pub open spec fn colored(c: Seq<Vec<usize>>, color: Seq<usize>, m: int, k: int) -> bool {
    forall|i: int, a: int| 0 <= i < c.len() && 0 <= a < c[i]@.len() && (i < m || i == m && a < k) ==> color[(#[trigger] c[i]@[a]) as int] == i
}
pub proof fn lemma_colored(g: Seq<Vec<usize>>, c: Seq<Vec<usize>>, c1: Seq<usize>, c2: Seq<usize>, m: int, k: int)
    requires
        comps(g, c), colored(c, c1, m, k), 0 <= m < c.len(), 0 <= k < c[m]@.len(), c2 == c1.update(c[m]@[k] as int, m as usize), m <= usize::MAX,
        c1.len() == g.len(), forall|i: int, a: int| 0 <= i < c.len() && 0 <= a < c[i]@.len() ==> (#[trigger] c[i]@[a]) < g.len(),
    ensures colored(c, c2, m, k + 1),
{
    reveal(comps);
    assert forall|i: int, a: int| 0 <= i < c.len() && 0 <= a < c[i]@.len() && (i < m || i == m && a < k + 1) implies c2[(#[trigger] c[i]@[a]) as int] == i by {
        let x = c[i]@[a] as int;
        if x == c[m]@[k] {
            assert(in_comp(c, x, i) && in_comp(c, x, m));
        } else {
            assert(c1[x] == i);
        }
    }
}
pub proof fn lemma_colored_next(c: Seq<Vec<usize>>, color: Seq<usize>, m: int, k: int)
    requires colored(c, color, m, k), 0 <= m < c.len(), k == c[m]@.len(),
    ensures colored(c, color, m + 1, 0),
{
}
//@fn graph/tarjan.rs | scc | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires gok(g@), g@.len() <= i32::MAX,
    ensures scc_ok(g@, ret.0 as int, ret.1@),
//@entry
    let ghost gg = g@;
//@at loop0.before
    proof { lemma_init(gg, graph); }
//@loop 0
    invariant
        gg == g@, n == gg.len(), basic(gg, graph), graph.stack@.len() == 0, forall|x: int| 0 <= x < i ==> (#[trigger] graph.order@[x]) != -1,
    decreases n - i,
//@at loop0.head
    let ghost s1 = graph;
    proof { lemma_shape(gg, graph); }
//@at call:dfs#0.after
    proof { lemma_after_shape(gg, s1, graph, i as int); lemma_root(gg, s1, graph, i as int); }
//@at loop0.after
    proof { lemma_all(gg, graph); }
//@at loop1.before
    let ghost cc = vx_s1@;
//@loop 1
    invariant
        gg == g@, n == gg.len(), vx_s1@ == cc, vx_k1 <= cc.len(), color@.len() == n, colored(cc, color@, vx_k1 as int, 0),
    decreases cc.len() - vx_k1,
//@at loop1.head
    proof { assert(cc[vx_k1 as int]@.len() >= 0); }
//@loop 2
    invariant
        gg == g@, n == gg.len(), vx_s1@ == cc, vx_k1 < cc.len(), color@.len() == n, i == vx_k1, vx_s2@ == cc[vx_k1 as int]@, vx_k2 <= vx_s2@.len(),
        colored(cc, color@, vx_k1 as int, vx_k2 as int),
    decreases vx_s2@.len() - vx_k2,
//@at loop2.before
    proof { assert(vx_s2@ =~= cc[vx_k1 as int]@); }
//@at loop2.head
    let ghost c0 = color@;
    proof { assert(cc[vx_k1 as int]@[vx_k2 as int] < gg.len()); }
//@at loop2.bodyend
    proof { lemma_colored(gg, cc, c0, color@, i as int, vx_k2 as int); }
//@at loop2.after
    proof { lemma_colored_next(cc, color@, vx_k1 as int, vx_k2 as int); }
//@at loop1.after
    proof {
        assert forall|x: int, i: int| #[trigger] in_comp(cc, x, i) implies color@[x] == i by {
            let a = choose|a: int| 0 <= a < cc[i]@.len() && (#[trigger] cc[i]@[a]) == x;
            assert(color@[cc[i]@[a] as int] == i);
        }
        lemma_scc(gg, cc, color@);
    }
//@end
}
