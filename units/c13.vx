//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/pigeon.vx
//@struct graph/bipartite_matching.rs | AugmentedPath

/// u v is an edge of the graph
pub open spec fn edge(g: Seq<Vec<usize>>, u: int, v: usize) -> bool {
    0 <= u < g.len() && g[u]@.contains(v)
}
/// a matching: edges of the graph, no two of which share an endpoint
pub open spec fn is_matching(g: Seq<Vec<usize>>, m: Seq<(usize, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> edge(g, (#[trigger] m[i]).0 as int, m[i].1)
    &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 && m[i].1 != m[j].1
}
pub open spec fn gok(g: Seq<Vec<usize>>, m: int) -> bool {
    forall|u: int, j: int| 0 <= u < g.len() && 0 <= j < g[u]@.len() ==> #[trigger] g[u]@[j] < m
}
/// every matched left vertex is matched along an edge, and its partner knows
pub open spec fn lok(g: Seq<Vec<usize>>, l: Seq<Option<usize>>, r: Seq<Option<usize>>) -> bool {
    forall|u: int| 0 <= u < l.len() ==> match #[trigger] l[u] {
        Some(v) => v < r.len() && r[v as int] == Some(u as usize) && edge(g, u, v),
        None => true,
    }
}
/// every matched right vertex but ex is known by its partner
pub open spec fn rok(l: Seq<Option<usize>>, r: Seq<Option<usize>>, ex: Option<usize>) -> bool {
    forall|v: int| 0 <= v < r.len() ==> match #[trigger] r[v] {
        Some(u) => u < l.len() && (Some(v as usize) != ex ==> l[u as int] == Some(v as usize)),
        None => true,
    }
}
/// the search from x is exhausted: each neighbour is matched to a visited vertex
pub open spec fn closed_at(g: Seq<Vec<usize>>, r: Seq<Option<usize>>, vis: Seq<bool>, x: int) -> bool {
    forall|j: int| 0 <= j < g[x]@.len() ==> match r[(#[trigger] g[x]@[j]) as int] {
        Some(y) => y < vis.len() && vis[y as int],
        None => false,
    }
}
pub open spec fn matched(l: Seq<Option<usize>>) -> Seq<bool> {
    Seq::new(l.len(), |i: int| l[i].is_some())
}
pub open spec fn unvis(vis: Seq<bool>) -> Seq<bool> {
    Seq::new(vis.len(), |i: int| !vis[i])
}
pub proof fn lemma_closed_mono(g: Seq<Vec<usize>>, r: Seq<Option<usize>>, v1: Seq<bool>, v2: Seq<bool>, x: int)
    requires closed_at(g, r, v1, x), v1.len() == v2.len(), forall|i: int| 0 <= i < v1.len() && v1[i] ==> v2[i],
    ensures closed_at(g, r, v2, x),
{
}
pub proof fn lemma_unvis(v1: Seq<bool>, v2: Seq<bool>, u: int)
    requires v1.len() == v2.len(), forall|i: int| 0 <= i < v1.len() && v1[i] ==> v2[i], 0 <= u < v1.len(), !v1[u], v2[u],
    ensures 0 <= count_true(unvis(v2)) < count_true(unvis(v1)),
{
    lemma_count_bounds(unvis(v2));
    lemma_count_mono(unvis(v2), unvis(v1));
    assert(!unvis(v2)[u] && unvis(v1)[u]);
}
/// the edges of the current matching, in order of the left vertex
pub open spec fn the_matching(l: Seq<Option<usize>>, k: int) -> Seq<(usize, usize)>
    decreases k,
{
    if k <= 0 { seq![] } else {
        match l[k - 1] {
            Some(v) => the_matching(l, k - 1).push(((k - 1) as usize, v)),
            None => the_matching(l, k - 1),
        }
    }
}
pub proof fn lemma_the_matching(g: Seq<Vec<usize>>, l: Seq<Option<usize>>, r: Seq<Option<usize>>, k: int)
    requires lok(g, l, r), 0 <= k <= l.len() <= usize::MAX,
    ensures
        is_matching(g, the_matching(l, k)),
        the_matching(l, k).len() == count_true(matched(l).take(k)),
        forall|i: int| 0 <= i < the_matching(l, k).len() ==> (#[trigger] the_matching(l, k)[i]).0 < k && l[the_matching(l, k)[i].0 as int] == Some(the_matching(l, k)[i].1),
    decreases k,
{
    if k > 0 {
        lemma_the_matching(g, l, r, k - 1);
        assert(matched(l).take(k).drop_last() =~= matched(l).take(k - 1));
        let a = the_matching(l, k - 1);
        let b = the_matching(l, k);
        if let Some(v) = l[k - 1] {
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).1 != v by {
                assert(l[a[i].0 as int] == Some(a[i].1));
            }
        }
    }
}
/// no matching is larger than one whose search is exhausted (Koenig's cover)
pub proof fn lemma_maximum(g: Seq<Vec<usize>>, l: Seq<Option<usize>>, r: Seq<Option<usize>>, vis: Seq<bool>, m: Seq<(usize, usize)>)
    requires
        is_matching(g, m), lok(g, l, r), rok(l, r, None), l.len() == g.len(), vis.len() == g.len(), gok(g, r.len() as int),
        forall|x: int| 0 <= x < l.len() && l[x].is_none() ==> vis[x],
        forall|x: int| 0 <= x < l.len() && vis[x] ==> #[trigger] closed_at(g, r, vis, x),
    ensures m.len() <= count_true(matched(l)),
{
    let s = Seq::new(m.len(), |i: int| if vis[m[i].0 as int] { r[m[i].1 as int].unwrap() as int } else { m[i].0 as int });
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < l.len() && matched(l)[s[i]]
        && (vis[m[i].0 as int] ==> vis[s[i]] && l[s[i]] == Some(m[i].1)) && m[i].0 < l.len() by {
        let (u, v) = m[i];
        assert(edge(g, u as int, v));
        let j = choose|j: int| 0 <= j < g[u as int]@.len() && g[u as int]@[j] == v;
        if vis[u as int] {
            assert(closed_at(g, r, vis, u as int));
            assert(r[g[u as int]@[j] as int].is_some());
        }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] implies i == j by {
        if i != j {
            assert(m[i].0 != m[j].0 && m[i].1 != m[j].1);
        }
    }
    lemma_pigeon(s, matched(l));
}

impl AugmentedPath {
    /// the matching is consistent, along edges of the graph
    pub closed spec fn wf(&self) -> bool {
        &&& self.l.len() == self.g.len() && self.vis.len() == self.g.len()
        &&& gok(self.g@, self.r.len() as int)
        &&& lok(self.g@, self.l@, self.r@) && rok(self.l@, self.r@, None)
    }
    pub open spec fn left(&self) -> int { self.g.len() as int }
    pub open spec fn right(&self) -> int { self.r.len() as int }

//@fn graph/bipartite_matching.rs | AugmentedPath::new | ret=ret
//@spec
    ensures ret.wf(), ret.left() == n, ret.right() == m, forall|u: int, v: usize| !edge(ret.g@, u, v),
//@end

//@fn graph/bipartite_matching.rs | AugmentedPath::add_edge
//@spec
    requires old(self).wf(), u < old(self).left(), v < old(self).right(),
    ensures
        final(self).wf(), final(self).left() == old(self).left(), final(self).right() == old(self).right(),
        forall|a: int, b: usize| #[trigger] edge(final(self).g@, a, b) <==> edge(old(self).g@, a, b) || (a == u && b == v),
//@exit
    proof {
        let g0 = old(self).g@;
        let g1 = self.g@;
        assert(g1[u as int]@ =~= g0[u as int]@.push(v));
        assert(g1[u as int]@[g0[u as int]@.len() as int] == v);
        assert forall|a: int, b: usize| edge(g0, a, b) implies #[trigger] edge(g1, a, b) by {
            let j = choose|j: int| 0 <= j < g0[a]@.len() && g0[a]@[j] == b;
            assert(g1[a]@[j] == b);
        }
    }
//@end

//@fn graph/bipartite_matching.rs | AugmentedPath::dfs | ret=ret
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires
        u < g.len(), old(l).len() == g.len(), old(vis).len() == g.len(), gok(g@, old(r).len() as int),
        lok(g@, old(l)@, old(r)@), rok(old(l)@, old(r)@, None),
    ensures
        final(l).len() == old(l).len(), final(r).len() == old(r).len(), final(vis).len() == old(vis).len(),
        forall|x: int| 0 <= x < g.len() && old(vis)@[x] ==> #[trigger] final(vis)@[x],
        final(vis)@[u as int],
        // nothing that was already visited is rematched
        forall|x: int| 0 <= x < g.len() && old(vis)@[x] ==> #[trigger] final(l)@[x] == old(l)@[x],
        forall|v: int| 0 <= v < old(r).len() && old(r)@[v].is_some() && old(vis)@[old(r)@[v].unwrap() as int] ==> #[trigger] final(r)@[v] == old(r)@[v],
        forall|x: int| 0 <= x < g.len() && x != u ==> (#[trigger] final(l)@[x]).is_some() == old(l)@[x].is_some(),
        // success: u gets a new partner
        ret ==> !old(vis)@[u as int] && final(l)@[u as int].is_some() && final(l)@[u as int] != old(l)@[u as int],
        ret ==> lok(g@, final(l)@, final(r)@) && rok(final(l)@, final(r)@, old(l)@[u as int]),
        ret && old(l)@[u as int].is_some() ==> final(r)@[old(l)@[u as int].unwrap() as int] == Some(u),
        // failure: nothing changes and the search is exhausted
        !ret ==> final(l)@ == old(l)@ && final(r)@ == old(r)@,
        !ret ==> forall|x: int| 0 <= x < g.len() && final(vis)@[x] && !old(vis)@[x] ==> #[trigger] closed_at(g@, final(r)@, final(vis)@, x),
    decreases count_true(unvis(old(vis)@)),
//@entry
    let ghost l0 = l@;
    let ghost r0 = r@;
    let ghost vis0 = vis@;
//@loop 0
    invariant
        l@ == l0, r@ == r0, u < g.len(), l.len() == g.len(), vis.len() == g.len(), gok(g@, r.len() as int),
        vis@ == vis0.update(u as int, true), !vis0[u as int],
        forall|j: int| 0 <= j < vx_k0 ==> r@[(#[trigger] g@[u as int]@[j]) as int].is_some(),
    decreases g@[u as int].len() - vx_k0,
//@at loop0.head
    proof { assert(g@[u as int]@[vx_k0 as int] < r.len()); }
//@loop 1
    invariant
        l@ == l0, r@ == r0, u < g.len(), l.len() == g.len(), vis.len() == g.len(), gok(g@, r.len() as int),
        lok(g@, l@, r@), rok(l@, r@, None),
        !vis0[u as int], vis@[u as int], forall|x: int| 0 <= x < g.len() && vis0[x] ==> #[trigger] vis@[x],
        forall|j: int| 0 <= j < g@[u as int]@.len() ==> r@[(#[trigger] g@[u as int]@[j]) as int].is_some(),
        forall|j: int| 0 <= j < vx_k1 ==> vis@[r@[(#[trigger] g@[u as int]@[j]) as int].unwrap() as int],
        forall|x: int| 0 <= x < g.len() && x != u && vis@[x] && !vis0[x] ==> #[trigger] closed_at(g@, r@, vis@, x),
    decreases g@[u as int].len() - vx_k1,
//@at loop1.head
    let ghost vis1 = vis@;
    proof {
        assert(g@[u as int]@[vx_k1 as int] < r.len());
        lemma_unvis(vis0, vis1, u as int);
    }
//@at loop1.tail
    proof {
        assert forall|x: int| 0 <= x < g.len() && x != u && vis@[x] && !vis0[x] implies #[trigger] closed_at(g@, r@, vis@, x) by {
            if vis1[x] { lemma_closed_mono(g@, r@, vis1, vis@, x); }
        }
    }
//@end
//@fn graph/bipartite_matching.rs | AugmentedPath::solve | ret=ret | boolassign
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).g@ == old(self).g@, final(self).right() == old(self).right(),
        exists|m: Seq<(usize, usize)>| is_matching(old(self).g@, m) && m.len() == ret,
        forall|m: Seq<(usize, usize)>| is_matching(old(self).g@, m) ==> m.len() <= ret,
//@entry
    let ghost g0 = self.g@;
    let ghost n = self.g.len() as int;
    let ghost rn = self.r.len() as int;
    let ghost mut l1 = self.l@;
    proof { assert(self.l.len() == n); }
//@loop 0
    invariant
        self.wf(), self.g@ == g0, self.r.len() == rn, n == self.g.len(), n <= usize::MAX,
    ensures
        forall|m: Seq<(usize, usize)>| is_matching(g0, m) ==> m.len() <= count_true(matched(self.l@)),
    decreases n - count_true(matched(self.l@)),
//@at loop0.head
    proof { l1 = self.l@; lemma_count_bounds(matched(l1)); }
//@loop 1
    invariant
        self.wf(), self.g@ == g0, self.r.len() == rn, n == self.g.len(), vx_e0 == n, l1.len() == n,
        forall|x: int| 0 <= x < n && l1[x].is_some() ==> (#[trigger] self.l@[x]).is_some(),
        ok ==> exists|x: int| 0 <= x < n && l1[x].is_none() && (#[trigger] self.l@[x]).is_some(),
        !ok ==> self.l@ == l1
            && (forall|x: int| 0 <= x < i && self.l@[x].is_none() ==> #[trigger] self.vis@[x])
            && (forall|x: int| 0 <= x < n && self.vis@[x] ==> #[trigger] closed_at(g0, self.r@, self.vis@, x)),
    decreases n - i,
//@at loop1.head
    let ghost lb = self.l@;
    let ghost vb = self.vis@;
    let ghost ob = ok;
//@at loop1.tail
    proof {
        if ok {
            if ob {
                let x = choose|x: int| 0 <= x < n && l1[x].is_none() && (#[trigger] lb[x]).is_some();
                assert(self.l@[x].is_some());
            } else {
                assert(l1[i - 1].is_none() && self.l@[i - 1].is_some());
            }
        } else {
            assert forall|x: int| 0 <= x < n && self.vis@[x] implies #[trigger] closed_at(g0, self.r@, self.vis@, x) by {
                if vb[x] { lemma_closed_mono(g0, self.r@, vb, self.vis@, x); }
            }
        }
    }
//@at if1.before
    proof {
        if ok {
            let x = choose|x: int| 0 <= x < n && l1[x].is_none() && (#[trigger] self.l@[x]).is_some();
            lemma_count_mono(matched(l1), matched(self.l@));
            lemma_count_bounds(matched(self.l@));
            assert(!matched(l1)[x] && matched(self.l@)[x]);
        } else {
            assert forall|m: Seq<(usize, usize)>| is_matching(g0, m) implies m.len() <= count_true(matched(self.l@)) by {
                lemma_maximum(g0, self.l@, self.r@, self.vis@, m);
            }
        }
    }
//@at loop0.after
    proof { lemma_the_matching(g0, self.l@, self.r@, n); }
//@loop 2
    invariant
        self.wf(), self.g@ == g0, self.r.len() == rn, n == self.g.len(), vx_e1 == n, 0 <= i <= n,
        ret == count_true(matched(self.l@).take(i as int)), ret <= i,
    decreases n - i,
//@at loop2.head
    proof {
        assert(matched(self.l@).take(i + 1).drop_last() =~= matched(self.l@).take(i as int));
    }
//@at loop2.after
    proof {
        assert(matched(self.l@).take(n) =~= matched(self.l@));
        let m = the_matching(self.l@, n);
        assert(is_matching(old(self).g@, m) && m.len() == ret);
    }
//@end
}
}
