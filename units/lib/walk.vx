// ---- walks along tree edges: what ancestors, distances and paths mean
/// an edge of the tree, in either direction
pub open spec fn tedge(t: Tree, a: int, b: int) -> bool {
    0 <= a < t.par.len() && 0 <= b < t.par.len() && (a != t.root && t.par[a] == b || b != t.root && t.par[b] == a)
}
/// w lists the vertices of a walk from u to v
pub open spec fn walk(t: Tree, w: Seq<int>, u: int, v: int) -> bool {
    &&& w.len() >= 1 && w[0] == u && w[w.len() - 1] == v
    &&& forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < t.par.len()
    &&& forall|i: int| 0 < i < w.len() ==> tedge(t, w[i - 1], #[trigger] w[i])
}
pub open spec fn passes(w: Seq<int>, x: int) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]) == x }
/// x is a vertex of the path between u and v: no walk from u to v avoids it
pub open spec fn onwalks(t: Tree, u: int, v: int, x: int) -> bool { forall|w: Seq<int>| #[trigger] walk(t, w, u, v) ==> passes(w, x) }
/// k is the least number of edges of a walk from u to v
pub open spec fn least_edges(t: Tree, u: int, v: int, k: int) -> bool {
    &&& exists|w: Seq<int>| #[trigger] walk(t, w, u, v) && w.len() == k + 1
    &&& forall|w: Seq<int>| #[trigger] walk(t, w, u, v) ==> w.len() >= k + 1
}
/// the tree edges are the edges of the adjacency lists
pub proof fn lemma_tedge_lists(g: Seq<Vec<usize>>, t: Tree, a: int, b: int)
    requires lists_tree(g, t), 0 <= a < g.len(), 0 <= b < g.len(),
    ensures tedge(t, a, b) <==> lists(g, a, b) || lists(g, b, a),
{
    if lists(g, a, b) { let j = choose|j: int| 0 <= j < g[a]@.len() && (#[trigger] g[a]@[j]) == b; assert(g[a]@[j] < g.len()); }
    if lists(g, b, a) { let j = choose|j: int| 0 <= j < g[b]@.len() && (#[trigger] g[b]@[j]) == a; assert(g[b]@[j] < g.len()); }
    if tedge(t, a, b) {
        if a != t.root && t.par[a] == b { assert(lists(g, t.par[a], a)); } else { assert(lists(g, t.par[b], b)); }
    }
}
/// leaving the vertices below x means stepping from x to its parent
pub proof fn lemma_leave(t: Tree, x: int, a: int, b: int)
    requires tree_ok(t), tedge(t, a, b), tanc(t, x, a), !tanc(t, x, b),
    ensures a == x, x != t.root, b == t.par[x],
{
    if a != t.root && t.par[a] == b {
        let k = choose|k: int| k >= 0 && #[trigger] jump(t, a, k) == x;
        if k == 0 {
            assert(jump(t, a, 0) == a);
        } else {
            lemma_jump_add(t, a, 1, k - 1);
            assert(jump(t, a, 1) == t.par[jump(t, a, 0)]);
            assert(jump(t, b, k - 1) == x);
        }
    } else {
        lemma_par_anc(t, b);
        lemma_tanc_trans(t, x, a, b);
    }
}
/// a walk out of the vertices below x passes x and its parent
pub proof fn lemma_cross(t: Tree, w: Seq<int>, u: int, v: int, x: int)
    requires tree_ok(t), walk(t, w, u, v), tanc(t, x, u), !tanc(t, x, v),
    ensures passes(w, x), passes(w, t.par[x]),
    decreases w.len(),
{
    let n = w.len() as int;
    if n == 1 {
        assert(w[0] == u && w[0] == v);
    } else {
        let p = w[n - 2];
        assert(tedge(t, w[n - 1 - 1], w[n - 1]));
        if tanc(t, x, p) {
            lemma_leave(t, x, p, v);
            assert(w[n - 2] == x && w[n - 1] == t.par[x]);
        } else {
            let w2 = w.drop_last();
            assert forall|i: int| 0 < i < w2.len() implies tedge(t, w2[i - 1], #[trigger] w2[i]) by { assert(tedge(t, w[i - 1], w[i])); }
            lemma_cross(t, w2, u, p, x);
            let i = choose|i: int| 0 <= i < w2.len() && (#[trigger] w2[i]) == x;
            let j = choose|j: int| 0 <= j < w2.len() && (#[trigger] w2[j]) == t.par[x];
            assert(w[i] == x && w[j] == t.par[x]);
        }
    }
}
pub proof fn lemma_reverse(t: Tree, w: Seq<int>, u: int, v: int) -> (r: Seq<int>)
    requires walk(t, w, u, v),
    ensures walk(t, r, v, u), r.len() == w.len(), forall|x: int| passes(r, x) ==> #[trigger] passes(w, x),
{
    let n = w.len() as int;
    let r = Seq::new(w.len(), |i: int| w[n - 1 - i]);
    assert forall|i: int| 0 < i < r.len() implies tedge(t, r[i - 1], #[trigger] r[i]) by { assert(tedge(t, w[n - i - 1], w[n - i])); }
    assert forall|x: int| passes(r, x) implies #[trigger] passes(w, x) by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]) == x;
        assert(w[n - 1 - i] == x);
    }
    r
}
/// u is an ancestor of v exactly if it lies on the path from the root to v
pub proof fn lemma_anc_walks(t: Tree, u: int, v: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(),
    ensures tanc(t, u, v) <==> onwalks(t, t.root, v, u),
{
    lemma_root_anc(t, u);
    lemma_root_anc(t, v);
    if tanc(t, u, v) {
        assert forall|w: Seq<int>| #[trigger] walk(t, w, t.root, v) implies passes(w, u) by {
            if u == t.root {
                assert(w[0] == u);
            } else {
                if tanc(t, u, t.root) { lemma_tanc(t, u, t.root); assert(t.d[u] >= 0); lemma_troot(t, u); }
                let r = lemma_reverse(t, w, t.root, v);
                lemma_cross(t, r, v, t.root, u);
            }
        }
    } else {
        lemma_tanc_refl(t, t.root);
        let w = lemma_path(t, t.root, v, t.root);
        if passes(w, u) {
            let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]) == u;
            if tanc(t, u, t.root) { lemma_tanc(t, u, t.root); assert(t.d[u] >= 0); lemma_troot(t, u); }
        }
    }
}
/// the path up from u to the lowest common ancestor l and down to v
pub proof fn lemma_path(t: Tree, u: int, v: int, l: int) -> (w: Seq<int>)
    requires
        tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), 0 <= l < t.par.len(), tanc(t, l, u), tanc(t, l, v),
    ensures
        walk(t, w, u, v), w.len() == t.d[u] + t.d[v] - 2 * t.d[l] + 1,
        forall|i: int| 0 <= i < w.len() ==> (tanc(t, #[trigger] w[i], u) || tanc(t, w[i], v)) && t.d[w[i]] >= t.d[l],
{
    lemma_tanc(t, l, u);
    lemma_tanc(t, l, v);
    assert(t.d[l] >= 0);
    let a = t.d[u] - t.d[l];
    let b = t.d[v] - t.d[l];
    let w = up_down(t, u, v, a, b);
    assert(jump(t, u, 0) == u && jump(t, v, 0) == v);
    assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < t.par.len() && (tanc(t, w[i], u) || tanc(t, w[i], v)) && t.d[w[i]] >= t.d[l] by {
        lemma_up_down(t, u, v, l, i);
    }
    assert forall|i: int| 0 < i < w.len() implies tedge(t, w[i - 1], #[trigger] w[i]) by { lemma_up_down(t, u, v, l, i); }
    w
}
pub open spec fn up_down(t: Tree, u: int, v: int, a: int, b: int) -> Seq<int> { Seq::new((a + b + 1) as nat, |i: int| if i <= a { jump(t, u, i) } else { jump(t, v, a + b - i) }) }
pub proof fn lemma_up_down(t: Tree, u: int, v: int, l: int, i: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), 0 <= l < t.par.len(), tanc(t, l, u), tanc(t, l, v), 0 <= i <= t.d[u] + t.d[v] - 2 * t.d[l],
    ensures
        ({
            let w = up_down(t, u, v, t.d[u] - t.d[l], t.d[v] - t.d[l]);
            &&& 0 <= w[i] < t.par.len() && (tanc(t, w[i], u) || tanc(t, w[i], v)) && t.d[w[i]] >= t.d[l]
            &&& i > 0 ==> tedge(t, w[i - 1], w[i])
        }),
{
    lemma_tanc(t, l, u);
    lemma_tanc(t, l, v);
    assert(t.d[l] >= 0);
    let a = t.d[u] - t.d[l];
    let b = t.d[v] - t.d[l];
    let w = up_down(t, u, v, a, b);
    if i <= a {
        lemma_jump(t, u, i);
        assert(tanc(t, jump(t, u, i), u));
        if i > 0 {
            lemma_jump(t, u, i - 1);
            assert(jump(t, u, i) == t.par[jump(t, u, i - 1)]);
        }
    } else {
        let k = a + b - i;
        lemma_jump(t, v, k);
        lemma_jump(t, v, k + 1);
        assert(tanc(t, jump(t, v, k), v));
        assert(jump(t, v, k + 1) == t.par[jump(t, v, k)]);
        assert(w[i - 1] == jump(t, v, k + 1));
    }
}
/// the lowest common ancestor lies on every walk
pub proof fn lemma_apex(t: Tree, u: int, v: int, l: int)
    requires
        tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), 0 <= l < t.par.len(), tanc(t, l, u), tanc(t, l, v),
        forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) ==> (#[trigger] t.d[y]) <= t.d[l],
    ensures onwalks(t, u, v, l),
{
    assert forall|w: Seq<int>| #[trigger] walk(t, w, u, v) implies passes(w, l) by {
        if l == u {
            assert(w[0] == l);
        } else {
            let c = lemma_child(t, l, u);
            assert(t.d[c] > t.d[l]);
            assert(!tanc(t, c, v));
            lemma_cross(t, w, u, v, c);
        }
    }
}
/// a walk changes the depth by one in each step
pub proof fn lemma_steps(t: Tree, w: Seq<int>, u: int, v: int, i: int, j: int)
    requires tree_ok(t), walk(t, w, u, v), 0 <= i <= j < w.len(),
    ensures t.d[w[i]] - t.d[w[j]] <= j - i, t.d[w[j]] - t.d[w[i]] <= j - i,
    decreases j - i,
{
    if i < j {
        lemma_steps(t, w, u, v, i, j - 1);
        let a = w[j - 1];
        let b = w[j];
        assert(tedge(t, w[j - 1], w[j]));
        assert(0 <= t.par[a] < t.par.len());
        assert(0 <= t.par[b] < t.par.len());
    }
}
pub proof fn lemma_least(t: Tree, u: int, v: int, l: int)
    requires
        tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), 0 <= l < t.par.len(), tanc(t, l, u), tanc(t, l, v),
        forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) ==> (#[trigger] t.d[y]) <= t.d[l],
    ensures least_edges(t, u, v, t.d[u] + t.d[v] - 2 * t.d[l]),
{
    let p = lemma_path(t, u, v, l);
    lemma_apex(t, u, v, l);
    assert forall|w: Seq<int>| #[trigger] walk(t, w, u, v) implies w.len() >= t.d[u] + t.d[v] - 2 * t.d[l] + 1 by {
        let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]) == l;
        lemma_steps(t, w, u, v, 0, i);
        lemma_steps(t, w, u, v, i, w.len() - 1);
    }
}
/// the vertices of the path: ancestors of u or v no higher than the lowest common ancestor
pub proof fn lemma_on_walks(t: Tree, u: int, v: int, l: int, x: int)
    requires
        tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), 0 <= l < t.par.len(), 0 <= x < t.par.len(), tanc(t, l, u), tanc(t, l, v),
        forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) ==> (#[trigger] t.d[y]) <= t.d[l],
    ensures onwalks(t, u, v, x) <==> (tanc(t, x, u) || tanc(t, x, v)) && tanc(t, l, x),
{
    if onwalks(t, u, v, x) {
        let w = lemma_path(t, u, v, l);
        assert(passes(w, x));
        let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]) == x;
        if tanc(t, x, u) { lemma_chain_of(t, l, x, u); } else { lemma_chain_of(t, l, x, v); }
    }
    if (tanc(t, x, u) || tanc(t, x, v)) && tanc(t, l, x) {
        lemma_apex(t, u, v, l);
        if x != l {
            lemma_tanc(t, l, x);
            if t.d[x] == t.d[l] { assert(x == l); }
            assert(t.d[x] > t.d[l]);
            assert forall|w: Seq<int>| #[trigger] walk(t, w, u, v) implies passes(w, x) by {
                if tanc(t, x, u) {
                    lemma_cross(t, w, u, v, x);
                } else {
                    let r = lemma_reverse(t, w, u, v);
                    lemma_cross(t, r, v, u, x);
                }
            }
        }
    }
}
pub proof fn lemma_lca_exists(t: Tree, u: int, v: int) -> (l: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(),
    ensures
        0 <= l < t.par.len(), tanc(t, l, u), tanc(t, l, v),
        forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) ==> (#[trigger] t.d[y]) <= t.d[l],
    decreases t.d[u],
{
    assert(t.d[u] >= 0);
    lemma_tanc_refl(t, u);
    if tanc(t, u, v) {
        assert forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) implies (#[trigger] t.d[y]) <= t.d[u] by { lemma_tanc(t, y, u); }
        u
    } else {
        if u == t.root { lemma_root_anc(t, v); }
        let p = t.par[u];
        assert(0 <= p < t.par.len());
        assert(t.d[p] >= 0);
        let l = lemma_lca_exists(t, p, v);
        lemma_par_anc(t, u);
        lemma_tanc_trans(t, l, p, u);
        assert forall|y: int| 0 <= y < t.par.len() && tanc(t, y, u) && tanc(t, y, v) implies (#[trigger] t.d[y]) <= t.d[l] by {
            if !tanc(t, y, p) {
                assert(tedge(t, u, p));
                lemma_leave(t, y, u, p);
            }
        }
        l
    }
}
