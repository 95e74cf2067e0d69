/// a rooted tree: parent (the root is its own) and depth of every vertex
pub ghost struct Tree {
    pub root: int,
    pub par: Seq<int>,
    pub d: Seq<int>,
}
/// the k-th ancestor of v, along the path to the root
pub open spec fn jump(t: Tree, v: int, k: int) -> int
    decreases k,
{
    if k <= 0 { v } else { t.par[jump(t, v, k - 1)] }
}
/// u lies on the path from v to the root
pub open spec fn tanc(t: Tree, u: int, v: int) -> bool { exists|k: int| k >= 0 && #[trigger] jump(t, v, k) == u }
pub open spec fn tree_ok(t: Tree) -> bool {
    &&& t.par.len() == t.d.len() && 0 <= t.root < t.par.len() && t.par[t.root] == t.root && t.d[t.root] == 0
    &&& forall|v: int| 0 <= v < t.par.len() ==> 0 <= #[trigger] t.par[v] < t.par.len() && (v != t.root ==> t.d[v] == t.d[t.par[v]] + 1)
    &&& forall|v: int| 0 <= v < t.par.len() ==> 0 <= #[trigger] t.d[v]
}
/// w is in the adjacency list of x
pub open spec fn lists(g: Seq<Vec<usize>>, x: int, w: int) -> bool { exists|j: int| 0 <= j < g[x]@.len() && (#[trigger] g[x]@[j]) == w }
/// the adjacency lists hold each child once, and possibly the parent
pub open spec fn lists_tree(g: Seq<Vec<usize>>, t: Tree) -> bool {
    &&& tree_ok(t) && t.par.len() == g.len()
    &&& forall|v: int| 0 <= v < g.len() && v != t.root ==> lists(g, #[trigger] t.par[v], v)
    &&& forall|u: int, j: int| 0 <= u < g.len() && 0 <= j < g[u]@.len() ==>
            (#[trigger] g[u]@[j]) < g.len() && (u != t.root && g[u]@[j] == t.par[u] || g[u]@[j] != t.root && t.par[g[u]@[j] as int] == u)
    &&& forall|u: int, i: int, j: int| 0 <= u < g.len() && 0 <= i < g[u]@.len() && 0 <= j < g[u]@.len() && (#[trigger] g[u]@[i]) == (#[trigger] g[u]@[j]) ==> i == j
}
pub proof fn lemma_troot(t: Tree, v: int)
    requires tree_ok(t), 0 <= v < t.par.len(), t.d[v] == 0,
    ensures v == t.root,
{
    assert(0 <= t.par[v] < t.par.len());
    assert(t.d[t.par[v]] >= 0);
}
pub proof fn lemma_jump(t: Tree, v: int, k: int)
    requires tree_ok(t), 0 <= v < t.par.len(), 0 <= k,
    ensures 0 <= jump(t, v, k) < t.par.len(), t.d[jump(t, v, k)] == if k <= t.d[v] { t.d[v] - k } else { 0 },
    decreases k,
{
    assert(t.d[v] >= 0);
    if k > 0 {
        lemma_jump(t, v, k - 1);
        let w = jump(t, v, k - 1);
        assert(0 <= t.par[w] < t.par.len());
        if t.d[w] == 0 { lemma_troot(t, w); }
    }
}
pub proof fn lemma_jump_add(t: Tree, v: int, a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures jump(t, v, a + b) == jump(t, jump(t, v, a), b),
    decreases b,
{
    if b > 0 { lemma_jump_add(t, v, a, b - 1); }
}
/// u is an ancestor exactly if the jump by the difference of depths leads there
pub proof fn lemma_tanc(t: Tree, u: int, v: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(),
    ensures tanc(t, u, v) <==> t.d[u] <= t.d[v] && jump(t, v, t.d[v] - t.d[u]) == u, tanc(t, u, v) && t.d[u] == t.d[v] ==> u == v,
{
    assert(t.d[u] >= 0);
    if tanc(t, u, v) {
        let k = choose|k: int| k >= 0 && #[trigger] jump(t, v, k) == u;
        lemma_jump(t, v, k);
        if k > t.d[v] {
            lemma_troot(t, u);
            lemma_jump(t, v, t.d[v]);
            lemma_troot(t, jump(t, v, t.d[v]));
        }
    }
}
pub proof fn lemma_tanc_refl(t: Tree, v: int)
    ensures tanc(t, v, v),
{
    assert(jump(t, v, 0) == v);
}
pub proof fn lemma_tanc_trans(t: Tree, a: int, b: int, c: int)
    requires tanc(t, a, b), tanc(t, b, c),
    ensures tanc(t, a, c),
{
    let k = choose|k: int| k >= 0 && #[trigger] jump(t, b, k) == a;
    let l = choose|l: int| l >= 0 && #[trigger] jump(t, c, l) == b;
    lemma_jump_add(t, c, l, k);
    assert(jump(t, c, l + k) == a);
}
/// two ancestors of v are ancestors of each other
pub proof fn lemma_chain_of(t: Tree, a: int, b: int, v: int)
    requires tree_ok(t), 0 <= a < t.par.len(), 0 <= b < t.par.len(), 0 <= v < t.par.len(), tanc(t, a, v), tanc(t, b, v), t.d[a] <= t.d[b],
    ensures tanc(t, a, b),
{
    lemma_tanc(t, a, v);
    lemma_tanc(t, b, v);
    lemma_jump_add(t, v, t.d[v] - t.d[b], t.d[b] - t.d[a]);
    assert(jump(t, b, t.d[b] - t.d[a]) == a);
}
/// a proper descendant lies below one child
pub proof fn lemma_child(t: Tree, u: int, x: int) -> (c: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= x < t.par.len(), tanc(t, u, x), u != x,
    ensures 0 <= c < t.par.len(), c != t.root, t.par[c] == u, tanc(t, c, x), t.d[c] == t.d[u] + 1,
{
    lemma_tanc(t, u, x);
    let k = t.d[x] - t.d[u];
    assert(k > 0);
    let c = jump(t, x, k - 1);
    lemma_jump(t, x, k - 1);
    assert(jump(t, x, k) == t.par[c]);
    assert(t.d[u] >= 0);
    c
}
pub proof fn lemma_par_anc(t: Tree, v: int)
    requires tree_ok(t), 0 <= v < t.par.len(),
    ensures tanc(t, t.par[v], v),
{
    assert(jump(t, v, 1) == t.par[jump(t, v, 0)]);
}
/// all vertices are below the root
pub proof fn lemma_root_anc(t: Tree, v: int)
    requires tree_ok(t), 0 <= v < t.par.len(),
    ensures tanc(t, t.root, v),
{
    lemma_jump(t, v, t.d[v]);
    assert(t.d[v] >= 0);
    lemma_troot(t, jump(t, v, t.d[v]));
}
pub proof fn lemma_depth(t: Tree, v: int)
    requires tree_ok(t), 0 <= v < t.par.len(),
    ensures 0 <= t.d[v] < t.par.len(),
{
    let n = t.par.len();
    assert(t.d[v] >= 0);
    let s = Seq::new((t.d[v] + 1) as nat, |k: int| jump(t, v, k));
    let all = Seq::new(n, |i: int| true);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < all.len() && all[s[i]] by { lemma_jump(t, v, i); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] implies i == j by {
        lemma_jump(t, v, i);
        lemma_jump(t, v, j);
    }
    lemma_pigeon(s, all);
    lemma_count_bounds(all);
}

// ---- the vertices below u, and those below its first k children
pub open spec fn below(t: Tree, u: int) -> Seq<bool> { Seq::new(t.par.len(), |x: int| tanc(t, u, x)) }
pub open spec fn size(t: Tree, u: int) -> int { count_true(below(t, u)) }
/// x is u or lies below one of the first k entries of u's list other than its parent
pub open spec fn part(g: Seq<Vec<usize>>, t: Tree, u: int, k: int, x: int) -> bool {
    x == u || exists|i: int| 0 <= i < k && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x)
}
pub open spec fn parts(g: Seq<Vec<usize>>, t: Tree, u: int, k: int) -> Seq<bool> { Seq::new(t.par.len(), |x: int| part(g, t, u, k, x)) }
pub proof fn lemma_count_or(p: Seq<bool>, q: Seq<bool>, r: Seq<bool>)
    requires p.len() == q.len() == r.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] r[i]) == (p[i] || q[i]), forall|i: int| 0 <= i < p.len() ==> !((#[trigger] p[i]) && q[i]),
    ensures count_true(r) == count_true(p) + count_true(q),
    decreases p.len(),
{
    if p.len() > 0 {
        let k = p.len() - 1;
        assert(r[k] == (p[k] || q[k]) && !(p[k] && q[k]));
        assert forall|i: int| 0 <= i < p.drop_last().len() implies (#[trigger] r.drop_last()[i]) == (p.drop_last()[i] || q.drop_last()[i]) by {
            assert(r[i] == (p[i] || q[i]));
        }
        assert forall|i: int| 0 <= i < p.drop_last().len() implies !((#[trigger] p.drop_last()[i]) && q.drop_last()[i]) by {
            assert(!(p[i] && q[i]));
        }
        lemma_count_or(p.drop_last(), q.drop_last(), r.drop_last());
    }
}
pub proof fn lemma_count_one(p: Seq<bool>, u: int)
    requires 0 <= u < p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == (i == u),
    ensures count_true(p) == 1,
    decreases p.len(),
{
    let k = p.len() - 1;
    assert(p[k] == (k == u));
    assert forall|i: int| 0 <= i < p.drop_last().len() implies #[trigger] p.drop_last()[i] == (i == u) by { assert(p[i] == (i == u)); }
    if u < k { lemma_count_one(p.drop_last(), u); } else { lemma_count_zero(p.drop_last()); }
}
pub proof fn lemma_count_zero(p: Seq<bool>)
    requires forall|i: int| 0 <= i < p.len() ==> !(#[trigger] p[i]),
    ensures count_true(p) == 0,
    decreases p.len(),
{
    if p.len() > 0 {
        assert(!p[p.len() - 1]);
        assert forall|i: int| 0 <= i < p.drop_last().len() implies !(#[trigger] p.drop_last()[i]) by { assert(!p[i]); }
        lemma_count_zero(p.drop_last());
    }
}
/// an entry other than the parent is a child
pub proof fn lemma_entry(g: Seq<Vec<usize>>, t: Tree, u: int, k: int)
    requires lists_tree(g, t), 0 <= u < g.len(), 0 <= k < g[u]@.len(),
    ensures
        g[u]@[k] < g.len(), g[u]@[k] != t.par[u] ==> g[u]@[k] != t.root && t.par[g[u]@[k] as int] == u && t.d[g[u]@[k] as int] == t.d[u] + 1 && tanc(t, u, g[u]@[k] as int),
        u == t.root ==> g[u]@[k] != t.par[u],
{
    let v = g[u]@[k] as int;
    assert(v < g.len());
    if v != t.par[u] {
        assert(t.par[v] == u);
        lemma_par_anc(t, v);
    }
}
/// the vertices below the next child are new
pub proof fn lemma_part_new(g: Seq<Vec<usize>>, t: Tree, u: int, k: int, x: int)
    requires lists_tree(g, t), 0 <= u < g.len(), 0 <= k < g[u]@.len(), g[u]@[k] != t.par[u], 0 <= x < g.len(), tanc(t, g[u]@[k] as int, x),
    ensures !part(g, t, u, k, x), part(g, t, u, k + 1, x), x != u, tanc(t, u, x),
{
    let v = g[u]@[k] as int;
    lemma_entry(g, t, u, k);
    lemma_tanc(t, v, x);
    lemma_tanc_trans(t, u, v, x);
    if x != u && part(g, t, u, k, x) {
        let i = choose|i: int| 0 <= i < k && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x);
        lemma_entry(g, t, u, i);
        let c = g[u]@[i] as int;
        lemma_chain_of(t, c, v, x);
        lemma_tanc(t, c, v);
    }
}
pub proof fn lemma_part_step(g: Seq<Vec<usize>>, t: Tree, u: int, k: int)
    requires lists_tree(g, t), 0 <= u < g.len(), 0 <= k < g[u]@.len(),
    ensures
        forall|x: int| 0 <= x < g.len() ==> #[trigger] part(g, t, u, k + 1, x) == (part(g, t, u, k, x) || g[u]@[k] != t.par[u] && tanc(t, g[u]@[k] as int, x)),
        count_true(parts(g, t, u, k + 1)) == count_true(parts(g, t, u, k)) + if g[u]@[k] != t.par[u] { size(t, g[u]@[k] as int) } else { 0 },
{
    let v = g[u]@[k] as int;
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] part(g, t, u, k + 1, x) == (part(g, t, u, k, x) || g[u]@[k] != t.par[u] && tanc(t, v, x)) by {
        if x != u && part(g, t, u, k + 1, x) {
            let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x);
            if i < k { assert(part(g, t, u, k, x)); }
        }
        if x != u && part(g, t, u, k, x) {
            let i = choose|i: int| 0 <= i < k && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x);
            assert(part(g, t, u, k + 1, x));
        }
    }
    if v != t.par[u] {
        assert forall|x: int| 0 <= x < g.len() implies (#[trigger] parts(g, t, u, k + 1)[x]) == (parts(g, t, u, k)[x] || below(t, v)[x]) by {
            assert(part(g, t, u, k + 1, x) == (part(g, t, u, k, x) || tanc(t, v, x)));
        }
        assert forall|x: int| 0 <= x < g.len() implies !((#[trigger] parts(g, t, u, k)[x]) && below(t, v)[x]) by {
            if tanc(t, v, x) { lemma_part_new(g, t, u, k, x); }
        }
        lemma_count_or(parts(g, t, u, k), below(t, v), parts(g, t, u, k + 1));
    } else {
        assert(parts(g, t, u, k + 1) =~= parts(g, t, u, k)) by {
            assert forall|x: int| 0 <= x < g.len() implies parts(g, t, u, k + 1)[x] == parts(g, t, u, k)[x] by { assert(part(g, t, u, k + 1, x) == part(g, t, u, k, x)); }
        }
    }
}
pub proof fn lemma_part_zero(g: Seq<Vec<usize>>, t: Tree, u: int)
    requires 0 <= u < t.par.len(),
    ensures count_true(parts(g, t, u, 0)) == 1, forall|x: int| #[trigger] part(g, t, u, 0, x) == (x == u),
{
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] parts(g, t, u, 0)[x] == (x == u) by { assert(part(g, t, u, 0, x) == (x == u)); }
    lemma_count_one(parts(g, t, u, 0), u);
}
pub proof fn lemma_part_in(g: Seq<Vec<usize>>, t: Tree, u: int, k: int, x: int)
    requires lists_tree(g, t), 0 <= u < g.len(), 0 <= k <= g[u]@.len(), 0 <= x < g.len(), part(g, t, u, k, x),
    ensures tanc(t, u, x),
{
    if x == u {
        lemma_tanc_refl(t, u);
    } else {
        let i = choose|i: int| 0 <= i < k && (#[trigger] g[u]@[i]) != t.par[u] && tanc(t, g[u]@[i] as int, x);
        lemma_entry(g, t, u, i);
        lemma_tanc_trans(t, u, g[u]@[i] as int, x);
    }
}
/// all entries of the list together: everything below u
pub proof fn lemma_part_all(g: Seq<Vec<usize>>, t: Tree, u: int)
    requires lists_tree(g, t), 0 <= u < g.len(),
    ensures
        forall|x: int| 0 <= x < g.len() ==> #[trigger] part(g, t, u, g[u]@.len() as int, x) == tanc(t, u, x),
        count_true(parts(g, t, u, g[u]@.len() as int)) == size(t, u),
{
    let m = g[u]@.len() as int;
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] part(g, t, u, m, x) == tanc(t, u, x) by {
        if tanc(t, u, x) && x != u {
            let c = lemma_child(t, u, x);
            assert(lists(g, t.par[c], c));
            let j = choose|j: int| 0 <= j < g[u]@.len() && (#[trigger] g[u]@[j]) == c;
            assert(g[u]@[j] != t.par[u]) by {
                assert(t.d[u] >= 0);
                assert(0 <= t.par[u] < t.par.len());
                if t.par[u] == c && u == t.root { }
            }
            assert(part(g, t, u, m, x));
        }
        if part(g, t, u, m, x) { lemma_part_in(g, t, u, m, x); }
    }
    assert(parts(g, t, u, m) =~= below(t, u)) by {
        assert forall|x: int| 0 <= x < g.len() implies parts(g, t, u, m)[x] == below(t, u)[x] by { assert(part(g, t, u, m, x) == tanc(t, u, x)); }
    }
}
pub proof fn lemma_part_le(g: Seq<Vec<usize>>, t: Tree, u: int, k: int)
    requires lists_tree(g, t), 0 <= u < g.len(), 0 <= k <= g[u]@.len(),
    ensures count_true(parts(g, t, u, k)) <= size(t, u) <= g.len(),
{
    assert forall|x: int| 0 <= x < g.len() && parts(g, t, u, k)[x] implies below(t, u)[x] by { lemma_part_in(g, t, u, k, x); }
    lemma_count_mono(parts(g, t, u, k), below(t, u));
    lemma_count_bounds(below(t, u));
}
