// ---- u together with everything below the children cs visited so far
pub open spec fn kids_ok(t: Tree, u: int, cs: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> 0 <= (#[trigger] cs[i]) < t.par.len() && cs[i] != t.root && t.par[cs[i]] == u
    &&& forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && (#[trigger] cs[i]) == (#[trigger] cs[j]) ==> i == j
}
pub open spec fn kin(t: Tree, u: int, cs: Seq<int>, x: int) -> bool {
    x == u || exists|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x)
}
pub open spec fn kmask(t: Tree, u: int, cs: Seq<int>) -> Seq<bool> { Seq::new(t.par.len(), |x: int| kin(t, u, cs, x)) }
pub open spec fn is_in(cs: Seq<int>, v: int) -> bool { exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == v }

pub proof fn lemma_kid(t: Tree, u: int, v: int)
    requires tree_ok(t), 0 <= u < t.par.len(), 0 <= v < t.par.len(), v != t.root, t.par[v] == u,
    ensures t.d[v] == t.d[u] + 1, tanc(t, u, v), tanc(t, v, v), !tanc(t, v, u),
{
    lemma_par_anc(t, v);
    lemma_tanc_refl(t, v);
    lemma_tanc(t, v, u);
}
pub proof fn lemma_kin_zero(t: Tree, u: int)
    requires 0 <= u < t.par.len(),
    ensures count_true(kmask(t, u, seq![])) == 1, forall|x: int| #[trigger] kin(t, u, seq![], x) == (x == u), kids_ok(t, u, seq![]),
{
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] kmask(t, u, seq![])[x] == (x == u) by { assert(kin(t, u, seq![], x) == (x == u)); }
    lemma_count_one(kmask(t, u, seq![]), u);
}
/// the vertices below another child are new
pub proof fn lemma_kin_new(t: Tree, u: int, cs: Seq<int>, v: int, x: int)
    requires tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs), 0 <= v < t.par.len(), v != t.root, t.par[v] == u, !is_in(cs, v), 0 <= x < t.par.len(), tanc(t, v, x),
    ensures !kin(t, u, cs, x), x != u, tanc(t, u, x),
{
    lemma_kid(t, u, v);
    lemma_tanc(t, v, x);
    lemma_tanc_trans(t, u, v, x);
    if x != u && kin(t, u, cs, x) {
        let i = choose|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x);
        let c = cs[i];
        lemma_kid(t, u, c);
        lemma_chain_of(t, c, v, x);
        lemma_tanc(t, c, v);
        assert(cs[i] == v);
    }
}
pub proof fn lemma_kin_in(t: Tree, u: int, cs: Seq<int>, x: int)
    requires tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs), kin(t, u, cs, x),
    ensures tanc(t, u, x),
{
    lemma_tanc_refl(t, u);
    if x != u {
        let i = choose|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x);
        lemma_kid(t, u, cs[i]);
        lemma_tanc_trans(t, u, cs[i], x);
    }
}
/// the parent of a vertex below a visited child is u or below that child
pub proof fn lemma_kin_par(t: Tree, u: int, cs: Seq<int>, x: int)
    requires tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs), 0 <= x < t.par.len(), kin(t, u, cs, x), x != u,
    ensures kin(t, u, cs, t.par[x]),
{
    let i = choose|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x);
    let c = cs[i];
    lemma_kid(t, u, c);
    assert(0 <= t.par[x] < t.par.len());
    if x != c {
        lemma_tanc(t, c, x);
        let k = t.d[x] - t.d[c];
        assert(x != t.root) by { assert(t.d[u] >= 0); }
        lemma_jump_add(t, x, 1, k - 1);
        assert(jump(t, x, 1) == t.par[jump(t, x, 0)]);
        assert(jump(t, t.par[x], k - 1) == c);
        assert(tanc(t, cs[i], t.par[x]));
    }
}
/// nothing below an earlier child is an ancestor of something below another one
pub proof fn lemma_kin_apart(t: Tree, u: int, cs: Seq<int>, v: int, x: int, y: int)
    requires
        tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs), 0 <= v < t.par.len(), v != t.root, t.par[v] == u, !is_in(cs, v), 0 <= y < t.par.len(),
        kin(t, u, cs, x), x != u, tanc(t, v, y), tanc(t, x, y),
    ensures false,
{
    let i = choose|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x);
    lemma_tanc_trans(t, cs[i], x, y);
    assert(kin(t, u, cs, y));
    lemma_kin_new(t, u, cs, v, y);
}
pub proof fn lemma_kin_push(t: Tree, u: int, cs: Seq<int>, v: int)
    requires tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs), 0 <= v < t.par.len(), v != t.root, t.par[v] == u, !is_in(cs, v),
    ensures
        kids_ok(t, u, cs.push(v)),
        forall|x: int| #[trigger] kin(t, u, cs.push(v), x) == (kin(t, u, cs, x) || tanc(t, v, x)),
        count_true(kmask(t, u, cs.push(v))) == count_true(kmask(t, u, cs)) + size(t, v),
        count_true(kmask(t, u, cs)) + size(t, v) <= size(t, u) <= t.par.len(), size(t, v) >= 1, count_true(kmask(t, u, cs)) >= 1,
{
    let cs2 = cs.push(v);
    assert forall|x: int| #[trigger] kin(t, u, cs2, x) == (kin(t, u, cs, x) || tanc(t, v, x)) by {
        if kin(t, u, cs2, x) && x != u {
            let i = choose|i: int| 0 <= i < cs2.len() && tanc(t, #[trigger] cs2[i], x);
            if i < cs.len() { assert(cs[i] == cs2[i]); }
        }
        if kin(t, u, cs, x) && x != u {
            let i = choose|i: int| 0 <= i < cs.len() && tanc(t, #[trigger] cs[i], x);
            assert(cs2[i] == cs[i]);
        }
        if tanc(t, v, x) { assert(cs2[cs.len() as int] == v); }
    }
    assert(kids_ok(t, u, cs2)) by {
        assert forall|i: int, j: int| 0 <= i < cs2.len() && 0 <= j < cs2.len() && (#[trigger] cs2[i]) == (#[trigger] cs2[j]) implies i == j by {
            if i < cs.len() { assert(cs2[i] == cs[i]); }
            if j < cs.len() { assert(cs2[j] == cs[j]); }
        }
    }
    assert forall|x: int| 0 <= x < t.par.len() implies (#[trigger] kmask(t, u, cs2)[x]) == (kmask(t, u, cs)[x] || below(t, v)[x]) by {
        assert(kin(t, u, cs2, x) == (kin(t, u, cs, x) || tanc(t, v, x)));
    }
    assert forall|x: int| 0 <= x < t.par.len() implies !((#[trigger] kmask(t, u, cs)[x]) && below(t, v)[x]) by {
        if tanc(t, v, x) { lemma_kin_new(t, u, cs, v, x); }
    }
    lemma_count_or(kmask(t, u, cs), below(t, v), kmask(t, u, cs2));
    lemma_kin_le(t, u, cs2);
    lemma_kin_le(t, u, cs);
    lemma_kin_le(t, v, seq![]);
}
pub proof fn lemma_kin_le(t: Tree, u: int, cs: Seq<int>)
    requires tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs),
    ensures 1 <= count_true(kmask(t, u, cs)) <= size(t, u) <= t.par.len(),
{
    assert forall|x: int| 0 <= x < t.par.len() && kmask(t, u, cs)[x] implies below(t, u)[x] by { lemma_kin_in(t, u, cs, x); }
    lemma_count_mono(kmask(t, u, cs), below(t, u));
    lemma_count_bounds(below(t, u));
    lemma_kin_zero(t, u);
    assert forall|x: int| 0 <= x < t.par.len() && kmask(t, u, seq![])[x] implies kmask(t, u, cs)[x] by { assert(kin(t, u, seq![], x)); }
    lemma_count_mono(kmask(t, u, seq![]), kmask(t, u, cs));
}
/// all children: everything below u
pub proof fn lemma_kin_all(t: Tree, u: int, cs: Seq<int>)
    requires
        tree_ok(t), 0 <= u < t.par.len(), kids_ok(t, u, cs),
        forall|v: int| 0 <= v < t.par.len() && v != t.root && (#[trigger] t.par[v]) == u ==> is_in(cs, v),
    ensures
        forall|x: int| 0 <= x < t.par.len() ==> #[trigger] kin(t, u, cs, x) == tanc(t, u, x),
        count_true(kmask(t, u, cs)) == size(t, u),
{
    assert forall|x: int| 0 <= x < t.par.len() implies #[trigger] kin(t, u, cs, x) == tanc(t, u, x) by {
        if tanc(t, u, x) && x != u {
            let c = lemma_child(t, u, x);
            assert(t.par[c] == u);
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) == c;
            assert(tanc(t, cs[i], x));
        }
        if kin(t, u, cs, x) { lemma_kin_in(t, u, cs, x); }
    }
    assert(kmask(t, u, cs) =~= below(t, u)) by {
        assert forall|x: int| 0 <= x < t.par.len() implies kmask(t, u, cs)[x] == below(t, u)[x] by { assert(kin(t, u, cs, x) == tanc(t, u, x)); }
    }
}
/// each child is in the list of its parent
pub proof fn lemma_listed(g: Seq<Vec<usize>>, t: Tree, u: int, v: int) -> (j: int)
    requires lists_tree(g, t), 0 <= v < g.len(), v != t.root, t.par[v] == u,
    ensures 0 <= j < g[u]@.len(), g[u]@[j] == v, g[u]@[j] != t.par[u],
{
    assert(lists(g, t.par[v], v));
    let j = choose|j: int| 0 <= j < g[u]@.len() && (#[trigger] g[u]@[j]) == v;
    assert(0 <= t.par[v] < g.len());
    lemma_entry(g, t, u, j);
    assert(g[u]@[j] != t.par[u]) by {
        assert(t.d[u] >= 0);
        assert(0 <= t.par[u] < t.par.len());
    }
    j
}
/// the vertices on the path between u and v: above one of them, but not properly above both
pub open spec fn onpath(t: Tree, u: int, v: int, x: int) -> bool {
    (tanc(t, x, u) || tanc(t, x, v)) && forall|c: int| #[trigger] tanc(t, c, u) && tanc(t, c, v) ==> tanc(t, c, x)
}
pub open spec fn path(t: Tree, u: int, v: int) -> Seq<bool> { Seq::new(t.par.len(), |x: int| onpath(t, u, v, x)) }
