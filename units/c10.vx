#![feature(allocator_api)]
//@include lib/head.vx
//@include lib/heap_std.vx
//@include lib/min_heap.vx

pub proof fn lemma_pair()
    ensures
        total_cmp::<Reverse<(usize, usize)>>(),
        forall|x: (usize, usize), y: (usize, usize)| #[trigger] le(Reverse(x), Reverse(y)) ==> y.0 <= x.0,
{
    assert(total_cmp::<(usize, usize)>()) by {
        assert forall|a: (usize, usize), b: (usize, usize)| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == (if a.0 < b.0 { Ordering::Less } else if a.0 > b.0 { Ordering::Greater } else if a.1 < b.1 { Ordering::Less } else if a.1 > b.1 { Ordering::Greater } else { Ordering::Equal }) by {}
    }
    lemma_reverse::<(usize, usize)>();
}

pub open spec fn gok(g: Seq<Vec<(usize, usize)>>) -> bool {
    forall|u: int, j: int| 0 <= u < g.len() && 0 <= j < g[u]@.len() ==> (#[trigger] g[u]@[j]).0 < g.len()
}
/// there is a walk of k edges from s to v of total weight w
pub open spec fn walk(g: Seq<Vec<(usize, usize)>>, s: int, v: int, w: int, k: nat) -> bool
    decreases k,
{
    if k == 0 {
        v == s && w == 0
    } else {
        exists|u: int, j: int| step(g, s, v, w, k, u, j) && walk(g, s, u, w - g[u]@[j].1, (k - 1) as nat)
    }
}
pub open spec fn step(g: Seq<Vec<(usize, usize)>>, s: int, v: int, w: int, k: nat, u: int, j: int) -> bool {
    0 <= u < g.len() && 0 <= j < g[u]@.len() && g[u]@[j].0 == v
}
pub open spec fn reaches(g: Seq<Vec<(usize, usize)>>, s: int, v: int, w: int) -> bool {
    exists|k: nat| walk(g, s, v, w, k)
}
/// path sums fit: each edge that leaves a reachable vertex ends some walk whose weight fits in usize
pub open spec fn fits(g: Seq<Vec<(usize, usize)>>, s: int) -> bool {
    forall|u: int, j: int, w: int| 0 <= u < g.len() && 0 <= j < g[u]@.len() && #[trigger] reaches(g, s, u, w) ==>
        exists|w2: int| reaches(g, s, u, w2) && w2 + (#[trigger] g[u]@[j]).1 <= usize::MAX
}
/// the label of x is at most w
pub open spec fn lab(dis: Seq<Option<usize>>, x: int, w: int) -> bool {
    dis[x].is_some() && dis[x].unwrap() <= w
}
/// the first t edges out of v are relaxed
pub open spec fn relaxed(g: Seq<Vec<(usize, usize)>>, dis: Seq<Option<usize>>, v: int, t: int) -> bool {
    forall|j: int| 0 <= j < t ==> lab(dis, (#[trigger] g[v]@[j]).0 as int, dis[v].unwrap() + g[v]@[j].1)
}
pub open spec fn measure(dis: Seq<Option<usize>>) -> nat
    decreases dis.len(),
{
    if dis.len() == 0 { 0 } else {
        measure(dis.drop_last()) + match dis.last() { Some(d) => d as nat, None => usize::MAX as nat + 1 }
    }
}
pub proof fn lemma_measure(dis: Seq<Option<usize>>, v: int, x: usize)
    requires 0 <= v < dis.len(), dis[v].is_none() || dis[v].unwrap() > x,
    ensures measure(dis.update(v, Some(x))) < measure(dis),
    decreases dis.len(),
{
    if v == dis.len() - 1 {
        assert(dis.update(v, Some(x)).drop_last() =~= dis.drop_last());
    } else {
        assert(dis.update(v, Some(x)).drop_last() =~= dis.drop_last().update(v, Some(x)));
        lemma_measure(dis.drop_last(), v, x);
    }
}
/// every vertex with a label is relaxed or waits in the heap (u: all but the first t edges may be pending)
pub open spec fn pend(g: Seq<Vec<(usize, usize)>>, dis: Seq<Option<usize>>, q: MinHeap<(usize, usize)>, u: int, t: int) -> bool {
    forall|v: int| 0 <= v < g.len() && (#[trigger] dis[v]).is_some() ==>
        q.count((dis[v].unwrap(), v as usize)) > 0 || relaxed(g, dis, v, if v == u { t } else { g[v]@.len() as int })
}
/// labels are weights of walks
pub open spec fn sound(g: Seq<Vec<(usize, usize)>>, s: int, dis: Seq<Option<usize>>) -> bool {
    forall|v: int| 0 <= v < g.len() && (#[trigger] dis[v]).is_some() ==> reaches(g, s, v, dis[v].unwrap() as int)
}
/// a walk is at least as long as the label of its end or as every key waiting
pub proof fn lemma_bound(g: Seq<Vec<(usize, usize)>>, s: int, dis: Seq<Option<usize>>, q: MinHeap<(usize, usize)>, m: int, v: int, w: int, k: nat)
    requires
        gok(g), 0 <= s < g.len(), dis.len() == g.len() <= usize::MAX, lab(dis, s, 0), pend(g, dis, q, -1, 0),
        forall|x: (usize, usize)| #[trigger] q.count(x) > 0 ==> m <= x.0,
        walk(g, s, v, w, k),
    ensures 0 <= v < g.len(), w >= 0, lab(dis, v, w) || w >= m && !(forall|x: (usize, usize)| q.count(x) == 0),
    decreases k,
{
    if k > 0 {
        let (u, j) = choose|u: int, j: int| step(g, s, v, w, k, u, j) && walk(g, s, u, w - g[u]@[j].1, (k - 1) as nat);
        assert(g[u]@[j].0 < g.len());
        lemma_bound(g, s, dis, q, m, u, w - g[u]@[j].1, (k - 1) as nat);
        if lab(dis, u, w - g[u]@[j].1) {
            assert(dis[u].is_some());
            if q.count((dis[u].unwrap(), u as usize)) > 0 {
            } else {
                assert(relaxed(g, dis, u, g[u]@.len() as int));
                assert(lab(dis, g[u]@[j].0 as int, dis[u].unwrap() + g[u]@[j].1));
            }
        }
    }
}
pub proof fn lemma_step(g: Seq<Vec<(usize, usize)>>, s: int, u: int, w: int, j: int)
    requires 0 <= u < g.len(), 0 <= j < g[u]@.len(), reaches(g, s, u, w),
    ensures reaches(g, s, g[u]@[j].0 as int, w + g[u]@[j].1),
{
    let k = choose|k: nat| walk(g, s, u, w, k);
    let w2 = w + g[u]@[j].1;
    assert(step(g, s, g[u]@[j].0 as int, w2, k + 1, u, j) && walk(g, s, u, w2 - g[u]@[j].1, k));
    assert(walk(g, s, g[u]@[j].0 as int, w2, k + 1));
}

pub open spec fn heap_ok(dis: Seq<Option<usize>>, q: MinHeap<(usize, usize)>) -> bool {
    forall|x: (usize, usize)| #[trigger] q.count(x) > 0 ==> x.1 < dis.len() && lab(dis, x.1 as int, x.0 as int)
}
pub proof fn lemma_relax(g: Seq<Vec<(usize, usize)>>, s: int, dis: Seq<Option<usize>>, q: MinHeap<(usize, usize)>, q2: MinHeap<(usize, usize)>, u: int, j: int, d: usize)
    requires
        gok(g), 0 <= s < g.len(), 0 <= u < g.len(), dis.len() == g.len() <= usize::MAX, sound(g, s, dis), lab(dis, s, 0), heap_ok(dis, q), pend(g, dis, q, u, j),
        0 <= j < g[u]@.len(), dis[u] == Some(d), d + g[u]@[j].1 <= usize::MAX,
        dis[g[u]@[j].0 as int].is_none() || dis[g[u]@[j].0 as int].unwrap() > d + g[u]@[j].1,
        forall|x: (usize, usize)| #[trigger] q2.count(x) == q.count(x) + if x == ((d + g[u]@[j].1) as usize, g[u]@[j].0) { 1nat } else { 0nat },
    ensures
        ({
            let e = dis.update(g[u]@[j].0 as int, Some((d + g[u]@[j].1) as usize));
            sound(g, s, e) && lab(e, s, 0) && heap_ok(e, q2) && pend(g, e, q2, u, j + 1) && e[u] == Some(d) && measure(e) < measure(dis)
        }),
{
    let (v, c) = g[u]@[j];
    let x = (d + c) as usize;
    assert(v < g.len());
    let e = dis.update(v as int, Some(x));
    lemma_measure(dis, v as int, x);
    assert(reaches(g, s, u, dis[u].unwrap() as int));
    lemma_step(g, s, u, d as int, j);
    assert(v != u);
    assert forall|a: int, w: int| lab(dis, a, w) implies #[trigger] lab(e, a, w) by {}
    assert forall|y: (usize, usize)| #[trigger] q2.count(y) > 0 implies y.1 < e.len() && lab(e, y.1 as int, y.0 as int) by {
        if q.count(y) > 0 { assert(lab(dis, y.1 as int, y.0 as int)); }
    }
    assert forall|a: int| 0 <= a < g.len() && (#[trigger] e[a]).is_some() implies
        q2.count((e[a].unwrap(), a as usize)) > 0 || relaxed(g, e, a, if a == u { j + 1 } else { g[a]@.len() as int }) by {
        if a == v {
            assert(q2.count((x, v)) > 0);
        } else {
            assert(dis[a].is_some());
            if q.count((dis[a].unwrap(), a as usize)) > 0 {
                assert(q2.count((dis[a].unwrap(), a as usize)) > 0);
            } else {
                assert(relaxed(g, dis, a, if a == u { j } else { g[a]@.len() as int }));
            }
        }
    }
}

//@fn graph/shortest_path.rs | dijkstra | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires gok(g@), s < g.len(), fits(g@, s as int),
    ensures
        ret.len() == g.len(),
        forall|v: int| 0 <= v < g.len() ==> match #[trigger] ret@[v] {
            Some(d) => reaches(g@, s as int, v, d as int) && forall|w: int| #[trigger] reaches(g@, s as int, v, w) ==> d <= w,
            None => forall|w: int| !reaches(g@, s as int, v, w),
        },
//@entry
    let ghost sv = s as int;
    proof { lemma_pair(); }
//@loop 0
    invariant
        dis.len() == g.len(), sound(g@, sv, dis@), pend(g@, dis@, q, -1, 0), lab(dis@, sv, 0), heap_ok(dis@, q),
    ensures
        q.size() == 0,
    decreases measure(dis@), q.size(),
//@at loop0.before
    proof { assert(walk(g@, sv, sv, 0, 0)); assert(reaches(g@, sv, sv, 0)); }
//@at loop0.head
    let ghost q0 = q;
    let ghost dis0 = dis@;
//@at if1.before
    proof {
        assert(q0.count((d, u)) > 0);
        assert(lab(dis@, u as int, d as int));
        assert forall|x: (usize, usize)| #[trigger] q.count(x) > 0 implies q0.count(x) > 0 by {}
        assert forall|x: (usize, usize)| #[trigger] q0.count(x) > 0 implies d <= x.0 by {
            assert(le(Reverse(x), Reverse((d, u))));
        }
    }
//@at loop1.before
    proof {
        assert forall|w: int| reaches(g@, sv, u as int, w) implies d <= w by {
            let k = choose|k: nat| walk(g@, sv, u as int, w, k);
            lemma_bound(g@, sv, dis@, q0, d as int, u as int, w, k);
        }
    }
//@loop 1
    invariant
        dis.len() == g.len(), sound(g@, sv, dis@), pend(g@, dis@, q, u as int, vx_k0 as int), lab(dis@, sv, 0), heap_ok(dis@, q),
        dis@[u as int] == Some(d), u < g.len(),
        forall|w: int| reaches(g@, sv, u as int, w) ==> d <= w,
        measure(dis@) < measure(dis0) || (measure(dis@) == measure(dis0) && q.size() < q0.size()),
    decreases g@[u as int]@.len() - vx_k0,
//@at loop1.head
    let ghost qb = q;
    let ghost db = dis@;
    proof {
        let e = g@[u as int]@[vx_k0 as int];
        assert(e.0 < g.len());
        assert(reaches(g@, sv, u as int, d as int));
    }
//@at loop1.tail
    proof {
        let j = vx_k0 - 1;
        let e = g@[u as int]@[j];
        if db[e.0 as int].is_none() || db[e.0 as int].unwrap() > d + e.1 {
            lemma_relax(g@, sv, db, qb, q, u as int, j, d);
        }
    }
//@at loop0.after
    proof {
        q.lemma_empty();
        assert forall|v: int, w: int| reaches(g@, sv, v, w) implies 0 <= v < g.len() && lab(dis@, v, w) by {
            let k = choose|k: nat| walk(g@, sv, v, w, k);
            lemma_bound(g@, sv, dis@, q, 0, v, w, k);
        }
        assert forall|v: int| 0 <= v < g.len() implies match #[trigger] dis@[v] {
            Some(d) => reaches(g@, sv, v, d as int) && forall|w: int| #[trigger] reaches(g@, sv, v, w) ==> d <= w,
            None => forall|w: int| !reaches(g@, sv, v, w),
        } by {
            if dis@[v].is_some() { assert(reaches(g@, sv, v, dis@[v].unwrap() as int)); }
            assert forall|w: int| #[trigger] reaches(g@, sv, v, w) implies lab(dis@, v, w) by {}
        }
    }
//@end
}
