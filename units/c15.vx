//@include lib/head.vx
//@include lib/stdspec.vx
use std::collections::VecDeque;
//@include lib/pigeon.vx
//@include lib/capint.vx
//@include lib/capint_inst.vx
//@struct graph/max_flow.rs | Edge
//@struct graph/max_flow.rs | Dinic

pub proof fn lemma_cap_laws<Cap: Integral>()
    ensures
        <Cap as PartialEqSpec<Cap>>::obeys_eq_spec(), <Cap as PartialOrdSpec<Cap>>::obeys_partial_cmp_spec(), <Cap as OrdSpec>::obeys_cmp_spec(),
        Cap::hi() >= 1, Cap::lo() <= 0, Cap::zero_val().v() == 0, Cap::max_val().v() == Cap::hi(),
        forall|a: Cap| Cap::lo() <= #[trigger] a.v() <= Cap::hi(),
        forall|a: Cap, b: Cap| #[trigger] a.eq_spec(&b) == (a.v() == b.v()),
        forall|a: Cap, b: Cap| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(int_cmp(a.v(), b.v())),
        forall|a: Cap, b: Cap| #[trigger] OrdSpec::cmp_spec(&a, &b) == int_cmp(a.v(), b.v()),
        <Cap as SubSpec<Cap>>::obeys_sub_spec(), <Cap as SubAssignSpec<Cap>>::obeys_sub_assign_spec(), <Cap as AddAssignSpec<Cap>>::obeys_add_assign_spec(), <Cap as AddSpec<Cap>>::obeys_add_spec(),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() ==> (#[trigger] a.sub_req(b)),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() ==> (#[trigger] a.sub_spec(b)).v() == a.v() - b.v(),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() ==> (#[trigger] a.sub_assign_req(b)),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() ==> (#[trigger] a.sub_assign_spec(b)).v() == a.v() - b.v(),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() ==> (#[trigger] a.add_req(b)),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() ==> (#[trigger] a.add_spec(b)).v() == a.v() + b.v(),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() ==> (#[trigger] a.add_assign_req(b)),
        forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() ==> (#[trigger] a.add_assign_spec(b)).v() == a.v() + b.v(),
{
    let z = Cap::zero_val();
    Cap::law_range(z);
    Cap::law_cmp(z, z);
    Cap::law_add(z, z);
    Cap::law_sub(z, z);
    assert forall|a: Cap| Cap::lo() <= #[trigger] a.v() <= Cap::hi() by { Cap::law_range(a); }
    assert forall|a: Cap, b: Cap| #[trigger] a.eq_spec(&b) == (a.v() == b.v()) by { Cap::law_cmp(a, b); }
    assert forall|a: Cap, b: Cap| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(int_cmp(a.v(), b.v())) by { Cap::law_cmp(a, b); }
    assert forall|a: Cap, b: Cap| #[trigger] OrdSpec::cmp_spec(&a, &b) == int_cmp(a.v(), b.v()) by { Cap::law_cmp(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() implies (#[trigger] a.sub_req(b)) by { Cap::law_sub(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() implies (#[trigger] a.sub_spec(b)).v() == a.v() - b.v() by { Cap::law_sub(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() implies (#[trigger] a.sub_assign_req(b)) by { Cap::law_sub(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() - b.v() <= Cap::hi() implies (#[trigger] a.sub_assign_spec(b)).v() == a.v() - b.v() by { Cap::law_sub(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() implies (#[trigger] a.add_req(b)) by { Cap::law_add(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() implies (#[trigger] a.add_spec(b)).v() == a.v() + b.v() by { Cap::law_add(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() implies (#[trigger] a.add_assign_req(b)) by { Cap::law_add(a, b); }
    assert forall|a: Cap, b: Cap| Cap::lo() <= a.v() + b.v() <= Cap::hi() implies (#[trigger] a.add_assign_spec(b)).v() == a.v() + b.v() by { Cap::law_add(a, b); }
}

/// edges come in pairs j, tw(j): an edge and its reverse
pub open spec fn tw(j: int) -> int { if j % 2 == 0 { j + 1 } else { j - 1 } }
pub open spec fn cp<Cap: Integral>(e: Seq<Edge<Cap>>, j: int) -> int { e[j].cap.v() }
pub open spec fn to<Cap: Integral>(e: Seq<Edge<Cap>>, j: int) -> int { e[j].to as int }
pub open spec fn from<Cap: Integral>(e: Seq<Edge<Cap>>, j: int) -> int { e[tw(j)].to as int }
/// the (residual) capacity of the first k edges that leave the vertex set a
pub open spec fn cross<Cap: Integral>(e: Seq<Edge<Cap>>, a: spec_fn(int) -> bool, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { cross(e, a, k - 1) + if a(from(e, k - 1)) && !a(to(e, k - 1)) { cp(e, k - 1) } else { 0 } }
}
/// total capacity of the edges that leave a
pub open spec fn cut<Cap: Integral>(e: Seq<Edge<Cap>>, a: spec_fn(int) -> bool) -> int { cross(e, a, e.len() as int) }

pub open spec fn same_shape<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>) -> bool {
    &&& e1.len() == e2.len()
    &&& forall|j: int| 0 <= j < e1.len() ==> (#[trigger] e2[j]).to == e1[j].to
}
pub proof fn lemma_tw(j: usize)
    ensures (j ^ 1) as int == tw(j as int), tw(tw(j as int)) == j,
{
    if j % 2 == 0 {
        assert(j ^ 1 == j + 1) by (bit_vector) requires j % 2 == 0;
    } else {
        assert(j ^ 1 == sub(j, 1)) by (bit_vector) requires j % 2 == 1;
    }
}
pub proof fn lemma_cross_update<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, a: spec_fn(int) -> bool, j: int, k: int)
    requires
        same_shape(e1, e2), e1.len() % 2 == 0, 0 <= j < e1.len(), 0 <= k <= e1.len(),
        forall|i: int| 0 <= i < e1.len() && i != j && i != tw(j) ==> cp(e2, i) == #[trigger] cp(e1, i),
    ensures
        cross(e2, a, k) == cross(e1, a, k)
            + (if j < k && a(from(e1, j)) && !a(to(e1, j)) { cp(e2, j) - cp(e1, j) } else { 0 })
            + (if tw(j) < k && a(to(e1, j)) && !a(from(e1, j)) { cp(e2, tw(j)) - cp(e1, tw(j)) } else { 0 }),
    decreases k,
{
    if k > 0 {
        lemma_cross_update(e1, e2, a, j, k - 1);
        let i = k - 1;
        assert(to(e2, i) == to(e1, i));
        assert(from(e2, i) == from(e1, i)) by { assert(e2[tw(i)].to == e1[tw(i)].to); }
        if i != j && i != tw(j) { assert(cp(e2, i) == cp(e1, i)); }
    }
}
pub proof fn lemma_cross_nonneg<Cap: Integral>(e: Seq<Edge<Cap>>, a: spec_fn(int) -> bool, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] cp(e, i) >= 0,
    ensures cross(e, a, k) >= 0,
        (forall|i: int| 0 <= i < k && a(from(e, i)) && !a(to(e, i)) ==> #[trigger] cp(e, i) == 0) ==> cross(e, a, k) == 0,
    decreases k,
{
    if k > 0 { lemma_cross_nonneg(e, a, k - 1); assert(cp(e, k - 1) >= 0); }
}
/// flow of value x from u to t has been sent between e1 and e2: each vertex set loses x if u lies in it, wins x if t does
pub open spec fn sent<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, u: int, t: int, x: int) -> bool {
    &&& same_shape(e1, e2)
    &&& forall|a: spec_fn(int) -> bool| #[trigger] cut(e2, a) == cut(e1, a) - (if a(u) { x } else { 0 }) + (if a(t) { x } else { 0 })
    &&& forall|j: int| 0 <= j < e1.len() ==> #[trigger] cp(e2, j) >= 0 && cp(e2, j) + cp(e2, tw(j)) == cp(e1, j) + cp(e1, tw(j))
}
pub proof fn lemma_sent_trans<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, e3: Seq<Edge<Cap>>, u: int, t: int, x: int, y: int)
    requires sent(e1, e2, u, t, x), sent(e2, e3, u, t, y),
    ensures sent(e1, e3, u, t, x + y),
{
    assert forall|a: spec_fn(int) -> bool| #[trigger] cut(e3, a) == cut(e1, a) - (if a(u) { x + y } else { 0 }) + (if a(t) { x + y } else { 0 }) by {
        assert(cut(e2, a) == cut(e1, a) - (if a(u) { x } else { 0 }) + (if a(t) { x } else { 0 }));
    }
    assert forall|j: int| 0 <= j < e1.len() implies (#[trigger] e3[j]).to == e1[j].to by { assert(e2[j].to == e1[j].to); }
    assert forall|j: int| 0 <= j < e1.len() implies #[trigger] cp(e3, j) >= 0 && cp(e3, j) + cp(e3, tw(j)) == cp(e1, j) + cp(e1, tw(j)) by {
        assert(cp(e2, j) >= 0);
    }
}
/// x more along the edge j, after x from to(j) to t
pub proof fn lemma_sent_edge<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, e3: Seq<Edge<Cap>>, j: int, t: int, x: int)
    requires
        e1.len() % 2 == 0, 0 <= j < e1.len(), sent(e1, e2, to(e1, j), t, x), same_shape(e2, e3),
        0 <= x <= cp(e2, j), cp(e3, j) == cp(e2, j) - x, cp(e3, tw(j)) == cp(e2, tw(j)) + x,
        forall|i: int| 0 <= i < e1.len() && i != j && i != tw(j) ==> cp(e3, i) == #[trigger] cp(e2, i),
    ensures sent(e1, e3, from(e1, j), t, x),
{
    assert(to(e2, j) == to(e1, j));
    assert(from(e2, j) == from(e1, j)) by { assert(e2[tw(j)].to == e1[tw(j)].to); }
    assert forall|a: spec_fn(int) -> bool| #[trigger] cut(e3, a) == cut(e1, a) - (if a(from(e1, j)) { x } else { 0 }) + (if a(t) { x } else { 0 }) by {
        lemma_cross_update(e2, e3, a, j, e1.len() as int);
        assert(cut(e2, a) == cut(e1, a) - (if a(to(e1, j)) { x } else { 0 }) + (if a(t) { x } else { 0 }));
    }
    assert forall|i: int| 0 <= i < e1.len() implies (#[trigger] e3[i]).to == e1[i].to by { assert(e2[i].to == e1[i].to); }
    assert forall|i: int| 0 <= i < e1.len() implies #[trigger] cp(e3, i) >= 0 && cp(e3, i) + cp(e3, tw(i)) == cp(e1, i) + cp(e1, tw(i)) by {
        assert(cp(e2, i) >= 0);
        assert(cp(e2, tw(i)) >= 0);
        assert(tw(tw(i)) == i);
        if i != j && i != tw(j) { assert(cp(e3, i) == cp(e2, i)); assert(cp(e3, tw(i)) == cp(e2, tw(i))); }
    }
}

/// edge j is in the adjacency list of the vertex it leaves
pub open spec fn listed<Cap: Integral>(e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, j: int) -> bool {
    exists|i: int| 0 <= i < g[from(e, j)]@.len() && g[from(e, j)]@[i] == j
}
/// paired edges between the n vertices, in the adjacency lists of the vertices they leave
#[verifier::opaque]
pub open spec fn net_ok<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>) -> bool {
    &&& e.len() % 2 == 0 && g.len() == n
    &&& forall|j: int| 0 <= j < e.len() ==> #[trigger] to(e, j) < n
    &&& forall|j: int| 0 <= j < e.len() ==> #[trigger] cp(e, j) >= 0 && cp(e, j) + cp(e, tw(j)) <= Cap::hi()
    &&& forall|u: int, i: int| 0 <= u < n && 0 <= i < g[u]@.len() ==> (#[trigger] g[u]@[i]) < e.len() && from(e, g[u]@[i] as int) == u
    &&& forall|j: int| 0 <= j < e.len() ==> #[trigger] listed(e, g, j)
}
/// the i-th edge at u
pub proof fn lemma_net<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, u: int, i: int)
    requires net_ok(n, e, g), 0 <= u < n, 0 <= i < g[u]@.len(),
    ensures
        ({
            let j = g[u]@[i] as int;
            0 <= j < e.len() && from(e, j) == u && 0 <= to(e, j) < n && cp(e, j) >= 0 && 0 <= tw(j) < e.len() && cp(e, tw(j)) >= 0 && cp(e, j) + cp(e, tw(j)) <= Cap::hi() && e.len() % 2 == 0
        }),
{
    reveal(net_ok);
    let j = g[u]@[i] as int;
    assert(g[u]@[i] < e.len());
    assert(0 <= tw(j) < e.len());
    assert(to(e, j) < n);
    assert(cp(e, tw(j)) >= 0);
    assert(cp(e, j) >= 0);
}
/// residual capacities may change
pub proof fn lemma_net_sent<Cap: Integral>(n: int, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, u: int, t: int, x: int)
    requires net_ok(n, e1, g), sent(e1, e2, u, t, x),
    ensures net_ok(n, e2, g), forall|j: int| 0 <= j < e1.len() ==> (#[trigger] to(e2, j)) == to(e1, j) && from(e2, j) == from(e1, j),
{
    reveal(net_ok);
    assert forall|j: int| 0 <= j < e1.len() implies (#[trigger] to(e2, j)) == to(e1, j) && from(e2, j) == from(e1, j) by {
        assert(e2[j].to == e1[j].to);
        assert(e2[tw(j)].to == e1[tw(j)].to);
    }
    assert forall|j: int| 0 <= j < e2.len() implies #[trigger] to(e2, j) < n by { assert(to(e1, j) < n); }
    assert forall|j: int| 0 <= j < e2.len() implies #[trigger] cp(e2, j) >= 0 && cp(e2, j) + cp(e2, tw(j)) <= Cap::hi() by { assert(cp(e1, j) >= 0); }
    assert forall|u: int, i: int| 0 <= u < n && 0 <= i < g[u]@.len() implies (#[trigger] g[u]@[i]) < e2.len() && from(e2, g[u]@[i] as int) == u by {
        assert(to(e2, g[u]@[i] as int) == to(e1, g[u]@[i] as int));
    }
    assert forall|j: int| 0 <= j < e2.len() implies #[trigger] listed(e2, g, j) by { assert(listed(e1, g, j)); assert(to(e2, j) == to(e1, j)); }
}

// ---- the level graph
/// x is labelled through an edge with residual capacity from the level before
#[verifier::opaque]
pub open spec fn has_pred<Cap: Integral>(e: Seq<Edge<Cap>>, h: Seq<i32>, x: int) -> bool {
    exists|j: int| pred_by(e, h, x, j)
}
pub open spec fn pred_by<Cap: Integral>(e: Seq<Edge<Cap>>, h: Seq<i32>, x: int, j: int) -> bool {
    0 <= j < e.len() && to(e, j) == x && cp(e, j) > 0 && 0 <= h[from(e, j)] && h[from(e, j)] + 1 == h[x]
}
pub open spec fn levels<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, h: Seq<i32>, s: int) -> bool {
    &&& h.len() == n && 0 <= s < n && h[s] == 0
    &&& forall|x: int| 0 <= x < n ==> -1 <= #[trigger] h[x] < n
    &&& forall|x: int| 0 <= x < n && #[trigger] h[x] == 0 ==> x == s
    &&& forall|x: int| 0 <= x < n && #[trigger] h[x] > 0 ==> has_pred(e, h, x)
}
/// the first k edges that leave x lead to labelled vertices or are saturated
pub open spec fn scanned<Cap: Integral>(e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, x: int, k: int) -> bool {
    forall|i: int| 0 <= i < k && cp(e, (#[trigger] g[x]@[i]) as int) > 0 ==> h[to(e, g[x]@[i] as int)] != -1
}
pub open spec fn labd(h: Seq<i32>) -> Seq<bool> { Seq::new(h.len(), |i: int| h[i] != -1) }
pub open spec fn cnt(h: Seq<i32>) -> int { count_true(labd(h)) }
#[verifier::opaque]
pub open spec fn bfs_inv<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q: Seq<usize>, u: int, k: int) -> bool {
    &&& net_ok(n, e, g) && levels(n, e, h, s) && 0 <= t < n <= usize::MAX && h[t] == -1
    &&& forall|x: int| 0 <= x < n ==> #[trigger] h[x] < cnt(h)
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < n && h[q[i] as int] != -1
    &&& forall|x: int| 0 <= x < n && #[trigger] h[x] != -1 ==> q.contains(x as usize) || scanned(e, g, h, x, if x == u { k } else { g[x]@.len() as int })
}
pub proof fn lemma_bfs_init<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q: Seq<usize>)
    requires
        net_ok(n, e, g), 0 <= s < n <= usize::MAX, 0 <= t < n, s != t, h.len() == n, q == seq![s as usize],
        h[s] == 0, forall|x: int| 0 <= x < n && x != s ==> #[trigger] h[x] == -1,
    ensures bfs_inv(n, e, g, h, s, t, q, -1, 0),
{
    reveal(bfs_inv);
    let none = Seq::new(labd(h).len(), |i: int| false);
    lemma_count_mono(none, labd(h));
    lemma_count_bounds(none);
    assert(labd(h)[s] && !none[s]);
    assert(q[0] == s);
    assert(h[t] == -1);
}
pub proof fn lemma_bfs_cnt<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q: Seq<usize>, u: int, k: int)
    requires bfs_inv(n, e, g, h, s, t, q, u, k),
    ensures net_ok(n, e, g), h.len() == n, h[t] == -1, levels(n, e, h, s), cnt(h) <= n, forall|x: int| 0 <= x < n ==> -1 <= #[trigger] h[x] < cnt(h),
{
    reveal(bfs_inv);
    lemma_count_bounds(labd(h));
}
pub proof fn lemma_bfs_pop<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q0: Seq<usize>, q: Seq<usize>, u: int)
    requires bfs_inv(n, e, g, h, s, t, q0, -1, 0), q0.len() > 0, u == q0[0], q == q0.subrange(1, q0.len() as int),
    ensures bfs_inv(n, e, g, h, s, t, q, u, 0), 0 <= u < n, h[u] >= 0,
{
    reveal(bfs_inv);
    assert(q0[0] < n && h[q0[0] as int] != -1);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < n && h[q[i] as int] != -1 by { assert(q[i] == q0[i + 1]); }
    assert forall|x: int| 0 <= x < n && #[trigger] h[x] != -1 implies q.contains(x as usize) || scanned(e, g, h, x, if x == u { 0 } else { g[x]@.len() as int }) by {
        if x != u {
            if q0.contains(x as usize) {
                let i = choose|i: int| 0 <= i < q0.len() && q0[i] == x as usize;
                assert(i > 0) by { if i == 0 { assert(x as usize == u as usize); } }
                assert(q[i - 1] == x as usize);
            }
        }
    }
    assert(-1 <= h[u]);
}
/// the k-th edge at u needs nothing
pub proof fn lemma_bfs_skip<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q: Seq<usize>, u: int, k: int)
    requires
        bfs_inv(n, e, g, h, s, t, q, u, k), 0 <= u < n, 0 <= k < g[u]@.len(),
        h[to(e, g[u]@[k] as int)] != -1 || cp(e, g[u]@[k] as int) <= 0,
    ensures bfs_inv(n, e, g, h, s, t, q, u, k + 1),
{
    reveal(bfs_inv);
    assert forall|x: int| 0 <= x < n && #[trigger] h[x] != -1 implies q.contains(x as usize) || scanned(e, g, h, x, if x == u { k + 1 } else { g[x]@.len() as int }) by {
        if !q.contains(x as usize) { assert(scanned(e, g, h, x, if x == u { k } else { g[x]@.len() as int })); }
    }
}
/// the k-th edge at u labels its end
pub proof fn lemma_bfs_label<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, h2: Seq<i32>, s: int, t: int, q: Seq<usize>, u: int, k: int, v: int)
    requires
        bfs_inv(n, e, g, h, s, t, q, u, k), 0 <= u < n <= i32::MAX, 0 <= k < g[u]@.len(), v == to(e, g[u]@[k] as int), h[u] >= 0,
        h[v] == -1, cp(e, g[u]@[k] as int) > 0, h2 == h.update(v, (h[u] + 1) as i32),
    ensures
        levels(n, e, h2, s), h2[v] > 0, cnt(h2) > cnt(h), cnt(h2) <= n, h2[u] == h[u],
        v != t ==> bfs_inv(n, e, g, h2, s, t, q.push(v as usize), u, k + 1),
{
    reveal(bfs_inv);
    lemma_net(n, e, g, u, k);
    let j = g[u]@[k] as int;
    lemma_count_bounds(labd(h));
    lemma_count_bounds(labd(h2));
    lemma_count_mono(labd(h), labd(h2));
    assert(!labd(h)[v] && labd(h2)[v]);
    assert(h[u] < cnt(h));
    assert(u != v);
    assert forall|x: int| 0 <= x < n && #[trigger] h2[x] > 0 implies has_pred(e, h2, x) by {
        reveal(has_pred);
        if x == v {
            assert(pred_by(e, h2, x, j));
        } else {
            assert(h[x] == h2[x]);
            let j2 = lemma_pred_by(e, h, x);
            assert(pred_by(e, h2, x, j2));
        }
    }
    assert forall|x: int| 0 <= x < n && #[trigger] h2[x] == 0 implies x == s by { if x != v { assert(h[x] == 0); } }
    assert forall|x: int| 0 <= x < n implies -1 <= #[trigger] h2[x] < cnt(h2) by { if x != v { assert(-1 <= h[x] < cnt(h)); } }
    if v != t {
        let q2 = q.push(v as usize);
        assert(q2[q.len() as int] == v);
        assert forall|i: int| 0 <= i < q2.len() implies (#[trigger] q2[i]) < n && h2[q2[i] as int] != -1 by { if i < q.len() { assert(q2[i] == q[i]); } }
        assert forall|x: int| 0 <= x < n && #[trigger] h2[x] != -1 implies q2.contains(x as usize) || scanned(e, g, h2, x, if x == u { k + 1 } else { g[x]@.len() as int }) by {
            if x != v {
                assert(h[x] != -1);
                if q.contains(x as usize) {
                    let i = choose|i: int| 0 <= i < q.len() && q[i] == x as usize;
                    assert(q2[i] == x as usize);
                } else {
                    assert(scanned(e, g, h, x, if x == u { k } else { g[x]@.len() as int }));
                }
            }
        }
    }
}
pub proof fn lemma_bfs_next<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, q: Seq<usize>, u: int)
    requires bfs_inv(n, e, g, h, s, t, q, u, g[u]@.len() as int),
    ensures bfs_inv(n, e, g, h, s, t, q, -1, 0),
{
    reveal(bfs_inv);
    assert forall|x: int| 0 <= x < n && #[trigger] h[x] != -1 implies q.contains(x as usize) || scanned(e, g, h, x, g[x]@.len() as int) by {
        assert(x == u || x != u);
    }
}
pub proof fn lemma_bfs_end<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int)
    requires bfs_inv(n, e, g, h, s, t, seq![], -1, 0),
    ensures forall|x: int| 0 <= x < n && #[trigger] h[x] != -1 ==> scanned(e, g, h, x, g[x]@.len() as int),
{
    reveal(bfs_inv);
}

pub proof fn lemma_add_edge<Cap: Integral>(n: int, e0: Seq<Edge<Cap>>, g0: Seq<Vec<usize>>, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, u: usize, v: usize)
    requires
        net_ok(n, e0, g0), u < n, v < n, e.len() == e0.len() + 2 <= usize::MAX, forall|j: int| 0 <= j < e0.len() ==> #[trigger] e[j] == e0[j],
        e[e0.len() as int].to == v, e[(e0.len() + 1) as int].to == u, cp(e, e0.len() as int) >= 0, cp(e, (e0.len() + 1) as int) == 0, cp(e, e0.len() as int) <= Cap::hi(),
        g.len() == g0.len(), forall|x: int| 0 <= x < n && x != u && x != v ==> #[trigger] g[x] == g0[x],
        u != v ==> g[u as int]@ == g0[u as int]@.push(e0.len() as usize) && g[v as int]@ == g0[v as int]@.push((e0.len() + 1) as usize),
        u == v ==> g[u as int]@ == g0[u as int]@.push(e0.len() as usize).push((e0.len() + 1) as usize),
    ensures net_ok(n, e, g),
{
    reveal(net_ok);
    let m = e0.len() as int;
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] to(e, j) < n by {
        if j < m { assert(to(e0, j) < n); }
    }
    assert forall|j: int| 0 <= j < m implies from(e, j) == #[trigger] from(e0, j) by {}
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] cp(e, j) >= 0 && cp(e, j) + cp(e, tw(j)) <= Cap::hi() by {
        if j < m { assert(cp(e0, j) >= 0); assert(tw(j) < m); assert(cp(e, tw(j)) == cp(e0, tw(j))); }
    }
    assert forall|x: int, i: int| 0 <= x < n && 0 <= i < g[x]@.len() implies (#[trigger] g[x]@[i]) < e.len() && from(e, g[x]@[i] as int) == x by {
        if i < g0[x]@.len() {
            assert(g[x]@[i] == g0[x]@[i]);
            assert(g0[x]@[i] < m && from(e0, g0[x]@[i] as int) == x);
        } else {
            assert(g[x]@[i] == m || g[x]@[i] == m + 1);
        }
    }
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] listed(e, g, j) by {
        if j < m {
            assert(listed(e0, g0, j));
            let x = from(e0, j);
            let i = choose|i: int| 0 <= i < g0[x]@.len() && g0[x]@[i] == j;
            assert(0 <= tw(j) < m);
            assert(to(e0, tw(j)) < n);
            if x != u && x != v { assert(g[x] == g0[x]); }
            assert(g[x]@[i] == j);
        } else if j == m {
            assert(g[u as int]@[g0[u as int]@.len() as int] == j);
        } else {
            assert(g[v as int]@[g[v as int]@.len() - 1] == j);
        }
    }
}

// ---- one blocking flow
/// edges with an end below the level lv keep their capacity
#[verifier::opaque]
pub open spec fn untouched<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, h: Seq<i32>, lv: int) -> bool {
    forall|j: int| 0 <= j < e1.len() && (h[from(e1, j)] < lv || h[to(e1, j)] < lv) ==> cp(e2, j) == #[trigger] cp(e1, j)
}
pub open spec fn same_caps<Cap: Integral>(e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>) -> bool {
    forall|j: int| 0 <= j < e1.len() ==> cp(e2, j) == #[trigger] cp(e1, j)
}
pub open spec fn dead(g: Seq<Vec<usize>>, cur: Seq<usize>, t: int, x: int) -> bool {
    x != t && cur[x] >= g[x]@.len()
}
/// what the cursors have passed leads nowhere
#[verifier::opaque]
pub open spec fn blk<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, t: int) -> bool {
    forall|x: int, i: int| 0 <= x < n && x != t && 0 <= i < g[x]@.len() && i < cur[x] ==> blocked(e, h, g, cur, t, x, (#[trigger] g[x]@[i]) as int)
}
pub open spec fn blocked<Cap: Integral>(e: Seq<Edge<Cap>>, h: Seq<i32>, g: Seq<Vec<usize>>, cur: Seq<usize>, t: int, x: int, j: int) -> bool {
    cp(e, j) <= 0 || h[to(e, j)] != h[x] + 1 || dead(g, cur, t, to(e, j))
}
/// the cursor of x moves past an edge that is blocked
pub proof fn lemma_blk_step<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, cur2: Seq<usize>, t: int, u: int)
    requires
        net_ok(n, e, g), blk(n, e, g, h, cur, t), 0 <= u < n, cur.len() == n, cur[u] < g[u]@.len(), cur2 == cur.update(u, (cur[u] + 1) as usize), u != t,
        blocked(e, h, g, cur, t, u, g[u]@[cur[u] as int] as int),
    ensures blk(n, e, g, h, cur2, t),
{
    reveal(blk);
    assert forall|x: int, i: int| 0 <= x < n && x != t && 0 <= i < g[x]@.len() && i < cur2[x] implies blocked(e, h, g, cur2, t, x, (#[trigger] g[x]@[i]) as int) by {
        lemma_net(n, e, g, x, i);
        assert(blocked(e, h, g, cur, t, x, g[x]@[i] as int));
    }
}
pub proof fn lemma_blk_caps<Cap: Integral>(n: int, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, t: int)
    requires net_ok(n, e1, g), blk(n, e1, g, h, cur, t), same_shape(e1, e2), same_caps(e1, e2),
    ensures blk(n, e2, g, h, cur, t),
{
    reveal(blk);
    assert forall|x: int, i: int| 0 <= x < n && x != t && 0 <= i < g[x]@.len() && i < cur[x] implies blocked(e2, h, g, cur, t, x, (#[trigger] g[x]@[i]) as int) by {
        lemma_net(n, e1, g, x, i);
        let j = g[x]@[i] as int;
        assert(blocked(e1, h, g, cur, t, x, j));
        assert(cp(e2, j) == cp(e1, j) && e2[j].to == e1[j].to);
    }
}
/// the edge j at position i of y leads to x from the level before
pub open spec fn pred_at<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, x: int, j: int, y: int, i: int) -> bool {
    pred_by(e, h, x, j) && y == from(e, j) && 0 <= y < n && 0 <= i < g[y]@.len() && g[y]@[i] == j
}
pub proof fn lemma_pred_by<Cap: Integral>(e: Seq<Edge<Cap>>, h: Seq<i32>, x: int) -> (j: int)
    requires has_pred(e, h, x),
    ensures pred_by(e, h, x, j),
{
    reveal(has_pred);
    choose|j: int| pred_by(e, h, x, j)
}
pub proof fn lemma_pred<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, x: int) -> (r: (int, int, int))
    requires net_ok(n, e, g), levels(n, e, h, s), 0 <= x < n, h[x] > 0,
    ensures pred_at(n, e, g, h, x, r.0, r.1, r.2),
{
    let j = lemma_pred_by(e, h, x);
    let y = from(e, j);
    assert(listed(e, g, j) && 0 <= y < n) by { reveal(net_ok); assert(0 <= tw(j) < e.len()); assert(to(e, tw(j)) < n); }
    let i = choose|i: int| 0 <= i < g[y]@.len() && g[y]@[i] == j;
    (j, y, i)
}
pub proof fn lemma_blk_at<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, t: int, x: int, i: int)
    requires blk(n, e, g, h, cur, t), 0 <= x < n, x != t, 0 <= i < g[x]@.len(), i < cur[x],
    ensures blocked(e, h, g, cur, t, x, g[x]@[i] as int),
{
    reveal(blk);
}
/// back from the sink along the labels: if everything passed is blocked, the source is not exhausted
pub proof fn lemma_alive<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, s: int, t: int, x: int)
    requires net_ok(n, e, g), levels(n, e, h, s), blk(n, e, g, h, cur, t), cur.len() == n, 0 <= x < n, h[x] >= 0, !dead(g, cur, t, x), s != t, h[t] > 0,
    ensures !dead(g, cur, t, s),
    decreases h[x],
{
    if h[x] > 0 {
        let (j, y, i) = lemma_pred(n, e, g, h, s, x);
        if dead(g, cur, t, y) {
            lemma_blk_at(n, e, g, h, cur, t, y, i);
        }
        lemma_alive(n, e, g, h, cur, s, t, y);
    }
}
pub proof fn lemma_sent_none<Cap: Integral>(n: int, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, u: int, t: int, x: int)
    requires net_ok(n, e, g), u == t || x == 0,
    ensures sent(e, e, u, t, x),
{
    reveal(net_ok);
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] cp(e, j) >= 0 && cp(e, j) + cp(e, tw(j)) == cp(e, j) + cp(e, tw(j)) by {}
}
/// from e0 the amount x was sent from u, then (e1 to e2) the amount a from the end of edge j, then (e2 to e3) a along j
pub proof fn lemma_dfs_step<Cap: Integral>(n: int, e0: Seq<Edge<Cap>>, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, e3: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, u: int, t: int, k: int, x: int, a: int)
    requires
        net_ok(n, e0, g), 0 <= u < n, 0 <= k < g[u]@.len(), sent(e0, e1, u, t, x),
        ({
            let j = g[u]@[k] as int;
            &&& sent(e1, e2, to(e1, j), t, a) && untouched(e1, e2, h, h[u] + 1)
            &&& h[to(e1, j)] == h[u] + 1
            &&& same_shape(e2, e3) && 0 <= a <= cp(e1, j) && cp(e3, j) == cp(e2, j) - a && cp(e3, tw(j)) == cp(e2, tw(j)) + a
            &&& forall|i: int| 0 <= i < e1.len() && i != j && i != tw(j) ==> cp(e3, i) == #[trigger] cp(e2, i)
        }),
        untouched(e0, e1, h, h[u] as int),
    ensures sent(e0, e3, u, t, x + a), untouched(e0, e3, h, h[u] as int), net_ok(n, e3, g),
        a == 0 && same_caps(e1, e2) ==> same_caps(e1, e3),
{
    let j = g[u]@[k] as int;
    lemma_net_sent(n, e0, e1, g, u, t, x);
    lemma_net(n, e1, g, u, k);
    lemma_net_sent(n, e1, e2, g, to(e1, j), t, a);
    assert(cp(e2, j) == cp(e1, j)) by { reveal(untouched); assert(cp(e1, j) >= 0); }
    lemma_sent_edge(e1, e2, e3, j, t, a);
    lemma_sent_trans(e0, e1, e3, u, t, x, a);
    lemma_net_sent(n, e0, e3, g, u, t, x + a);
    assert(tw(tw(j)) == j);
    lemma_untouched_step(e0, e1, e2, e3, h, j, h[u] as int);
}
pub proof fn lemma_untouched_step<Cap: Integral>(e0: Seq<Edge<Cap>>, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, e3: Seq<Edge<Cap>>, h: Seq<i32>, j: int, lv: int)
    requires
        untouched(e0, e1, h, lv), untouched(e1, e2, h, lv + 1), e1.len() == e0.len(), tw(tw(j)) == j,
        forall|i: int| 0 <= i < e0.len() ==> (#[trigger] to(e1, i)) == to(e0, i) && from(e1, i) == from(e0, i),
        h[to(e1, j)] == lv + 1, h[from(e1, j)] == lv, 0 <= j < e1.len(), 0 <= tw(j) < e1.len(),
        forall|i: int| 0 <= i < e1.len() && i != j && i != tw(j) ==> cp(e3, i) == #[trigger] cp(e2, i),
    ensures untouched(e0, e3, h, lv),
{
    reveal(untouched);
    assert forall|i: int| 0 <= i < e0.len() && (h[from(e0, i)] < lv || h[to(e0, i)] < lv) implies cp(e3, i) == #[trigger] cp(e0, i) by {
        assert(to(e1, i) == to(e0, i));
        assert(from(e1, i) == from(e0, i));
        assert(cp(e1, i) == cp(e0, i));
        assert(cp(e2, i) == cp(e1, i));
        assert(to(e1, tw(j)) == from(e1, j) && from(e1, tw(j)) == to(e1, j));
    }
}

/// what was sent is at most what any cut between s and t lets through
pub proof fn lemma_cut_bound<Cap: Integral>(n: int, e0: Seq<Edge<Cap>>, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, s: int, t: int, x: int)
    requires net_ok(n, e, g), sent(e0, e, s, t, x),
    ensures forall|a: spec_fn(int) -> bool| a(s) && !a(t) ==> #[trigger] cut(e0, a) >= x,
{
    reveal(net_ok);
    assert forall|a: spec_fn(int) -> bool| a(s) && !a(t) implies #[trigger] cut(e0, a) >= x by {
        lemma_cross_nonneg(e, a, e.len() as int);
        assert(cut(e, a) == cut(e0, a) - x);
    }
}
pub proof fn lemma_cut_more<Cap: Integral>(n: int, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, s: int, t: int, y: int)
    requires net_ok(n, e2, g), sent(e1, e2, s, t, y),
    ensures forall|e: Seq<Edge<Cap>>, x: int, a: spec_fn(int) -> bool| #[trigger] sent(e, e1, s, t, x) && a(s) && !a(t) ==> #[trigger] cut(e, a) >= x + y,
{
    assert forall|e: Seq<Edge<Cap>>, x: int, a: spec_fn(int) -> bool| #[trigger] sent(e, e1, s, t, x) && a(s) && !a(t) implies #[trigger] cut(e, a) >= x + y by {
        lemma_sent_trans(e, e1, e2, s, t, x, y);
        lemma_cut_bound(n, e, e2, g, s, t, x + y);
    }
}
/// a phase that sends nothing cannot happen: the sink is labelled, so the source is not exhausted
pub proof fn lemma_progress<Cap: Integral>(n: int, e1: Seq<Edge<Cap>>, e2: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, cur: Seq<usize>, s: int, t: int)
    requires
        net_ok(n, e1, g), net_ok(n, e2, g), levels(n, e1, h, s), h[t] > 0, same_shape(e1, e2), same_caps(e1, e2), cur.len() == n, s != t, 0 <= t < n,
        blk(n, e2, g, h, cur, t), dead(g, cur, t, s),
    ensures false,
{
    assert forall|j: int| 0 <= j < e2.len() implies cp(e1, j) == #[trigger] cp(e2, j) by { assert(cp(e1, j) == cp(e1, j)); assert(cp(e2, j) == cp(e1, j)); }
    assert(same_shape(e2, e1)) by {
        assert forall|j: int| 0 <= j < e2.len() implies (#[trigger] e1[j]).to == e2[j].to by { assert(e2[j].to == e1[j].to); }
    }
    lemma_blk_caps(n, e2, e1, g, h, cur, t);
    lemma_alive(n, e1, g, h, cur, s, t, t);
}
/// the labelled vertices are a cut whose edges are all saturated
pub proof fn lemma_min_cut<Cap: Integral>(n: int, e0: Seq<Edge<Cap>>, e: Seq<Edge<Cap>>, g: Seq<Vec<usize>>, h: Seq<i32>, s: int, t: int, x: int)
    requires
        net_ok(n, e, g), sent(e0, e, s, t, x), levels(n, e, h, s), h[t] == -1,
        forall|u: int| 0 <= u < n && #[trigger] h[u] != -1 ==> scanned(e, g, h, u, g[u]@.len() as int),
    ensures exists|a: spec_fn(int) -> bool| a(s) && !a(t) && #[trigger] cut(e0, a) == x,
{
    reveal(net_ok);
    let a = |u: int| 0 <= u < n && h[u] != -1;
    assert forall|i: int| 0 <= i < e.len() && a(from(e, i)) && !a(to(e, i)) implies #[trigger] cp(e, i) == 0 by {
        let u = from(e, i);
        assert(h[u] != -1);
        assert(listed(e, g, i));
        let k = choose|k: int| 0 <= k < g[u]@.len() && g[u]@[k] == i;
        assert(g[u]@[k] as int == i);
        assert(to(e, i) < n);
        assert(cp(e, i) >= 0);
    }
    lemma_cross_nonneg(e, a, e.len() as int);
    assert(cut(e, a) == cut(e0, a) - x);
    assert(a(s) && !a(t) && cut(e0, a) == x);
}

impl<Cap: Integral> Dinic<Cap> {
    pub open spec fn wf(&self) -> bool {
        net_ok(self.n as int, self.e@, self.g@) && self.cur.len() == self.n && self.h.len() == self.n
    }
    /// all of the structure but the labels and the cursors
    pub open spec fn same_net(&self, o: &Self) -> bool {
        self.n == o.n && self.e@ == o.e@ && self.g@ == o.g@
    }
//@fn graph/max_flow.rs | Dinic::new | ret=ret
//@spec
    ensures ret.wf(), ret.n == n, ret.e.len() == 0,
//@entry
    proof { reveal(net_ok); }
//@end
//@fn graph/max_flow.rs | Dinic::add_edge
//@spec
    requires old(self).wf(), u < old(self).n, v < old(self).n, cap.v() >= 0, old(self).e.len() + 2 <= usize::MAX,
    ensures
        final(self).wf(), final(self).n == old(self).n, final(self).e.len() == old(self).e.len() + 2,
        forall|j: int| 0 <= j < old(self).e.len() ==> #[trigger] final(self).e@[j] == old(self).e@[j],
        ({
            let k = old(self).e.len() as int;
            from(final(self).e@, k) == u && to(final(self).e@, k) == v && cp(final(self).e@, k) == cap.v() && cp(final(self).e@, k + 1) == 0
        }),
//@entry
    let ghost e0 = self.e@;
    let ghost g0 = self.g@;
    let ghost m = self.e.len() as int;
    proof { lemma_cap_laws::<Cap>(); assert(g0.len() == self.n && m % 2 == 0) by { reveal(net_ok); } }
//@exit
    proof { lemma_add_edge(self.n as int, e0, g0, self.e@, self.g@, u, v); }
//@end
//@fn graph/max_flow.rs | Dinic::bfs | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires old(self).wf(), s < old(self).n, t < old(self).n, s != t, old(self).n <= i32::MAX,
    ensures
        final(self).wf(), final(self).same_net(old(self)), final(self).cur@ == old(self).cur@, levels(final(self).n as int, final(self).e@, final(self).h@, s as int),
        ret ==> final(self).h@[t as int] > 0,
        !ret ==> final(self).h@[t as int] == -1
            && forall|x: int| 0 <= x < final(self).n && #[trigger] final(self).h@[x] != -1 ==> scanned(final(self).e@, final(self).g@, final(self).h@, x, final(self).g@[x]@.len() as int),
//@entry
    let ghost n = self.n as int;
    let ghost e = self.e@;
    let ghost g = self.g@;
    let ghost cu = self.cur@;
    let ghost si = s as int;
    let ghost ti = t as int;
    proof { lemma_cap_laws::<Cap>(); assert(g.len() == n) by { reveal(net_ok); } }
//@loop 0
    invariant
        n == self.n, e == self.e@, g == self.g@, cu == self.cur@, bfs_inv(n, e, g, self.h@, si, ti, q@, -1, 0),
    ensures
        q@.len() == 0,
    decreases n - cnt(self.h@), q@.len(),
//@at loop0.before
    proof { lemma_bfs_init(n, e, g, self.h@, si, ti, q@); }
//@at loop0.head
    let ghost q0 = q@;
    let ghost c0 = cnt(self.h@);
    proof { lemma_bfs_cnt(n, e, g, self.h@, si, ti, q@, -1, 0); }
//@at if0.then
    proof { lemma_bfs_pop(n, e, g, self.h@, si, ti, q0, q@, u as int); }
//@loop 1
    invariant
        n == self.n, e == self.e@, g == self.g@, cu == self.cur@, bfs_inv(n, e, g, self.h@, si, ti, q@, u as int, vx_k0 as int), u < n,
        self.h@[u as int] >= 0, vx_k0 <= g[u as int]@.len(), self.h.len() == n,
        cnt(self.h@) > c0 || (cnt(self.h@) == c0 && q@.len() < q0.len()),
    decreases g[u as int]@.len() - vx_k0,
//@at loop1.head
    let ghost qb = q@;
    let ghost hb = self.h@;
    proof {
        lemma_net(n, e, g, u as int, vx_k0 as int);
        lemma_bfs_cnt(n, e, g, self.h@, si, ti, q@, u as int, vx_k0 as int);
    }
//@at if2.before
    proof { lemma_bfs_label(n, e, g, hb, self.h@, si, ti, qb, u as int, vx_k0 as int, v as int); }
//@at loop1.tail
    proof {
        if !(e[g[u as int]@[vx_k0 - 1] as int].cap.v() > 0 && hb[v as int] == -1) { lemma_bfs_skip(n, e, g, hb, si, ti, qb, u as int, vx_k0 - 1); }
    }
//@at loop1.after
    proof {
        lemma_bfs_cnt(n, e, g, self.h@, si, ti, q@, u as int, vx_k0 as int);
        lemma_bfs_next(n, e, g, self.h@, si, ti, q@, u as int);
    }
//@at loop0.after
    proof {
        assert(q@ =~= seq![]);
        lemma_bfs_cnt(n, e, g, self.h@, si, ti, q@, -1, 0);
        lemma_bfs_end(n, e, g, self.h@, si, ti);
    }
//@end
//@fn graph/max_flow.rs | Dinic::dfs | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires
        old(self).wf(), u < old(self).n, t < old(self).n, old(self).n <= i32::MAX, f.v() > 0,
        forall|x: int| 0 <= x < old(self).n ==> -1 <= #[trigger] old(self).h@[x] < old(self).n, old(self).h@[u as int] >= 0,
    ensures
        final(self).wf(), final(self).n == old(self).n, final(self).g@ == old(self).g@, final(self).h@ == old(self).h@,
        0 <= ret.v() <= f.v(),
        forall|e: Seq<Edge<Cap>>, x: int, a: spec_fn(int) -> bool| #[trigger] sent(e, old(self).e@, u as int, t as int, x) && a(u as int) && !a(t as int) ==> #[trigger] cut(e, a) >= x + ret.v(),
        sent(old(self).e@, final(self).e@, u as int, t as int, ret.v()),
        untouched(old(self).e@, final(self).e@, old(self).h@, old(self).h@[u as int] as int),
        forall|x: int| 0 <= x < old(self).n ==> #[trigger] final(self).cur@[x] >= old(self).cur@[x],
        forall|x: int| 0 <= x < old(self).n && old(self).h@[x] < old(self).h@[u as int] ==> #[trigger] final(self).cur@[x] == old(self).cur@[x],
        ret.v() == 0 && blk(old(self).n as int, old(self).e@, old(self).g@, old(self).h@, old(self).cur@, t as int) ==>
            same_caps(old(self).e@, final(self).e@)
            && blk(old(self).n as int, final(self).e@, old(self).g@, old(self).h@, final(self).cur@, t as int)
            && dead(old(self).g@, final(self).cur@, t as int, u as int),
    decreases old(self).n - old(self).h@[u as int],
//@entry
    let ghost n = self.n as int;
    let ghost e0 = self.e@;
    let ghost g = self.g@;
    let ghost h = self.h@;
    let ghost cur0 = self.cur@;
    let ghost ui = u as int;
    let ghost ti = t as int;
    let ghost b0 = blk(n, e0, g, h, cur0, ti);
    proof {
        lemma_cap_laws::<Cap>();
        assert(g.len() == n) by { reveal(net_ok); }
        lemma_sent_none(n, e0, g, ui, ti, if u == t { f.v() } else { 0 });
        assert(untouched(e0, e0, h, h[ui] as int)) by { reveal(untouched); }
    }
//@loop 0
    invariant_except_break
        r.v() > 0,
    invariant
        self.wf(), n == self.n, g == self.g@, h == self.h@, u != t,
        0 <= r.v() <= f.v(), self.cur@[ui] == i,
        sent(e0, self.e@, ui, ti, f.v() - r.v()), untouched(e0, self.e@, h, h[ui] as int),
        forall|x: int| 0 <= x < n ==> #[trigger] self.cur@[x] >= cur0[x],
        forall|x: int| 0 <= x < n && h[x] < h[ui] ==> #[trigger] self.cur@[x] == cur0[x],
        r.v() == f.v() && b0 ==> same_caps(e0, self.e@) && blk(n, self.e@, g, h, self.cur@, ti),
    ensures
        r.v() == 0 || i >= g[ui]@.len(),
    decreases g[ui]@.len() - i,
//@at loop0.head
    let ghost e1 = self.e@;
    let ghost r1 = r.v();
    let ghost c1 = self.cur@;
    proof {
        lemma_net(n, e1, g, ui, i as int);
        lemma_tw(g[ui]@[i as int]);
    }
//@at call:dfs#0.after
    let ghost e2 = self.e@;
    proof {
        lemma_net_sent(n, e1, e2, g, v as int, ti, a.v());
        assert(cp(e2, j as int) == cp(e1, j as int)) by { reveal(untouched); assert(cp(e1, j as int) >= 0); }
        lemma_net(n, e2, g, ui, i as int);
    }
//@at if2.before
    proof {
        assert(same_shape(e2, self.e@));
        lemma_dfs_step(n, e0, e1, e2, self.e@, g, h, ui, ti, i as int, f.v() - r1, a.v());
        if r.v() == f.v() && b0 {
            assert(same_caps(e0, self.e@));
            lemma_blk_caps(n, e2, self.e@, g, h, self.cur@, ti);
        }
    }
//@at set:i#0.before
    let ghost cb = self.cur@;
//@at loop0.bodyend
    proof {
        if r.v() == f.v() && b0 {
            assert(self.cur@ =~= cb.update(ui, (cb[ui] + 1) as usize));
            lemma_blk_step(n, self.e@, g, h, cb, self.cur@, ti, ui);
        }
    }
//@at loop0.after
    proof { lemma_cut_more(n, e0, self.e@, g, ui, ti, f.v() - r.v()); }
//@end
//@fn graph/max_flow.rs | Dinic::get_max_flow | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires
        old(self).wf(), s < old(self).n, t < old(self).n, s != t, old(self).n <= i32::MAX,
        exists|a: spec_fn(int) -> bool| a(s as int) && !a(t as int) && #[trigger] cut(old(self).e@, a) <= Cap::hi(),
    ensures
        final(self).wf(), final(self).n == old(self).n, final(self).g@ == old(self).g@,
        sent(old(self).e@, final(self).e@, s as int, t as int, ret.v()),
        forall|a: spec_fn(int) -> bool| a(s as int) && !a(t as int) ==> #[trigger] cut(old(self).e@, a) >= ret.v(),
        exists|a: spec_fn(int) -> bool| a(s as int) && !a(t as int) && #[trigger] cut(old(self).e@, a) == ret.v(),
//@entry
    let ghost n = self.n as int;
    let ghost e0 = self.e@;
    let ghost g = self.g@;
    let ghost si = s as int;
    let ghost ti = t as int;
    let ghost aw = choose|a: spec_fn(int) -> bool| a(si) && !a(ti) && #[trigger] cut(e0, a) <= Cap::hi();
    proof {
        lemma_cap_laws::<Cap>();
        lemma_sent_none(n, e0, g, si, ti, 0);
        lemma_cut_bound(n, e0, e0, g, si, ti, 0);
    }
//@loop 0
    invariant
        self.wf(), n == self.n, g == self.g@, ans.v() >= 0, sent(e0, self.e@, si, ti, ans.v()), cut(e0, aw) >= ans.v(),
        forall|a: spec_fn(int) -> bool| a(si) && !a(ti) ==> #[trigger] cut(e0, a) >= ans.v(),
    ensures
        levels(n, self.e@, self.h@, si), self.h@[ti] == -1,
        forall|x: int| 0 <= x < n && #[trigger] self.h@[x] != -1 ==> scanned(self.e@, g, self.h@, x, g[x]@.len() as int),
    decreases cut(e0, aw) - ans.v(),
//@at loop0.head
    let ghost e1 = self.e@;
    let ghost x1 = ans.v();
//@at call:dfs#0.before
    proof { assert(blk(n, e1, g, self.h@, self.cur@, ti)) by { reveal(blk); } }
//@at set:ans#0.after
    proof {
        lemma_sent_trans(e0, e1, self.e@, si, ti, x1, ans.v() - x1);
        lemma_cut_bound(n, e0, self.e@, g, si, ti, ans.v());
        if ans.v() == x1 { lemma_progress(n, e1, self.e@, g, self.h@, self.cur@, si, ti); }
    }
//@at loop0.after
    proof { lemma_min_cut(n, e0, self.e@, g, self.h@, si, ti, ans.v()); }
//@end
}
}
