// ---- the joins made so far, and the chains of them
/// a and b were joined, in either order
pub open spec fn joined_by(e: Seq<(int, int)>, a: int, b: int) -> bool {
    exists|i: int| 0 <= i < e.len() && ((#[trigger] e[i]) == (a, b) || e[i] == (b, a))
}
/// w is a chain of joins from a to b
pub open spec fn chain(e: Seq<(int, int)>, w: Seq<int>, a: int, b: int) -> bool {
    &&& w.len() >= 1 && w[0] == a && w[w.len() - 1] == b
    &&& forall|i: int| 0 < i < w.len() ==> joined_by(e, w[i - 1], #[trigger] w[i])
}
pub open spec fn connected(e: Seq<(int, int)>, a: int, b: int) -> bool { exists|w: Seq<int>| #[trigger] chain(e, w, a, b) }
/// every join was between two of the n elements
pub open spec fn joins_in(e: Seq<(int, int)>, n: int) -> bool { forall|i: int| 0 <= i < e.len() ==> 0 <= (#[trigger] e[i]).0 < n && 0 <= e[i].1 < n }
/// two elements are in one class of v exactly if a chain of joins connects them
pub open spec fn tracks(v: Seq<int>, e: Seq<(int, int)>) -> bool {
    &&& joins_in(e, v.len() as int)
    &&& forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() ==> (v[a] == v[b] <==> #[trigger] connected(e, a, b))
}
pub proof fn lemma_same_class(v: Seq<int>, e: Seq<(int, int)>, w: Seq<int>, a: int, b: int)
    requires
        chain(e, w, a, b), joins_in(e, v.len() as int), 0 <= a < v.len(), 0 <= b < v.len(),
        forall|i: int| 0 <= i < e.len() ==> v[(#[trigger] e[i]).0] == v[e[i].1],
    ensures v[a] == v[b],
    decreases w.len(),
{
    if w.len() > 1 {
        let w2 = w.drop_last();
        let c = w[w.len() - 2];
        assert(joined_by(e, w[w.len() - 1 - 1], w[w.len() - 1]));
        assert forall|i: int| 0 < i < w2.len() implies joined_by(e, w2[i - 1], #[trigger] w2[i]) by { assert(joined_by(e, w[i - 1], w[i])); }
        assert(chain(e, w2, a, c));
        lemma_same_class(v, e, w2, a, c);
    }
}
pub proof fn lemma_chain_cat(e: Seq<(int, int)>, w1: Seq<int>, w2: Seq<int>, a: int, b: int, c: int, d: int)
    requires chain(e, w1, a, b), chain(e, w2, c, d), joined_by(e, b, c),
    ensures connected(e, a, d),
{
    let w = w1 + w2;
    assert forall|i: int| 0 < i < w.len() implies joined_by(e, w[i - 1], #[trigger] w[i]) by {
        if i < w1.len() {
            assert(joined_by(e, w1[i - 1], w1[i]));
        } else if i > w1.len() {
            assert(joined_by(e, w2[i - w1.len() - 1], w2[i - w1.len()]));
        }
    }
    assert(chain(e, w, a, d));
}
pub proof fn lemma_more(e: Seq<(int, int)>, x: (int, int), w: Seq<int>, a: int, b: int)
    requires chain(e, w, a, b),
    ensures chain(e.push(x), w, a, b),
{
    let e2 = e.push(x);
    assert forall|i: int| 0 < i < w.len() implies joined_by(e2, w[i - 1], #[trigger] w[i]) by {
        assert(joined_by(e, w[i - 1], w[i]));
        let j = choose|j: int| 0 <= j < e.len() && ((#[trigger] e[j]) == (w[i - 1], w[i]) || e[j] == (w[i], w[i - 1]));
        assert(e2[j] == e[j]);
    }
}
pub proof fn lemma_tracks_new(v: Seq<int>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == i,
    ensures tracks(v, seq![]),
{
    let e = Seq::<(int, int)>::empty();
    assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() implies (v[a] == v[b] <==> #[trigger] connected(e, a, b)) by {
        if a == b { assert(chain(e, seq![a], a, b)); }
        if connected(e, a, b) {
            let w = choose|w: Seq<int>| #[trigger] chain(e, w, a, b);
            lemma_same_class(v, e, w, a, b);
        }
    }
    assert(e =~= seq![]);
}
pub proof fn lemma_tracks_join(v: Seq<int>, v2: Seq<int>, e: Seq<(int, int)>, x: int, y: int)
    requires
        tracks(v, e), 0 <= x < v.len(), 0 <= y < v.len(),
        v2 == v && v[x] == v[y] || v2 == merged(v, x, y, v[x]) || v2 == merged(v, x, y, v[y]),
    ensures tracks(v2, e.push((x, y))),
{
    let e2 = e.push((x, y));
    assert(e2[e.len() as int] == (x, y));
    assert(joined_by(e2, x, y) && joined_by(e2, y, x));
    assert forall|i: int| 0 <= i < e2.len() implies 0 <= (#[trigger] e2[i]).0 < v.len() && 0 <= e2[i].1 < v.len() && v2[e2[i].0] == v2[e2[i].1] by {
        if i < e.len() {
            assert(e2[i] == e[i]);
            let (a, b) = e[i];
            assert(e[i] == (a, b));
            assert(joined_by(e, a, b));
            assert(chain(e, seq![a, b], a, b));
            assert(connected(e, a, b));
            assert(v[a] == v[b]);
        }
    }
    assert forall|a: int, b: int| 0 <= a < v2.len() && 0 <= b < v2.len() implies (v2[a] == v2[b] <==> #[trigger] connected(e2, a, b)) by {
        if connected(e2, a, b) {
            let w = choose|w: Seq<int>| #[trigger] chain(e2, w, a, b);
            lemma_same_class(v2, e2, w, a, b);
        }
        if v2[a] == v2[b] {
            if v[a] == v[b] {
                assert(connected(e, a, b));
                let w = choose|w: Seq<int>| #[trigger] chain(e, w, a, b);
                lemma_more(e, (x, y), w, a, b);
            } else {
                let (p, q) = if v[a] == v[x] { (x, y) } else { (y, x) };
                assert(v[a] == v[p] && v[b] == v[q]);
                assert(connected(e, a, p) && connected(e, q, b));
                let w1 = choose|w: Seq<int>| #[trigger] chain(e, w, a, p);
                let w2 = choose|w: Seq<int>| #[trigger] chain(e, w, q, b);
                lemma_more(e, (x, y), w1, a, p);
                lemma_more(e, (x, y), w2, q, b);
                lemma_chain_cat(e2, w1, w2, a, p, q, b);
            }
        }
    }
}
// ---- the listing of the groups
pub open spec fn holds(s: Seq<usize>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == x }
/// x is in one of the groups
pub open spec fn listed(g: Seq<Seq<usize>>, x: int) -> bool { exists|i: int| 0 <= i < g.len() && #[trigger] holds(g[i], x) }
/// the groups list every element once, those of one class together, and none is empty
pub open spec fn lists_classes(g: Seq<Seq<usize>>, v: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0
    &&& forall|i: int, j: int, k: int| 0 <= i < g.len() && 0 <= j < k < g[i].len() ==> (#[trigger] g[i][j]) != (#[trigger] g[i][k])
    &&& forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g[i].len() ==> (#[trigger] g[i][j]) < v.len()
    &&& forall|x: int| 0 <= x < v.len() ==> #[trigger] listed(g, x)
    &&& forall|x: int, y: int, i: int, j: int| 0 <= x < v.len() && 0 <= y < v.len() && 0 <= i < g.len() && 0 <= j < g.len() && #[trigger] holds(g[i], x) && #[trigger] holds(g[j], y)
            ==> (v[x] == v[y] <==> i == j)
}
pub proof fn lemma_members(v: Seq<int>, r: int, k: int)
    requires 0 <= k <= v.len() <= usize::MAX,
    ensures
        forall|j: int| 0 <= j < members(v, r, k).len() ==> 0 <= (#[trigger] members(v, r, k)[j]) < k && v[members(v, r, k)[j] as int] == r,
        forall|i: int, j: int| 0 <= i < j < members(v, r, k).len() ==> (#[trigger] members(v, r, k)[i]) < (#[trigger] members(v, r, k)[j]),
        forall|x: int| 0 <= x < k ==> (#[trigger] holds(members(v, r, k), x) <==> v[x] == r),
    decreases k,
{
    if k > 0 {
        lemma_members(v, r, k - 1);
        let a = members(v, r, k - 1);
        let b = members(v, r, k);
        assert forall|x: int| 0 <= x < k implies (#[trigger] holds(b, x) <==> v[x] == r) by {
            if v[x] == r {
                if x == k - 1 { assert(b[a.len() as int] == x); } else {
                    assert(holds(a, x));
                    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) == x;
                    assert(b[i] == x);
                }
            }
            if holds(b, x) {
                let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) == x;
                if i < a.len() { assert(a[i] == x); assert(v[a[i] as int] == r); }
            }
        }
    }
}
/// where the classes went: the group of class r
pub proof fn lemma_nonempty(s: Seq<Seq<usize>>, k: int) -> (at: Seq<int>)
    requires 0 <= k <= s.len(),
    ensures
        at.len() == nonempty(s, k).len(),
        forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < k && nonempty(s, k)[i] == s[at[i]] && s[at[i]].len() > 0,
        forall|i: int, j: int| 0 <= i < j < at.len() ==> (#[trigger] at[i]) < (#[trigger] at[j]),
        forall|r: int| 0 <= r < k && (#[trigger] s[r]).len() > 0 ==> exists|i: int| 0 <= i < at.len() && (#[trigger] at[i]) == r,
    decreases k,
{
    if k <= 0 {
        Seq::empty()
    } else {
        let a = lemma_nonempty(s, k - 1);
        if s[k - 1].len() == 0 {
            a
        } else {
            let b = a.push(k - 1);
            assert forall|r: int| 0 <= r < k && (#[trigger] s[r]).len() > 0 implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]) == r by {
                if r == k - 1 { assert(b[a.len() as int] == r); } else {
                    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) == r;
                    assert(b[i] == r);
                }
            }
            b
        }
    }
}
pub proof fn lemma_lists_classes(v: Seq<int>)
    requires v.len() <= usize::MAX, forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]) < v.len(),
    ensures lists_classes(classes(v), v),
{
    let n = v.len() as int;
    let s = Seq::new(v.len(), |r: int| members(v, r, n));
    let g = classes(v);
    let at = lemma_nonempty(s, n);
    assert forall|r: int| 0 <= r < n implies #[trigger] s[r] == members(v, r, n) by {}
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == members(v, at[i], n) by { assert(g[i] == s[at[i]]); }
    assert forall|i: int, x: int| 0 <= i < g.len() && 0 <= x < n implies (#[trigger] holds(g[i], x) <==> v[x] == at[i]) by { lemma_members(v, at[i], n); }
    assert forall|i: int, j: int, k: int| 0 <= i < g.len() && 0 <= j < k < g[i].len() implies (#[trigger] g[i][j]) != (#[trigger] g[i][k]) by { lemma_members(v, at[i], n); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g[i].len() implies (#[trigger] g[i][j]) < v.len() by { lemma_members(v, at[i], n); }
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).len() > 0 by { assert(s[at[i]].len() > 0); }
    assert forall|x: int| 0 <= x < v.len() implies #[trigger] listed(g, x) by {
        let r = v[x];
        lemma_members(v, r, n);
        assert(holds(s[r], x));
        let j = choose|j: int| 0 <= j < s[r].len() && (#[trigger] s[r][j]) == x;
        assert(s[r].len() > 0);
        let i = choose|i: int| 0 <= i < at.len() && (#[trigger] at[i]) == r;
        assert(holds(g[i], x));
    }
}
