// ---- the breadth-first pass: ord lists the nodes as they are found, those before index h are done, and the first i edges of the one at h
pub open spec fn dn(ord: Seq<int>, h: int, i: int, q: int, c: int) -> bool { exists|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h || a == h && c < i) }
pub open spec fn found(ord: Seq<int>, q: int) -> bool { exists|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q }
/// found over an edge already seen
pub open spec fn via<const N: usize>(s0: Seq<Node<N>>, ord: Seq<int>, h: int, i: int, q: int) -> bool {
    exists|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) == q && dn(ord, h, i, p, c)
}
#[verifier::opaque]
pub open spec fn ord_ok<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int) -> bool {
    &&& ord.len() > 0 && ord[0] == 0 && 0 <= h <= ord.len() && 0 <= i <= N && w.len() == s0.len()
    &&& forall|a: int| 0 <= a < ord.len() ==> 0 <= (#[trigger] ord[a]) < s0.len()
    &&& forall|a: int, b: int| 0 <= a < ord.len() && 0 <= b < ord.len() && (#[trigger] ord[a]) == (#[trigger] ord[b]) ==> a == b
    &&& forall|a: int, b: int| 0 <= a <= b < ord.len() ==> w[#[trigger] ord[a]].len() <= w[#[trigger] ord[b]].len()
    &&& forall|b: int| 0 <= b < ord.len() && h < ord.len() ==> w[#[trigger] ord[b]].len() <= w[ord[h]].len() + 1
    &&& forall|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) != 0 && dn(ord, h, i, p, c) ==> found(ord, nx(s0, p, c))
    &&& forall|b: int| 0 < b < ord.len() ==> #[trigger] via(s0, ord, h, i, ord[b])
}
pub open spec fn back_ok<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, q: int) -> bool { s[q].back == lon(w, tail(w[q])) && out_ok(s, w, d, q) }
pub open spec fn edge_ok<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int, q: int, c: int) -> bool {
    nx(s, q, c) == if dn(ord, h, i, q, c) { lon(w, w[q].push(c)) } else { nx(s0, q, c) }
}
#[verifier::opaque]
pub open spec fn st_ok<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int) -> bool {
    &&& s.len() == s0.len()
    &&& forall|q: int| 0 <= q < s.len() ==> #[trigger] marked(s, w, d, q)
    &&& forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N ==> #[trigger] edge_ok(s0, s, w, ord, h, i, q, c)
    &&& forall|a: int| 0 <= a < ord.len() ==> back_ok(s, w, d, #[trigger] ord[a])
}
#[verifier::opaque]
pub open spec fn pass<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int) -> bool {
    trie_w(s0, w, d) && ord_ok(s0, w, ord, h, i) && st_ok(s0, s, w, d, ord, h, i)
}
pub proof fn lemma_trie_keyed<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>)
    requires trie_w(s, w, d),
    ensures tree(s, w), words(w), keyed(w, d), w.len() == s.len(),
{
    reveal(trie_w);
    lemma_tree_words(s, w);
    assert forall|p: int| 0 < p < w.len() implies #[trigger] used(w, d, p) by {
        assert(stem(d, w[p]) || w[p].is_prefix_of(seq![]));
        let r = lemma_parent(s, w, p);
    }
}
pub proof fn lemma_pass_begin<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>)
    requires trie_w(s, w, d),
    ensures pass(s, s, w, d, seq![0int], 0, 0),
{
    reveal(pass);
    lemma_trie_keyed(s, w, d);
    reveal(trie_w);
    reveal(ord_ok);
    reveal(st_ok);
    let ord = seq![0int];
    lemma_lon(w, tail(w[0]));
    assert(fresh(s, 0));
    assert(hits(d, tail(w[0])) == Seq::<usize>::empty());
    assert(back_ok(s, w, d, 0));
    assert forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N implies #[trigger] edge_ok(s, s, w, ord, 0, 0, q, c) by {}
}
pub proof fn lemma_facts<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int)
    requires pass(s0, s, w, d, ord, h, i),
    ensures
        tree(s0, w), words(w), keyed(w, d), w.len() == s0.len() == s.len(), s.len() > 0, ord.len() > 0, ord[0] == 0, 0 <= h <= ord.len() <= s.len(), 0 <= i <= N,
        forall|a: int| 0 <= a < ord.len() ==> 0 <= (#[trigger] ord[a]) < s.len(),
        forall|q: int| 0 <= q < s.len() ==> #[trigger] marked(s, w, d, q),
{
    reveal(pass);
    lemma_trie_keyed(s0, w, d);
    reveal(ord_ok);
    reveal(st_ok);
    let all = Seq::new(s.len(), |x: int| true);
    lemma_pigeon(ord, all);
    lemma_count_bounds(all);
}
/// at the node at h, the edge i still leads to the child
pub proof fn lemma_edge<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int)
    requires pass(s0, s, w, d, ord, h, i), h < ord.len(), i < N,
    ensures
        nx(s, ord[h], i) == nx(s0, ord[h], i), !dn(ord, h, i, ord[h], i),
        nx(s0, ord[h], i) != 0 ==> ord[h] < nx(s0, ord[h], i) < s.len() && w[nx(s0, ord[h], i)] == w[ord[h]].push(i) && !found(ord, nx(s0, ord[h], i)),
{
    reveal(pass);
    lemma_facts(s0, s, w, d, ord, h, i);
    reveal(ord_ok);
    reveal(st_ok);
    let u = ord[h];
    assert(edge_ok(s0, s, w, ord, h, i, u, i));
    if dn(ord, h, i, u, i) {
        let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == u && (a < h || a == h && i < i);
        assert(ord[a] == ord[h]);
    }
    let v = nx(s0, u, i);
    if v != 0 {
        assert(w[v] == w[u].push(i));
        if found(ord, v) {
            let b = choose|b: int| 0 <= b < ord.len() && (#[trigger] ord[b]) == v;
            assert(b != 0);
            assert(via(s0, ord, h, i, ord[b]));
            let (p, c) = choose|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) == v && dn(ord, h, i, p, c);
            assert(w[v] == w[p].push(c));
            lemma_tail_push(w[u], i);
            lemma_tail_push(w[p], c);
            assert(w[u] == w[p]);
            assert(w[u].push(i).last() == i && w[p].push(c).last() == c);
        }
    }
}
/// the child v joins the queue
pub proof fn lemma_ord_push<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int)
    requires
        tree(s0, w), ord_ok(s0, w, ord, h, i), h < ord.len(), i < N,
        nx(s0, ord[h], i) != 0, !found(ord, nx(s0, ord[h], i)),
    ensures ord_ok(s0, w, ord.push(nx(s0, ord[h], i)), h, i + 1),
{
    reveal(ord_ok);
    let u = ord[h];
    let v = nx(s0, u, i);
    let ord2 = ord.push(v);
    assert(w[v] == w[u].push(i));
    assert forall|a: int, b: int| 0 <= a < ord2.len() && 0 <= b < ord2.len() && (#[trigger] ord2[a]) == (#[trigger] ord2[b]) implies a == b by {
        if a < ord.len() { assert(ord[a] == ord2[a]); }
        if b < ord.len() { assert(ord[b] == ord2[b]); }
    }
    assert forall|a: int, b: int| 0 <= a <= b < ord2.len() implies w[#[trigger] ord2[a]].len() <= w[#[trigger] ord2[b]].len() by {
        if a < ord.len() { assert(ord[a] == ord2[a]); }
        if b < ord.len() { assert(ord[b] == ord2[b]); }
    }
    assert forall|b: int| 0 <= b < ord2.len() implies w[#[trigger] ord2[b]].len() <= w[ord2[h]].len() + 1 by {
        if b < ord.len() { assert(ord[b] == ord2[b]); }
    }
    lemma_dn_push(ord, v, h, i);
    assert forall|q: int| found(ord, q) || q == v implies #[trigger] found(ord2, q) by {
        if q == v { assert(ord2[ord.len() as int] == v); } else {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q;
            assert(ord2[a] == q);
        }
    }
    assert forall|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) != 0 && dn(ord2, h, i + 1, p, c) implies found(ord2, nx(s0, p, c)) by {
        if !(p == u && c == i) { assert(dn(ord, h, i, p, c)); }
    }
    assert forall|b: int| 0 < b < ord2.len() implies #[trigger] via(s0, ord2, h, i + 1, ord2[b]) by {
        if b < ord.len() {
            assert(ord[b] == ord2[b]);
            assert(via(s0, ord, h, i, ord[b]));
            let (p, c) = choose|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) == ord[b] && dn(ord, h, i, p, c);
            assert(dn(ord2, h, i + 1, p, c));
        } else {
            assert(dn(ord2, h, i + 1, u, i));
            assert(nx(s0, u, i) == ord2[b]);
        }
    }
}
/// one more edge of the node at h counts as done
pub proof fn lemma_dn_step(ord: Seq<int>, h: int, i: int)
    requires 0 <= h < ord.len(),
    ensures forall|q: int, c: int| #[trigger] dn(ord, h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i),
{
    assert forall|q: int, c: int| #[trigger] dn(ord, h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i) by {
        if dn(ord, h, i + 1, q, c) {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h || a == h && c < i + 1);
            assert(ord[a] == q);
        }
        if dn(ord, h, i, q, c) {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h || a == h && c < i);
            assert(ord[a] == q);
        }
        if q == ord[h] && c <= i { assert(ord[h] == q); }
    }
}
pub proof fn lemma_dn_push(ord: Seq<int>, v: int, h: int, i: int)
    requires 0 <= h < ord.len(),
    ensures
        forall|q: int, c: int| #[trigger] dn(ord.push(v), h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i),
{
    let ord2 = ord.push(v);
    lemma_dn_step(ord, h, i);
    assert forall|q: int, c: int| #[trigger] dn(ord2, h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i) by {
        if dn(ord2, h, i + 1, q, c) {
            let a = choose|a: int| 0 <= a < ord2.len() && (#[trigger] ord2[a]) == q && (a < h || a == h && c < i + 1);
            assert(ord[a] == q);
            assert(dn(ord, h, i + 1, q, c));
        }
        if dn(ord, h, i + 1, q, c) {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h || a == h && c < i + 1);
            assert(ord2[a] == q);
        }
    }
}
pub proof fn lemma_ord_skip<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int)
    requires tree(s0, w), ord_ok(s0, w, ord, h, i), h < ord.len(), i < N, nx(s0, ord[h], i) == 0,
    ensures ord_ok(s0, w, ord, h, i + 1),
{
    reveal(ord_ok);
    lemma_dn_step(ord, h, i);
    assert forall|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) != 0 && dn(ord, h, i + 1, p, c) implies found(ord, nx(s0, p, c)) by {
        if dn(ord, h, i, p, c) { } else { assert(c == i || dn(ord, h, i, p, c)) by { if c < i { assert(ord[h] == p); } } }
    }
    assert forall|b: int| 0 < b < ord.len() implies #[trigger] via(s0, ord, h, i + 1, ord[b]) by {
        assert(via(s0, ord, h, i, ord[b]));
        let (p, c) = choose|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) == ord[b] && dn(ord, h, i, p, c);
        assert(dn(ord, h, i + 1, p, c));
    }
}
/// all edges of the node at h are done
pub proof fn lemma_dn_next(ord: Seq<int>, h: int, n: int)
    requires 0 <= h < ord.len(),
    ensures forall|q: int, c: int| 0 <= c < n ==> #[trigger] dn(ord, h + 1, 0, q, c) == dn(ord, h, n, q, c),
{
    assert forall|q: int, c: int| 0 <= c < n implies #[trigger] dn(ord, h + 1, 0, q, c) == dn(ord, h, n, q, c) by {
        if dn(ord, h + 1, 0, q, c) {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h + 1 || a == h + 1 && c < 0);
            assert(ord[a] == q);
        }
        if dn(ord, h, n, q, c) {
            let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q && (a < h || a == h && c < n);
            assert(ord[a] == q);
        }
    }
}
pub proof fn lemma_ord_next<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int)
    requires ord_ok(s0, w, ord, h, N as int), h < ord.len(),
    ensures ord_ok(s0, w, ord, h + 1, 0),
{
    reveal(ord_ok);
    lemma_dn_next(ord, h, N as int);
    assert forall|b: int| 0 < b < ord.len() implies #[trigger] via(s0, ord, h + 1, 0, ord[b]) by {
        assert(via(s0, ord, h, N as int, ord[b]));
        let (p, c) = choose|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) == ord[b] && dn(ord, h, N as int, p, c);
        assert(dn(ord, h + 1, 0, p, c));
    }
    assert forall|b: int| 0 <= b < ord.len() && h + 1 < ord.len() implies w[#[trigger] ord[b]].len() <= w[ord[h + 1]].len() + 1 by {
        assert(w[ord[h]].len() <= w[ord[h + 1]].len());
    }
    assert forall|p: int, c: int| 0 <= p < s0.len() && 0 <= c < N && (#[trigger] nx(s0, p, c)) != 0 && dn(ord, h + 1, 0, p, c) implies found(ord, nx(s0, p, c)) by {
        assert(dn(ord, h, N as int, p, c));
    }
}
pub proof fn lemma_st_next<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int)
    requires st_ok(s0, s, w, d, ord, h, N as int), 0 <= h < ord.len(),
    ensures st_ok(s0, s, w, d, ord, h + 1, 0),
{
    reveal(st_ok);
    lemma_dn_next(ord, h, N as int);
    assert forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N implies #[trigger] edge_ok(s0, s, w, ord, h + 1, 0, q, c) by {
        assert(edge_ok(s0, s, w, ord, h, N as int, q, c));
        assert(dn(ord, h + 1, 0, q, c) == dn(ord, h, N as int, q, c));
    }
}
pub proof fn lemma_pass_next<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int)
    requires pass(s0, s, w, d, ord, h, N as int), h < ord.len(),
    ensures pass(s0, s, w, d, ord, h + 1, 0),
{
    reveal(pass);
    assert(0 <= h) by { reveal(ord_ok); }
    lemma_ord_next(s0, w, ord, h);
    lemma_st_next(s0, s, w, d, ord, h);
}
/// shorter words come before the node at h
pub proof fn lemma_shorter<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int, q: int) -> (a: int)
    requires tree(s0, w), ord_ok(s0, w, ord, h, i), 0 <= q < s0.len(), 0 < h, h == ord.len() || w[q].len() < w[ord[h]].len(),
    ensures 0 <= a < h, ord[a] == q,
    decreases q,
{
    reveal(ord_ok);
    if q == 0 {
        0
    } else {
        let (p, c) = lemma_parent(s0, w, q);
        let b = lemma_shorter(s0, w, ord, h, i, p);
        assert(ord[b] == p);
        assert(dn(ord, h, i, p, c));
        assert(found(ord, nx(s0, p, c)));
        let a = choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q;
        if a >= h { assert(w[ord[h]].len() <= w[ord[a]].len()); }
        a
    }
}
pub proof fn lemma_not_longer<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int, q: int) -> (a: int)
    requires tree(s0, w), ord_ok(s0, w, ord, h, i), 0 <= q < s0.len(), 0 < h < ord.len(), w[q].len() <= w[ord[h]].len(),
    ensures 0 <= a < ord.len(), ord[a] == q,
{
    if q == 0 {
        assert(ord[0] == 0) by { reveal(ord_ok); }
        0
    } else {
        let (p, c) = lemma_parent(s0, w, q);
        let b = lemma_shorter(s0, w, ord, h, i, p);
        reveal(ord_ok);
        assert(ord[b] == p);
        assert(dn(ord, h, i, p, c));
        assert(found(ord, nx(s0, p, c)));
        choose|a: int| 0 <= a < ord.len() && (#[trigger] ord[a]) == q
    }
}
/// the transition of the back node is where the word without its first letter leads
pub proof fn lemma_fail<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int)
    requires pass(s0, s, w, d, ord, h, i), 0 < h < ord.len(), i < N,
    ensures
        0 <= s[ord[h]].back < s.len(), nx(s, s[ord[h]].back as int, i) == lon(w, tail(w[ord[h]].push(i))), 0 <= nx(s, s[ord[h]].back as int, i) < s.len(),
        w[nx(s, s[ord[h]].back as int, i)].len() <= w[ord[h]].len(), back_ok(s, w, d, nx(s, s[ord[h]].back as int, i)), ord[h] != 0,
{
    reveal(pass);
    lemma_facts(s0, s, w, d, ord, h, i);
    let u = ord[h];
    let b = s[u].back as int;
    assert(back_ok(s, w, d, ord[h])) by { reveal(st_ok); }
    assert(u != 0) by { reveal(ord_ok); assert(ord[0] == 0); }
    let r = lemma_parent(s0, w, u);
    lemma_lon(w, tail(w[u]));
    assert(w[b].len() < w[u].len());
    let a = lemma_shorter(s0, w, ord, h, i, b);
    assert(ord[a] == b);
    assert(dn(ord, h, i, b, i));
    assert(edge_ok(s0, s, w, ord, h, i, b, i)) by { reveal(st_ok); }
    lemma_goto(w, tail(w[u]), i);
    lemma_tail_push(w[u], i);
    lemma_lon(w, tail(w[u].push(i)));
    let f = nx(s, b, i);
    let e = lemma_not_longer(s0, w, ord, h, i, f);
    assert(back_ok(s, w, d, ord[e])) by { reveal(st_ok); }
}
/// the edge i is missing: it is set to where the back node leads (at the root: stays 0)
pub proof fn lemma_pass_skip<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int)
    requires
        pass(s0, s, w, d, ord, h, i), h < ord.len(), i < N, nx(s0, ord[h], i) == 0, s2.len() == s.len(),
        nx(s2, ord[h], i) == lon(w, tail(w[ord[h]].push(i))),
        forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N && !(q == ord[h] && c == i) ==> (#[trigger] nx(s2, q, c)) == nx(s, q, c),
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).end == s[q].end && s2[q].back == s[q].back && s2[q].output == s[q].output,
    ensures pass(s0, s2, w, d, ord, h, i + 1),
{
    reveal(pass);
    lemma_facts(s0, s, w, d, ord, h, i);
    lemma_ord_skip(s0, w, ord, h, i);
    let u = ord[h];
    lemma_missing(s0, w, u, i);
    assert(w[u].push(i).len() > 0);
    lemma_dn_step(ord, h, i);
    reveal(st_ok);
    assert forall|q: int| 0 <= q < s2.len() implies #[trigger] marked(s2, w, d, q) by { assert(marked(s, w, d, q)); }
    assert forall|q: int, c: int| 0 <= q < s2.len() && 0 <= c < N implies #[trigger] edge_ok(s0, s2, w, ord, h, i + 1, q, c) by {
        assert(edge_ok(s0, s, w, ord, h, i, q, c));
        if q == u && c < i { assert(ord[h] == q); assert(dn(ord, h, i, q, c)); }
        assert(dn(ord, h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i));
    }
    assert forall|a: int| 0 <= a < ord.len() implies back_ok(s2, w, d, #[trigger] ord[a]) by { assert(back_ok(s, w, d, ord[a])); }
}
/// the edge i leads to the child v, whose links are set
pub proof fn lemma_edges_push<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, ord: Seq<int>, h: int, i: int, v: int)
    requires
        0 <= h < ord.len(), 0 <= i < N, s2.len() == s.len(), 0 <= ord[h] < s.len(),
        forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N ==> #[trigger] edge_ok(s0, s, w, ord, h, i, q, c),
        nx(s, ord[h], i) == lon(w, w[ord[h]].push(i)),
        forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N ==> (#[trigger] nx(s2, q, c)) == nx(s, q, c),
    ensures forall|q: int, c: int| 0 <= q < s2.len() && 0 <= c < N ==> #[trigger] edge_ok(s0, s2, w, ord.push(v), h, i + 1, q, c),
{
    let ord2 = ord.push(v);
    let u = ord[h];
    lemma_dn_push(ord, v, h, i);
    assert forall|q: int, c: int| 0 <= q < s2.len() && 0 <= c < N implies #[trigger] edge_ok(s0, s2, w, ord2, h, i + 1, q, c) by {
        assert(edge_ok(s0, s, w, ord, h, i, q, c));
        assert(nx(s2, q, c) == nx(s, q, c));
        if q == u && c < i { assert(ord[h] == q); assert(dn(ord, h, i, q, c)); }
        assert(dn(ord2, h, i + 1, q, c) == (dn(ord, h, i, q, c) || q == ord[h] && c <= i));
    }
}
pub proof fn lemma_backs_push<const N: usize>(s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, v: int)
    requires
        s2.len() == s.len(), back_ok(s2, w, d, v), !found(ord, v),
        forall|a: int| 0 <= a < ord.len() ==> back_ok(s, w, d, #[trigger] ord[a]),
        forall|a: int| 0 <= a < ord.len() ==> 0 <= (#[trigger] ord[a]) < s.len(),
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).end == s[q].end && (q != v ==> s2[q].back == s[q].back && s2[q].output == s[q].output),
    ensures forall|a: int| 0 <= a < ord.push(v).len() ==> back_ok(s2, w, d, #[trigger] ord.push(v)[a]),
{
    let ord2 = ord.push(v);
    assert forall|a: int| 0 <= a < ord2.len() implies back_ok(s2, w, d, #[trigger] ord2[a]) by {
        if a < ord.len() { assert(ord2[a] == ord[a]); assert(back_ok(s, w, d, ord[a])); assert(ord[a] != v); }
    }
}
pub proof fn lemma_pass_push<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int, v: int)
    requires
        pass(s0, s, w, d, ord, h, i), h < ord.len(), i < N, v == nx(s0, ord[h], i), v != 0, s2.len() == s.len(), back_ok(s2, w, d, v),
        forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N ==> (#[trigger] nx(s2, q, c)) == nx(s, q, c),
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).end == s[q].end && (q != v ==> s2[q].back == s[q].back && s2[q].output == s[q].output),
    ensures pass(s0, s2, w, d, ord.push(v), h, i + 1),
{
    lemma_facts(s0, s, w, d, ord, h, i);
    lemma_edge(s0, s, w, d, ord, h, i);
    assert(trie_w(s0, w, d) && ord_ok(s0, w, ord, h, i) && st_ok(s0, s, w, d, ord, h, i)) by { reveal(pass); }
    lemma_ord_push(s0, w, ord, h, i);
    lemma_missing(s0, w, ord[h], i);
    assert(st_ok(s0, s2, w, d, ord.push(v), h, i + 1)) by {
        reveal(st_ok);
        lemma_edges_push(s0, s, s2, w, ord, h, i, v);
        lemma_backs_push(s, s2, w, d, ord, v);
        assert forall|q: int| 0 <= q < s2.len() implies #[trigger] marked(s2, w, d, q) by { assert(marked(s, w, d, q)); }
    }
    reveal(pass);
}
/// what the code needs to know at the edge i of the node at h
pub proof fn lemma_here<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int)
    requires pass(s0, s, w, d, ord, h, i), 0 < h < ord.len(), i < N,
    ensures
        s.len() == s0.len(), 0 <= ord[h] < s.len(), 0 <= s[ord[h]].back < s.len(), 0 <= nx(s, s[ord[h]].back as int, i) < s.len(), 0 <= nx(s, ord[h], i) < s.len(),
        nx(s, ord[h], i) == nx(s0, ord[h], i), nx(s, s[ord[h]].back as int, i) == lon(w, tail(w[ord[h]].push(i))),
        nx(s, ord[h], i) != 0 ==> nx(s, ord[h], i) != ord[h],
{
    lemma_facts(s0, s, w, d, ord, h, i);
    lemma_edge(s0, s, w, d, ord, h, i);
    lemma_fail(s0, s, w, d, ord, h, i);
}
/// the child v of the node at h is linked and joins the queue
pub proof fn lemma_push<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int, v: int)
    requires
        pass(s0, s, w, d, ord, h, i), 0 < h < ord.len(), i < N, v == nx(s0, ord[h], i), v != 0, s2.len() == s.len(),
        s2[v].back == nx(s, s[ord[h]].back as int, i),
        s2[v].output == if s[nx(s, s[ord[h]].back as int, i)].end is Some { Some(nx(s, s[ord[h]].back as int, i) as usize) } else { s[nx(s, s[ord[h]].back as int, i)].output },
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).end == s[q].end && s2[q].next == s[q].next && (q != v ==> s2[q].back == s[q].back && s2[q].output == s[q].output),
    ensures pass(s0, s2, w, d, ord.push(v), h, i + 1), ord.len() < s0.len(),
{
    assert forall|q: int, c: int| 0 <= q < s.len() && 0 <= c < N implies (#[trigger] nx(s2, q, c)) == nx(s, q, c) by {
        assert(s2[q].next == s[q].next);
    }
    lemma_links(s0, s, s2, w, d, ord, h, i, v);
    lemma_pass_push(s0, s, s2, w, d, ord, h, i, v);
    lemma_facts(s0, s2, w, d, ord.push(v), h, i + 1);
}
/// the links of the child v
pub proof fn lemma_links<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int, i: int, v: int)
    requires
        pass(s0, s, w, d, ord, h, i), 0 < h < ord.len(), i < N, v == nx(s0, ord[h], i), v != 0, s2.len() == s.len(),
        s2[v].back == nx(s, s[ord[h]].back as int, i),
        s2[v].output == if s[nx(s, s[ord[h]].back as int, i)].end is Some { Some(nx(s, s[ord[h]].back as int, i) as usize) } else { s[nx(s, s[ord[h]].back as int, i)].output },
    ensures back_ok(s2, w, d, v),
{
    reveal(pass);
    lemma_facts(s0, s, w, d, ord, h, i);
    lemma_edge(s0, s, w, d, ord, h, i);
    lemma_fail(s0, s, w, d, ord, h, i);
    let f = nx(s, s[ord[h]].back as int, i);
    lemma_hits_lon(w, d, tail(w[v]));
    assert(marked(s, w, d, f));
    assert(f == s[s[ord[h]].back as int].next@[i]);
}
/// a child of the root
pub proof fn lemma_links_root<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, i: int, v: int)
    requires trie_w(s0, w, d), 0 <= i < N, v == nx(s0, 0, i), v != 0,
    ensures back_ok(s0, w, d, v),
{
    lemma_trie_keyed(s0, w, d);
    reveal(trie_w);
    assert(w[v] == w[0].push(i));
    assert(fresh(s0, v));
    assert(tail(w[v]) =~= Seq::<int>::empty());
    lemma_lon(w, tail(w[v]));
}
pub proof fn lemma_root_skip<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, i: int)
    requires pass(s0, s0, w, d, ord, 0, i), i < N, nx(s0, 0, i) == 0,
    ensures pass(s0, s0, w, d, ord, 0, i + 1),
{
    lemma_facts(s0, s0, w, d, ord, 0, i);
    assert(tail(w[0].push(i)) =~= Seq::<int>::empty());
    lemma_lon(w, tail(w[0].push(i)));
    lemma_pass_skip(s0, s0, s0, w, d, ord, 0, i);
}
pub proof fn lemma_root_push<const N: usize>(s0: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, i: int, v: int)
    requires pass(s0, s0, w, d, ord, 0, i), i < N, v == nx(s0, 0, i), v != 0,
    ensures pass(s0, s0, w, d, ord.push(v), 0, i + 1),
{
    lemma_facts(s0, s0, w, d, ord, 0, i);
    assert(trie_w(s0, w, d)) by { reveal(pass); }
    lemma_links_root(s0, w, d, i, v);
    lemma_pass_push(s0, s0, s0, w, d, ord, 0, i, v);
}
pub proof fn lemma_next<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int)
    requires pass(s0, s, w, d, ord, h, N as int), h < ord.len() || h == 0,
    ensures pass(s0, s, w, d, ord, h + 1, 0), 0 < h + 1 <= ord.len() <= s0.len(), s.len() == s0.len(),
{
    lemma_facts(s0, s, w, d, ord, h, N as int);
    lemma_pass_next(s0, s, w, d, ord, h);
    lemma_facts(s0, s, w, d, ord, h + 1, 0);
}
pub proof fn lemma_pass_end<const N: usize>(s0: Seq<Node<N>>, s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, ord: Seq<int>, h: int)
    requires pass(s0, s, w, d, ord, h, 0), h == ord.len(),
    ensures auto_w(s, w, d),
{
    reveal(pass);
    lemma_facts(s0, s, w, d, ord, h, 0);
    reveal(auto_w);
    assert forall|p: int| 0 <= p < s.len() implies #[trigger] found(ord, p) by {
        let a = lemma_shorter(s0, w, ord, h, 0, p);
        assert(ord[a] == p);
    }
    reveal(st_ok);
    assert forall|p: int, c: int| 0 <= p < s.len() && 0 <= c < N implies #[trigger] goto_ok(s, w, p, c) by {
        let a = lemma_shorter(s0, w, ord, h, 0, p);
        assert(ord[a] == p);
        assert(dn(ord, h, 0, p, c));
        assert(edge_ok(s0, s, w, ord, h, 0, p, c));
    }
    assert forall|p: int| 0 <= p < s.len() implies #[trigger] out_ok(s, w, d, p) by {
        let a = lemma_shorter(s0, w, ord, h, 0, p);
        assert(back_ok(s, w, d, ord[a]));
    }
}
