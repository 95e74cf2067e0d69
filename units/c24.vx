//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/pigeon.vx
//@include lib/aho.vx
//@struct string/aho_corasick.rs | Node
//@struct string/aho_corasick.rs | AhoCorasick

pub open spec fn nx<const N: usize>(s: Seq<Node<N>>, p: int, c: int) -> int { s[p].next@[c] as int }
/// q is the child of an earlier node
pub open spec fn up<const N: usize>(s: Seq<Node<N>>, q: int) -> bool { exists|p: int, c: int| 0 <= p < q && 0 <= c < N && (#[trigger] nx(s, p, c)) == q }
/// the nodes form the trie of the words w
pub open spec fn tree<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>) -> bool {
    &&& w.len() == s.len() && s.len() > 0 && w[0] == Seq::<int>::empty()
    &&& forall|p: int, q: int| 0 <= p < w.len() && 0 <= q < w.len() && (#[trigger] w[p]) == (#[trigger] w[q]) ==> p == q
    &&& forall|p: int, c: int| 0 <= p < s.len() && 0 <= c < N && (#[trigger] nx(s, p, c)) != 0 ==> p < nx(s, p, c) < s.len() && w[nx(s, p, c)] == w[p].push(c)
    &&& forall|q: int| 0 < q < s.len() ==> #[trigger] up(s, q)
}
pub open spec fn fresh<const N: usize>(s: Seq<Node<N>>, p: int) -> bool { s[p].back == 0 && s[p].output is None }
pub open spec fn marked<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, p: int) -> bool { s[p].end == look(d, w[p]) }
pub open spec fn node_few<const N: usize>(s: Seq<Node<N>>, p: int, k: int) -> bool { s[p].nmatches <= k }
pub open spec fn few<const N: usize>(s: Seq<Node<N>>, k: int) -> bool { forall|p: int| 0 <= p < s.len() ==> #[trigger] node_few(s, p, k) }
/// the keys are nonempty words; the words are prefixes of keys, or of x, which is being inserted
pub open spec fn trie_part<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, x: Seq<int>) -> bool {
    &&& tree(s, w)
    &&& forall|p: int| 0 <= p < s.len() ==> #[trigger] fresh(s, p)
    &&& forall|p: int| 0 <= p < s.len() ==> #[trigger] marked(s, w, d, p)
    &&& forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> is_word(w, k) && k.len() > 0
    &&& forall|p: int| 0 < p < w.len() ==> stem(d, #[trigger] w[p]) || w[p].is_prefix_of(x)
}
#[verifier::opaque]
pub open spec fn trie_w<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>) -> bool { trie_part(s, w, d, seq![]) }
/// the output of p is the longest proper suffix that is a key
pub open spec fn out_ok<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, p: int) -> bool {
    match s[p].output {
        Some(y) => y < w.len() && d.dom().contains(w[y as int]) && w[y as int].len() < w[p].len() && hits(d, tail(w[p])) == hits(d, w[y as int]),
        None => hits(d, tail(w[p])) == Seq::<usize>::empty(),
    }
}
pub open spec fn goto_ok<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, p: int, c: int) -> bool { nx(s, p, c) == lon(w, w[p].push(c)) }
#[verifier::opaque]
pub open spec fn auto_w<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>) -> bool {
    &&& words(w) && keyed(w, d) && w.len() == s.len()
    &&& forall|p: int, c: int| 0 <= p < s.len() && 0 <= c < N ==> #[trigger] goto_ok(s, w, p, c)
    &&& forall|p: int| 0 <= p < s.len() ==> #[trigger] marked(s, w, d, p)
    &&& forall|p: int| 0 <= p < s.len() ==> #[trigger] out_ok(s, w, d, p)
}
pub proof fn lemma_tree_words<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>)
    requires tree(s, w),
    ensures words(w),
{
    assert forall|p: int| 0 <= p < w.len() implies #[trigger] stems(w, p) by {
      if w[p].len() > 0 {
        assert(p != 0);
        assert(up(s, p));
        let (a, c) = choose|a: int, c: int| 0 <= a < p && 0 <= c < N && (#[trigger] nx(s, a, c)) == p;
        lemma_tail_push(w[a], c);
        assert(w[p].drop_last() == w[a]);
      }
    }
}
/// the parent
pub proof fn lemma_parent<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, q: int) -> (r: (int, int))
    requires tree(s, w), 0 < q < s.len(),
    ensures 0 <= r.0 < q, 0 <= r.1 < N, nx(s, r.0, r.1) == q, w[q] == w[r.0].push(r.1), w[q].len() == w[r.0].len() + 1, w[q].len() > 0,
{
    assert(up(s, q));
    let (p, c) = choose|p: int, c: int| 0 <= p < q && 0 <= c < N && (#[trigger] nx(s, p, c)) == q;
    (p, c)
}
/// a missing edge means a missing word
pub proof fn lemma_missing<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, p: int, c: int)
    requires tree(s, w), 0 <= p < s.len(), 0 <= c < N,
    ensures
        nx(s, p, c) == 0 ==> !is_word(w, w[p].push(c)),
        nx(s, p, c) != 0 ==> is_word(w, w[p].push(c)) && lon(w, w[p].push(c)) == nx(s, p, c),
{
    lemma_tree_words(s, w);
    if nx(s, p, c) == 0 {
        if is_word(w, w[p].push(c)) {
            let q = choose|q: int| 0 <= q < w.len() && (#[trigger] w[q]) == w[p].push(c);
            assert(w[q].len() > 0);
            let (a, b) = lemma_parent(s, w, q);
            lemma_tail_push(w[a], b);
            lemma_tail_push(w[p], c);
            assert(w[a] == w[p]);
            assert(w[a].push(b).last() == b && w[p].push(c).last() == c);
        }
    } else {
        lemma_at(w, nx(s, p, c));
    }
}
/// the words and the keys are those of the nodes
pub proof fn lemma_same_words<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, w2: Seq<Seq<int>>, q: int)
    requires tree(s, w), tree(s, w2), 0 <= q < s.len(),
    ensures w[q] == w2[q],
    decreases q,
{
    if q > 0 {
        let (p, c) = lemma_parent(s, w, q);
        lemma_same_words(s, w, w2, p);
    }
}
pub proof fn lemma_same_trie<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, w2: Seq<Seq<int>>, d2: Map<Seq<int>, usize>)
    requires trie_w(s, w, d), trie_w(s, w2, d2),
    ensures w == w2, d == d2,
{
    reveal(trie_w);
    assert forall|q: int| 0 <= q < w.len() implies w[q] == w2[q] by { lemma_same_words(s, w, w2, q); }
    assert(w =~= w2);
    assert forall|k: Seq<int>| (#[trigger] d.dom().contains(k)) == d2.dom().contains(k) && (d.dom().contains(k) ==> d[k] == d2[k]) by {
        if is_word(w, k) {
            let p = choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == k;
            assert(marked(s, w, d, p) && marked(s, w, d2, p));
        }
    }
    assert(d =~= d2);
}
pub proof fn lemma_empty<const N: usize>(s: Seq<Node<N>>)
    requires s.len() == 1, s[0].back == 0, s[0].output is None, s[0].end is None, forall|c: int| 0 <= c < N ==> (#[trigger] s[0].next@[c]) == 0,
    ensures trie_w(s, seq![Seq::<int>::empty()], Map::<Seq<int>, usize>::empty()),
{
    reveal(trie_w);
    let w = seq![Seq::<int>::empty()];
    let d = Map::<Seq<int>, usize>::empty();
    assert forall|p: int, c: int| 0 <= p < s.len() && 0 <= c < N implies (#[trigger] nx(s, p, c)) == 0 by { assert(s[0].next@[c] == 0); }
}
/// a new node below p
pub proof fn lemma_grow<const N: usize>(s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, x: Seq<int>, p: int, c: int)
    requires
        trie_part(s, w, d, x), 0 <= p < s.len(), 0 <= c < N, nx(s, p, c) == 0, w[p].push(c).is_prefix_of(x),
        s2.len() == s.len() + 1, forall|q: int, e: int| 0 <= q < s.len() && 0 <= e < N ==> (#[trigger] nx(s2, q, e)) == if q == p && e == c { s.len() as int } else { nx(s, q, e) },
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).back == s[q].back && s2[q].end == s[q].end && s2[q].output == s[q].output,
        s2[s.len() as int].back == 0, s2[s.len() as int].output is None, s2[s.len() as int].end is None, forall|e: int| 0 <= e < N ==> (#[trigger] s2[s.len() as int].next@[e]) == 0,
    ensures trie_part(s2, w.push(w[p].push(c)), d, x),
{
    let n = s.len() as int;
    let w2 = w.push(w[p].push(c));
    lemma_missing(s, w, p, c);
    assert forall|a: int, b: int| 0 <= a < w2.len() && 0 <= b < w2.len() && (#[trigger] w2[a]) == (#[trigger] w2[b]) implies a == b by {
        if a < n { assert(w2[a] == w[a]); }
        if b < n { assert(w2[b] == w[b]); }
    }
    assert forall|q: int, e: int| 0 <= q < s2.len() && 0 <= e < N && (#[trigger] nx(s2, q, e)) != 0 implies q < nx(s2, q, e) < s2.len() && w2[nx(s2, q, e)] == w2[q].push(e) by {
        if q == n { assert(s2[n].next@[e] == 0); } else if !(q == p && e == c) { assert(nx(s, q, e) == nx(s2, q, e)); }
    }
    assert forall|q: int| 0 < q < s2.len() implies #[trigger] up(s2, q) by {
        if q < n {
            let (a, e) = lemma_parent(s, w, q);
            assert(nx(s2, a, e) == q);
        } else {
            assert(nx(s2, p, c) == n);
        }
    }
    assert forall|q: int| 0 <= q < s2.len() implies #[trigger] fresh(s2, q) by { if q < n { assert(fresh(s, q)); } }
    assert forall|q: int| 0 <= q < s2.len() implies #[trigger] marked(s2, w2, d, q) by { if q < n { assert(marked(s, w, d, q)); } }
    assert forall|k: Seq<int>| #[trigger] d.dom().contains(k) implies is_word(w2, k) && k.len() > 0 by {
        let a = choose|a: int| 0 <= a < w.len() && (#[trigger] w[a]) == k;
        assert(w2[a] == k);
    }
    assert forall|q: int| 0 < q < w2.len() implies stem(d, #[trigger] w2[q]) || w2[q].is_prefix_of(x) by {
        if q < n { assert(w2[q] == w[q]); }
    }
}
pub proof fn lemma_insert_begin<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, x: Seq<int>)
    requires trie_w(s, w, d),
    ensures trie_part(s, w, d, x),
{
    reveal(trie_w);
    assert forall|q: int| 0 < q < w.len() implies stem(d, #[trigger] w[q]) || w[q].is_prefix_of(x) by {
        let r = lemma_parent(s, w, q);
    }
}
pub proof fn lemma_insert_end<const N: usize>(s: Seq<Node<N>>, s2: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, x: Seq<int>, p: int, i: usize)
    requires
        trie_part(s, w, d, x), 0 <= p < s.len(), w[p] == x, x.len() > 0, s2.len() == s.len(),
        forall|q: int| 0 <= q < s.len() ==> (#[trigger] s2[q]).back == s[q].back && s2[q].next == s[q].next && s2[q].output == s[q].output && s2[q].end == if q == p { Some(i) } else { s[q].end },
    ensures trie_w(s2, w, d.insert(x, i)),
{
    reveal(trie_w);
    let d2 = d.insert(x, i);
    assert forall|q: int, e: int| 0 <= q < s.len() && 0 <= e < N implies (#[trigger] nx(s2, q, e)) == nx(s, q, e) by { assert(s2[q].next == s[q].next); }
    assert forall|q: int| 0 < q < s2.len() implies #[trigger] up(s2, q) by {
        let (a, e) = lemma_parent(s, w, q);
        assert(nx(s2, a, e) == q);
    }
    assert forall|q: int| 0 <= q < s2.len() implies #[trigger] fresh(s2, q) by { assert(fresh(s, q)); }
    assert forall|q: int| 0 <= q < s2.len() implies #[trigger] marked(s2, w, d2, q) by {
        assert(marked(s, w, d, q));
        assert(s2[q].end == if q == p { Some(i) } else { s[q].end });
        if q != p { assert(w[q] != w[p]); }
    }
    assert forall|k: Seq<int>| #[trigger] d2.dom().contains(k) implies is_word(w, k) && k.len() > 0 by {
        if k != x { assert(d.dom().contains(k)); }
    }
    assert(d2.dom().contains(x));
    assert forall|q: int| 0 < q < w.len() implies stem(d2, #[trigger] w[q]) || w[q].is_prefix_of(seq![]) by {
        if stem(d, w[q]) {
            let k = choose|k: Seq<int>| #[trigger] d.dom().contains(k) && w[q].is_prefix_of(k);
            assert(d2.dom().contains(k));
        }
    }
}
//@include lib/aho_build.vx
/// a byte string over the alphabet, as letters
pub open spec fn letters(b: Seq<u8>, off: u8) -> Seq<int> { Seq::new(b.len(), |i: int| b[i] - off) }
pub open spec fn in_alphabet(b: Seq<u8>, off: u8, n: usize) -> bool { forall|i: int| 0 <= i < b.len() ==> off <= (#[trigger] b[i]) && b[i] - off < n }

//@include lib/aho_run.vx
impl<const N: usize> Node<N> {
//@fn string/aho_corasick.rs | Node::new | ret=ret
//@spec
    ensures ret.back == 0, ret.end is None, ret.nmatches == 0, ret.output is None, forall|c: int| 0 <= c < N ==> (#[trigger] ret.next@[c]) == 0,
//@end
}
impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
    /// before build: the patterns d have been inserted
    pub open spec fn trie(self, d: Map<Seq<int>, usize>) -> bool { exists|w: Seq<Seq<int>>| trie_w(self.nodes@, w, d) }
    /// after build
    pub open spec fn built(self, d: Map<Seq<int>, usize>) -> bool { exists|w: Seq<Seq<int>>| auto_w(self.nodes@, w, d) }
//@fn string/aho_corasick.rs | AhoCorasick::new | ret=ret
//@spec
    ensures ret.n == n, ret.trie(Map::empty()), few(ret.nodes@, 0),
//@exit
    proof { lemma_empty(ret.nodes@); }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::insert
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires
        exists|d: Map<Seq<int>, usize>| old(self).trie(d), s@.len() > 0, in_alphabet(s@, OFFSET, N),
        few(old(self).nodes@, usize::MAX - 1),
    ensures
        final(self).n == old(self).n,
        forall|d: Map<Seq<int>, usize>| #[trigger] old(self).trie(d) ==> final(self).trie(d.insert(letters(s@, OFFSET), i)),
        forall|k: int| k < usize::MAX && #[trigger] few(old(self).nodes@, k) ==> few(final(self).nodes@, k + 1),
//@entry
    let ghost s0 = self.nodes@;
    let ghost d = choose|d: Map<Seq<int>, usize>| self.trie(d);
    let ghost w0 = choose|w: Seq<Seq<int>>| trie_w(s0, w, d);
    let ghost mut w = w0;
    let ghost mut s2 = s0;
    let ghost x = letters(s@, OFFSET);
    proof { lemma_insert_begin(s0, w, d, x); }
//@loop 0
    invariant
        self.n == old(self).n, vx_k0 <= s@.len(), trie_part(self.nodes@, w, d, x), p < self.nodes@.len(), w[p as int] == x.subrange(0, vx_k0 as int),
        forall|k: int| k >= 0 && #[trigger] few(s0, k) ==> few(self.nodes@, k),
    decreases s@.len() - vx_k0,
//@at loop0.before
    proof { assert(x.subrange(0, 0) =~= w[0]); }
//@at loop0.head
    let ghost s1 = self.nodes@;
    let ghost ch = x[vx_k0 as int];
    proof {
        assert(OFFSET <= s@[vx_k0 as int]);
        assert(x.subrange(0, vx_k0 as int).push(ch) =~= x.subrange(0, vx_k0 + 1));
        assert(nx(s1, p as int, ch) == s1[p as int].next@[ch]);
    }
//@at if0.thenend
    proof {
        let s2 = self.nodes@;
        assert forall|q: int, e: int| 0 <= q < s1.len() && 0 <= e < N implies (#[trigger] nx(s2, q, e)) == if q == p && e == ch { s1.len() as int } else { nx(s1, q, e) } by {
            if q != p { assert(s2[q] == s1[q]); }
        }
        lemma_grow(s1, s2, w, d, x, p as int, ch);
        w = w.push(w[p as int].push(ch));
        assert forall|k: int| k >= 0 && #[trigger] few(s0, k) implies few(s2, k) by {
            assert(few(s1, k));
            assert forall|q: int| 0 <= q < s2.len() implies #[trigger] node_few(s2, q, k) by { if q < s1.len() { assert(node_few(s1, q, k)); } }
        }
    }
//@at let:idx#0.after
    proof { assert(idx == ch); }
//@at set:p#0.before
    proof {
        assert(nx(self.nodes@, p as int, ch) != 0);
        assert(w[nx(self.nodes@, p as int, ch)] == w[p as int].push(ch));
    }
//@at loop0.after
    proof {
        s2 = self.nodes@;
        assert(x.subrange(0, x.len() as int) =~= x);
        assert(few(s2, usize::MAX - 1));
        assert(node_few(s2, p as int, usize::MAX - 1));
    }
//@exit
    proof {
        let s3 = self.nodes@;
        lemma_insert_end(s2, s3, w, d, x, p as int, i);
        assert forall|d2: Map<Seq<int>, usize>| #[trigger] old(self).trie(d2) implies self.trie(d2.insert(x, i)) by {
            let w2 = choose|w2: Seq<Seq<int>>| trie_w(s0, w2, d2);
            lemma_same_trie(s0, w0, d, w2, d2);
        }
        assert forall|k: int| k < usize::MAX && #[trigger] few(old(self).nodes@, k) implies few(self.nodes@, k + 1) by {
            if s0.len() > 0 { assert(node_few(s0, 0, k)); }
            assert(few(s2, k));
            assert forall|q: int| 0 <= q < s3.len() implies #[trigger] node_few(s3, q, k + 1) by { assert(node_few(s2, q, k)); }
        }
    }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::build
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|d: Map<Seq<int>, usize>| old(self).trie(d),
    ensures
        final(self).n == old(self).n,
        forall|d: Map<Seq<int>, usize>| #[trigger] old(self).trie(d) ==> final(self).built(d),
//@entry
    let ghost s0 = self.nodes@;
    let ghost d = choose|d: Map<Seq<int>, usize>| self.trie(d);
    let ghost w = choose|w: Seq<Seq<int>>| trie_w(s0, w, d);
    let ghost mut ord = seq![0int];
    let ghost mut h: int = 0;
    proof {
        lemma_pass_begin(s0, w, d);
        lemma_facts(s0, s0, w, d, ord, 0, 0);
    }
//@loop 0
    invariant
        self.nodes@ == s0, self.n == old(self).n, pass(s0, s0, w, d, ord, 0, i as int), queued(q@, ord, 1), i <= N, s0.len() > 0,
    decreases N - i,
//@at loop0.head
    proof {
        assert(nx(s0, 0, i as int) == s0[0].next@[i as int]);
        if nx(s0, 0, i as int) == 0 { lemma_root_skip(s0, w, d, ord, i as int); }
    }
//@at if0.thenend
    proof {
        let v = nx(s0, 0, i as int);
        lemma_root_push(s0, w, d, ord, i as int, v);
        ord = ord.push(v);
    }
//@at loop0.after
    proof {
        lemma_next(s0, s0, w, d, ord, 0);
        h = 1;
    }
//@loop 1
    invariant
        self.n == old(self).n, pass(s0, self.nodes@, w, d, ord, h, 0), queued(q@, ord, h), 0 < h <= ord.len() <= s0.len(),
    ensures h == ord.len(), pass(s0, self.nodes@, w, d, ord, h, 0), self.n == old(self).n,
    decreases s0.len() - h,
//@loop 2
    invariant
        self.n == old(self).n, pass(s0, self.nodes@, w, d, ord, h, i as int), queued(q@, ord, h + 1), 0 < h < ord.len(), u == ord[h], i <= N,
    decreases N - i,
//@at loop2.head
    let ghost s1 = self.nodes@;
    let ghost ii = i as int;
    proof {
        lemma_here(s0, s1, w, d, ord, h, ii);
        assert(nx(s1, u as int, ii) == s1[u as int].next@[ii]);
        assert(nx(s1, s1[u as int].back as int, ii) == s1[s1[u as int].back as int].next@[ii]);
    }
//@at arm0.tail
    proof {
        let s2 = self.nodes@;
        assert forall|q: int, c: int| 0 <= q < s1.len() && 0 <= c < N && !(q == ord[h] && c == ii) implies (#[trigger] nx(s2, q, c)) == nx(s1, q, c) by {
            if q != u { assert(s2[q] == s1[q]); }
        }
        lemma_pass_skip(s0, s1, s2, w, d, ord, h, ii);
    }
//@at arm1.tail
    proof {
        lemma_push(s0, s1, self.nodes@, w, d, ord, h, ii, v as int);
        ord = ord.push(v as int);
    }
//@at loop2.after
    proof {
        lemma_next(s0, self.nodes@, w, d, ord, h);
        h = h + 1;
    }
//@exit
    proof {
        lemma_pass_end(s0, self.nodes@, w, d, ord, h);
        assert forall|d2: Map<Seq<int>, usize>| #[trigger] old(self).trie(d2) implies self.built(d2) by {
            let w2 = choose|w2: Seq<Seq<int>>| trie_w(s0, w2, d2);
            lemma_same_trie(s0, w, d, w2, d2);
        }
    }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::from | ret=ret
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires forall|j: int| 0 <= j < patterns@.len() ==> (#[trigger] patterns@[j])@.len() > 0 && in_alphabet(patterns@[j]@, OFFSET, N),
    ensures ret.n == patterns@.len(), ret.built(dict_of(patterns@, OFFSET, patterns@.len() as int)),
//@loop 0
    invariant obj.n == patterns@.len(), i <= patterns@.len(), obj.trie(dict_of(patterns@, OFFSET, i as int)), few(obj.nodes@, i as int),
    decreases patterns@.len() - i,
//@at loop0.head
    proof {
        assert(patterns@.len() <= usize::MAX);
        let o = obj.nodes@;
        assert(few(o, usize::MAX - 1)) by {
            assert forall|p: int| 0 <= p < o.len() implies #[trigger] node_few(o, p, usize::MAX - 1) by { assert(node_few(o, p, i as int)); }
        }
        assert(patterns@[i as int]@.len() > 0);
    }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::find | ret=ret
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires exists|d: Map<Seq<int>, usize>| self.built(d), in_alphabet(text@, OFFSET, N),
    ensures
        ret@.len() == text@.len(),
        forall|d: Map<Seq<int>, usize>, i: int| #[trigger] self.built(d) && 0 <= i < text@.len() ==>
            (#[trigger] ret@[i]) == look(d, best(d, letters(text@, OFFSET).subrange(0, i + 1))),
//@entry
    let ghost d = choose|d: Map<Seq<int>, usize>| self.built(d);
    let ghost s = self.nodes@;
    let ghost w = choose|w: Seq<Seq<int>>| auto_w(s, w, d);
    let ghost tx = letters(text@, OFFSET);
    proof { lemma_run_begin(s, w, d, tx); }
//@loop 0
    invariant
        i <= n, n == text@.len(), p == lon(w, upto(tx, i as int)), p < s.len(), vx_out@.len() == i,
        forall|j: int| 0 <= j < i ==> (#[trigger] vx_out@[j]) == look(d, best(d, upto(tx, j + 1))),
    decreases n - i,
//@at loop0.head
    proof {
        assert(OFFSET <= text@[i as int]);
        lemma_upto(tx, i as int);
        lemma_step(s, w, d, upto(tx, i as int), tx[i as int]);
        assert(nx(s, p as int, tx[i as int]) == s[p as int].next@[tx[i as int]]);
    }
//@exit
    proof {
        lemma_letters(text@, OFFSET, N);
        assert forall|d2: Map<Seq<int>, usize>, i: int| #[trigger] self.built(d2) && 0 <= i < text@.len() implies (#[trigger] ret@[i]) == look(d2, best(d2, tx.subrange(0, i + 1))) by {
            let w2 = choose|w2: Seq<Seq<int>>| auto_w(s, w2, d2);
            lemma_same_auto(s, w, d, w2, d2, tx, i + 1);
        }
    }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::find_all | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|d: Map<Seq<int>, usize>| self.built(d), in_alphabet(text@, OFFSET, N),
    ensures
        ret@.len() == text@.len(),
        forall|d: Map<Seq<int>, usize>, i: int| #[trigger] self.built(d) && 0 <= i < text@.len() ==>
            (#[trigger] ret@[i])@ == hits(d, letters(text@, OFFSET).subrange(0, i + 1)),
//@entry
    let ghost d = choose|d: Map<Seq<int>, usize>| self.built(d);
    let ghost s = self.nodes@;
    let ghost w = choose|w: Seq<Seq<int>>| auto_w(s, w, d);
    let ghost tx = letters(text@, OFFSET);
    proof { lemma_run_begin(s, w, d, tx); }
//@at loop0.before
    proof {
        assert forall|j: int| 0 <= j < text@.len() implies (#[trigger] res@[j])@ =~= Seq::<usize>::empty() by {}
    }
//@loop 0
    invariant
        vx_k0 <= text@.len(), p == lon(w, upto(tx, vx_k0 as int)), p < s.len(), res@.len() == text@.len(),
        forall|j: int| 0 <= j < vx_k0 ==> (#[trigger] res@[j])@ == hits(d, upto(tx, j + 1)),
        forall|j: int| vx_k0 <= j < text@.len() ==> (#[trigger] res@[j])@ == Seq::<usize>::empty(),
    decreases text@.len() - vx_k0,
//@at loop0.head
    let ghost res0 = res@;
    proof {
        assert(OFFSET <= text@[vx_k0 as int]);
        lemma_upto(tx, vx_k0 as int);
        lemma_step(s, w, d, upto(tx, vx_k0 as int), tx[vx_k0 as int]);
        lemma_chain(s, w, d, lon(w, upto(tx, vx_k0 + 1)));
        assert(nx(s, p as int, tx[vx_k0 as int]) == s[p as int].next@[tx[vx_k0 as int]]);
    }
//@at loop1.before
    proof {
        assert(res@[i as int]@ =~= own(s[p as int].end));
    }
//@loop 1
    invariant
        link_ok(w, d, idx), w.len() == s.len(), i == vx_k0, i < text@.len(), res@.len() == text@.len(),
        res@[i as int]@ + rest(w, d, idx) == hits(d, upto(tx, i + 1)),
        forall|j: int| 0 <= j < text@.len() && j != i ==> (#[trigger] res@[j]) == res0[j],
    ensures idx is None,
    decreases link_len(w, idx),
//@at loop1.head
    let ghost r1 = res@[i as int]@;
    proof {
        if idx is Some { lemma_chain(s, w, d, idx->Some_0 as int); }
    }
//@at if1.thenend
    proof {
        let e = s[x as int].end->Some_0;
        assert(res@[i as int]@ + rest(w, d, idx) =~= r1 + (seq![e] + rest(w, d, idx)));
    }
//@at loop1.after
    proof {
        assert(res@[i as int]@ + Seq::<usize>::empty() =~= res@[i as int]@);
    }
//@exit
    proof {
        lemma_letters(text@, OFFSET, N);
        assert forall|d2: Map<Seq<int>, usize>, i: int| #[trigger] self.built(d2) && 0 <= i < text@.len() implies (#[trigger] ret@[i])@ == hits(d2, tx.subrange(0, i + 1)) by {
            let w2 = choose|w2: Seq<Seq<int>>| auto_w(s, w2, d2);
            lemma_same_auto(s, w, d, w2, d2, tx, i + 1);
        }
    }
//@end
//@fn string/aho_corasick.rs | AhoCorasick::find_cnt | ret=ret
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires exists|d: Map<Seq<int>, usize>| self.built(d) && countable(d, self.n), in_alphabet(text@, OFFSET, N),
    ensures
        ret@.len() == self.n,
        forall|d: Map<Seq<int>, usize>, k: Seq<int>| #[trigger] self.built(d) && countable(d, self.n) && #[trigger] d.dom().contains(k) ==>
            ret@[d[k] as int] == occ(letters(text@, OFFSET), k, text@.len() as int),
        forall|d: Map<Seq<int>, usize>, v: int| #[trigger] self.built(d) && countable(d, self.n) && 0 <= v < self.n && (forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> d[k] != v) ==>
            (#[trigger] ret@[v]) == 0,
//@entry
    let ghost d = choose|d: Map<Seq<int>, usize>| self.built(d) && countable(d, self.n);
    let ghost s = self.nodes@;
    let ghost w = choose|w: Seq<Seq<int>>| auto_w(s, w, d);
    let ghost tx = letters(text@, OFFSET);
    proof { lemma_run_begin(s, w, d, tx); }
//@loop 0
    invariant
        vx_k0 <= text@.len(), p == lon(w, upto(tx, vx_k0 as int)), p < s.len(), cnt@.len() == self.n,
        forall|v: int| 0 <= v < self.n ==> (#[trigger] cnt@[v]) == total(d, tx, vx_k0 as int, v as usize),
    decreases text@.len() - vx_k0,
//@at loop0.head
    let ghost c0: Seq<usize> = cnt@;
    let ghost e = vx_k0 + 1;
    let ghost todo = hits(d, upto(tx, e));
    proof {
        assert(OFFSET <= text@[vx_k0 as int]);
        lemma_upto(tx, vx_k0 as int);
        lemma_step(s, w, d, upto(tx, vx_k0 as int), tx[vx_k0 as int]);
        lemma_chain(s, w, d, lon(w, upto(tx, e)));
        assert(nx(s, p as int, tx[vx_k0 as int]) == s[p as int].next@[tx[vx_k0 as int]]);
    }
//@at set:p#0.after
    proof {
        let r = rest(w, d, s[p as int].output);
        if s[p as int].end is None { assert(own(s[p as int].end) + r =~= r); }
        assert forall|v: int| 0 <= v < self.n implies (#[trigger] c0[v]) + mult(r, v as usize) + (if s[p as int].end == Some(v as usize) { 1int } else { 0int }) == total(d, tx, e, v as usize) by {
            if s[p as int].end is Some { lemma_mult_first(s[p as int].end->Some_0, r, v as usize); }
        }
        lemma_mult_all_pos(r);
        lemma_total_all(d, tx, e);
    }
//@loop 1
    invariant
        link_ok(w, d, idx), w.len() == s.len(), cnt@.len() == self.n, 0 < e <= text@.len(),
        forall|v: int| 0 <= v < self.n ==> (#[trigger] cnt@[v]) + mult(rest(w, d, idx), v as usize) == total(d, tx, e, v as usize),
    ensures idx is None,
    decreases link_len(w, idx),
//@at loop1.head
    let ghost c1: Seq<usize> = cnt@;
    proof {
        if idx is Some {
            let q = idx->Some_0 as int;
            lemma_chain(s, w, d, q);
            let r = rest(w, d, s[q].output);
            lemma_mult_all_pos(r);
            lemma_total_all(d, tx, e);
            assert forall|v: int| 0 <= v < self.n implies (#[trigger] c1[v]) + mult(r, v as usize) + (if s[q].end == Some(v as usize) { 1int } else { 0int }) == total(d, tx, e, v as usize) by {
                lemma_mult_first(s[q].end->Some_0, r, v as usize);
                assert(c1[v] + mult(rest(w, d, idx), v as usize) == total(d, tx, e, v as usize));
            }
            let v = s[q].end->Some_0 as int;
            assert(c1[v] + mult(r, v as usize) + 1 == total(d, tx, e, v as usize));
        }
    }
//@exit
    proof {
        lemma_letters(text@, OFFSET, N);
        let m = text@.len() as int;
        assert forall|d2: Map<Seq<int>, usize>, k: Seq<int>| #[trigger] self.built(d2) && countable(d2, self.n) && #[trigger] d2.dom().contains(k) implies ret@[d2[k] as int] == occ(tx, k, m) by {
            let w2 = choose|w2: Seq<Seq<int>>| auto_w(s, w2, d2);
            lemma_total_same(s, w, d, w2, d2, tx, m, d2[k]);
            lemma_total_key(d2, tx, m, k);
        }
        assert forall|d2: Map<Seq<int>, usize>, v: int| #[trigger] self.built(d2) && countable(d2, self.n) && 0 <= v < self.n && (forall|k: Seq<int>| #[trigger] d2.dom().contains(k) ==> d2[k] != v) implies
            (#[trigger] ret@[v]) == 0 by {
            let w2 = choose|w2: Seq<Seq<int>>| auto_w(s, w2, d2);
            lemma_total_same(s, w, d, w2, d2, tx, m, v as usize);
            lemma_total_other(d2, tx, m, v as usize);
        }
    }
//@end
}
/// the queue holds the nodes from index h on
pub open spec fn queued(q: Seq<usize>, ord: Seq<int>, h: int) -> bool {
    &&& 0 <= h && q.len() == ord.len() - h
    &&& forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]) == ord[h + j]
}/// the patterns inserted so far, with the index of the last insertion of each
pub open spec fn dict_of(pats: Seq<&[u8]>, off: u8, k: int) -> Map<Seq<int>, usize>
    decreases k,
{
    if k <= 0 { Map::empty() } else { dict_of(pats, off, k - 1).insert(letters(pats[k - 1]@, off), (k - 1) as usize) }
}pub proof fn lemma_letters(b: Seq<u8>, off: u8, n: usize)
    requires in_alphabet(b, off, n),
    ensures over(letters(b, off), n as int),
{
    assert forall|i: int| 0 <= i < letters(b, off).len() implies 0 <= (#[trigger] letters(b, off)[i]) < n by { assert(off <= b[i]); }
}
/// no two patterns share their index, and every index is below n
pub open spec fn countable(d: Map<Seq<int>, usize>, n: usize) -> bool {
    separate(d) && forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> d[k] < n && k.len() > 0
}pub proof fn lemma_mult_all_pos(s: Seq<usize>)
    ensures forall|x: usize| (#[trigger] mult(s, x)) >= 0,
{
    assert forall|x: usize| (#[trigger] mult(s, x)) >= 0 by { lemma_mult_pos(s, x); }
}
pub proof fn lemma_total_all(d: Map<Seq<int>, usize>, t: Seq<int>, e: int)
    requires separate(d), forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> k.len() > 0, 0 <= e <= t.len(),
    ensures forall|x: usize| 0 <= (#[trigger] total(d, t, e, x)) <= e,
{
    assert forall|x: usize| 0 <= (#[trigger] total(d, t, e, x)) <= e by { lemma_total_few(d, t, e, x); }
}/// what a user gets: build from patterns, then count
pub proof fn lemma_dict_countable(pats: Seq<&[u8]>, off: u8, k: int, n: usize)
    requires 0 <= k <= n, forall|j: int| 0 <= j < k ==> (#[trigger] pats[j])@.len() > 0,
    ensures countable(dict_of(pats, off, k), n),
    decreases k,
{
    lemma_dict(pats, off, k);
    if k > 0 { lemma_dict_countable(pats, off, k - 1, n); assert(pats[k - 1]@.len() > 0); }
}
fn vx_user(pats: &[&[u8]], text: &[u8]) -> (r: Vec<usize>)
    requires in_alphabet(text@, 97, 26), forall|j: int| 0 <= j < pats@.len() ==> (#[trigger] pats@[j])@.len() > 0 && in_alphabet(pats@[j]@, 97, 26),
    ensures r@.len() == pats@.len(), forall|j: int| 0 <= j < pats@.len() && (forall|l: int| j < l < pats@.len() ==> letters((#[trigger] pats@[l])@, 97) != letters(pats@[j]@, 97)) ==> (#[trigger] r@[j]) == occ(letters(text@, 97), letters(pats@[j]@, 97), text@.len() as int),
{
    let a = AhoCorasick::<97, 26>::from(pats);
    let ghost d = dict_of(pats@, 97, pats@.len() as int);
    assert(pats@.len() <= usize::MAX);
    proof { lemma_dict_countable(pats@, 97, pats@.len() as int, a.n); }
    let all = a.find_all(text);
    let one = a.find(text);
    let r = a.find_cnt(text);
    proof {
        assert forall|j: int| 0 <= j < pats@.len() && (forall|l: int| j < l < pats@.len() ==> letters((#[trigger] pats@[l])@, 97) != letters(pats@[j]@, 97)) implies (#[trigger] r@[j]) == occ(letters(text@, 97), letters(pats@[j]@, 97), text@.len() as int) by {
            lemma_dict_has(pats@, 97, pats@.len() as int, j);
            let k = letters(pats@[j]@, 97);
            lemma_dict(pats@, 97, pats@.len() as int);
            let m = d[k] as int;
            assert(m == j);
            assert(d.dom().contains(k));
        }
    }
    r
}
}
