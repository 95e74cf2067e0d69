// ---- running the automaton
pub open spec fn upto(x: Seq<int>, e: int) -> Seq<int> { x.subrange(0, e) }
/// one step of the automaton, after the text t
pub proof fn lemma_step<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, t: Seq<int>, c: int)
    requires auto_w(s, w, d), 0 <= c < N,
    ensures
        0 <= lon(w, t) < s.len(), nx(s, lon(w, t), c) == lon(w, t.push(c)), 0 <= lon(w, t.push(c)) < s.len(), w.len() == s.len(),
        s[lon(w, t.push(c))].end == look(d, best(d, t.push(c))), hits(d, t.push(c)) == hits(d, w[lon(w, t.push(c))]),
{
    reveal(auto_w);
    lemma_lon(w, t);
    lemma_goto(w, t, c);
    lemma_lon(w, t.push(c));
    lemma_best(w, d, t.push(c));
    lemma_hits_lon(w, d, t.push(c));
    assert(goto_ok(s, w, lon(w, t), c));
    assert(marked(s, w, d, lon(w, t.push(c))));
}
pub proof fn lemma_upto(x: Seq<int>, i: int)
    requires 0 <= i < x.len(),
    ensures upto(x, i).push(x[i]) == upto(x, i + 1), upto(x, 0) == Seq::<int>::empty(),
{
    assert(upto(x, i).push(x[i]) =~= upto(x, i + 1));
    assert(upto(x, 0) =~= Seq::<int>::empty());
}
pub proof fn lemma_run_begin<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, x: Seq<int>)
    requires auto_w(s, w, d),
    ensures lon(w, upto(x, 0)) == 0, s.len() > 0,
{
    reveal(auto_w);
    assert(upto(x, 0) =~= Seq::<int>::empty());
    lemma_lon(w, upto(x, 0));
}
/// the entries still to be listed from an output link on
pub open spec fn rest(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, y: Option<usize>) -> Seq<usize> {
    match y { Some(y) => hits(d, w[y as int]), None => Seq::<usize>::empty() }
}
pub open spec fn link_ok(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, y: Option<usize>) -> bool {
    match y { Some(y) => y < w.len() && d.dom().contains(w[y as int]), None => true }
}
pub open spec fn link_len(w: Seq<Seq<int>>, y: Option<usize>) -> int {
    match y { Some(y) => w[y as int].len() as int + 1, None => 0 }
}
pub open spec fn own(e: Option<usize>) -> Seq<usize> { match e { Some(v) => seq![v], None => Seq::<usize>::empty() } }
/// the entries at the node q: its own, then those of its output
pub proof fn lemma_chain<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, q: int)
    requires auto_w(s, w, d), 0 <= q < s.len(),
    ensures
        w.len() == s.len(), hits(d, w[q]) == own(s[q].end) + rest(w, d, s[q].output), link_ok(w, d, s[q].output), link_len(w, s[q].output) <= w[q].len(),
        s[q].end == look(d, w[q]), w[0].len() == 0 && !d.dom().contains(w[0]),
{
    reveal(auto_w);
    assert(marked(s, w, d, q));
    assert(out_ok(s, w, d, q));
    assert(!d.dom().contains(w[0]));
    if w[q].len() == 0 { assert(w[q] =~= w[0]); assert(tail(w[q]) == w[q]); }
    assert(own(s[q].end) + rest(w, d, s[q].output) =~= hits(d, w[q])) by {
        if w[q].len() > 0 && d.dom().contains(w[q]) { assert(own(s[q].end) =~= seq![d[w[q]]]); }
    }
}
/// the automaton determines what it reports
pub proof fn lemma_same_hits<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, w2: Seq<Seq<int>>, d2: Map<Seq<int>, usize>, q: int)
    requires auto_w(s, w, d), auto_w(s, w2, d2), 0 <= q < s.len(),
    ensures hits(d, w[q]) == hits(d2, w2[q]),
    decreases w[q].len(),
{
    lemma_chain(s, w, d, q);
    lemma_chain(s, w2, d2, q);
    if s[q].output is Some { lemma_same_hits(s, w, d, w2, d2, s[q].output->Some_0 as int); }
}
pub open spec fn over(x: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < x.len() ==> 0 <= (#[trigger] x[i]) < n }
pub proof fn lemma_same_auto<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, w2: Seq<Seq<int>>, d2: Map<Seq<int>, usize>, x: Seq<int>, e: int)
    requires auto_w(s, w, d), auto_w(s, w2, d2), 0 <= e <= x.len(), over(x, N as int),
    ensures lon(w, upto(x, e)) == lon(w2, upto(x, e)), look(d, best(d, upto(x, e))) == look(d2, best(d2, upto(x, e))), hits(d, upto(x, e)) == hits(d2, upto(x, e)),
    decreases e,
{
    if e == 0 {
        lemma_run_begin(s, w, d, x);
        lemma_run_begin(s, w2, d2, x);
        lemma_chain(s, w, d, 0);
        lemma_chain(s, w2, d2, 0);
        assert(upto(x, 0) =~= w[0] && upto(x, 0) =~= w2[0]);
    } else {
        lemma_same_auto(s, w, d, w2, d2, x, e - 1);
        lemma_upto(x, e - 1);
        lemma_step(s, w, d, upto(x, e - 1), x[e - 1]);
        lemma_step(s, w2, d2, upto(x, e - 1), x[e - 1]);
        lemma_same_hits(s, w, d, w2, d2, lon(w, upto(x, e)));
    }
}
// ---- counting
/// how often x is reported over the first e positions
pub open spec fn total(d: Map<Seq<int>, usize>, t: Seq<int>, e: int, x: usize) -> int
    decreases e,
{
    if e <= 0 { 0 } else { total(d, t, e - 1, x) + mult(hits(d, upto(t, e)), x) }
}
pub proof fn lemma_total_key(d: Map<Seq<int>, usize>, t: Seq<int>, e: int, k: Seq<int>)
    requires separate(d), d.dom().contains(k), k.len() > 0, 0 <= e <= t.len(),
    ensures total(d, t, e, d[k]) == occ(t, k, e), 0 <= occ(t, k, e) <= e,
    decreases e,
{
    if e > 0 {
        lemma_total_key(d, t, e - 1, k);
        lemma_mult_hits(d, upto(t, e), k);
    }
}
pub proof fn lemma_total_other(d: Map<Seq<int>, usize>, t: Seq<int>, e: int, x: usize)
    requires forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> d[k] != x,
    ensures total(d, t, e, x) == 0,
    decreases e,
{
    if e > 0 {
        lemma_total_other(d, t, e - 1, x);
        lemma_mult_other(d, upto(t, e), x);
    }
}
pub proof fn lemma_total_few(d: Map<Seq<int>, usize>, t: Seq<int>, e: int, x: usize)
    requires separate(d), forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> k.len() > 0, 0 <= e <= t.len(),
    ensures 0 <= total(d, t, e, x) <= e,
{
    if exists|k: Seq<int>| #[trigger] d.dom().contains(k) && d[k] == x {
        let k = choose|k: Seq<int>| #[trigger] d.dom().contains(k) && d[k] == x;
        lemma_total_key(d, t, e, k);
    } else {
        lemma_total_other(d, t, e, x);
    }
}
pub proof fn lemma_mult_pos(s: Seq<usize>, x: usize)
    ensures mult(s, x) >= 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_mult_pos(s.drop_last(), x); }
}
pub proof fn lemma_total_same<const N: usize>(s: Seq<Node<N>>, w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, w2: Seq<Seq<int>>, d2: Map<Seq<int>, usize>, x: Seq<int>, e: int, v: usize)
    requires auto_w(s, w, d), auto_w(s, w2, d2), 0 <= e <= x.len(), over(x, N as int),
    ensures total(d, x, e, v) == total(d2, x, e, v),
    decreases e,
{
    if e > 0 {
        lemma_total_same(s, w, d, w2, d2, x, e - 1, v);
        lemma_same_auto(s, w, d, w2, d2, x, e);
    }
}
/// no two different patterns get the same index
pub proof fn lemma_dict(pats: Seq<&[u8]>, off: u8, k: int)
    requires k <= usize::MAX,
    ensures separate(dict_of(pats, off, k)), forall|s: Seq<int>| #[trigger] dict_of(pats, off, k).dom().contains(s) ==> dict_of(pats, off, k)[s] < k,
    decreases k,
{
    if k > 0 { lemma_dict(pats, off, k - 1); }
}
/// every pattern is a key, with the index of its last copy
pub proof fn lemma_dict_has(pats: Seq<&[u8]>, off: u8, k: int, j: int)
    requires 0 <= j < k <= usize::MAX,
    ensures
        dict_of(pats, off, k).dom().contains(letters(pats[j]@, off)),
        j <= dict_of(pats, off, k)[letters(pats[j]@, off)],
        letters(pats[dict_of(pats, off, k)[letters(pats[j]@, off)] as int]@, off) == letters(pats[j]@, off),
    decreases k,
{
    if j < k - 1 { lemma_dict_has(pats, off, k - 1, j); }
}
