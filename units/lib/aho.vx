// ---- words, the trie's set of words, the longest suffix that is a word
pub open spec fn is_word(w: Seq<Seq<int>>, s: Seq<int>) -> bool { exists|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == s }
pub open spec fn at(w: Seq<Seq<int>>, s: Seq<int>) -> int { choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == s }
pub open spec fn tail(s: Seq<int>) -> Seq<int> { if s.len() == 0 { s } else { s.drop_first() } }
/// the node of the longest suffix of s that is a word
pub open spec fn lon(w: Seq<Seq<int>>, s: Seq<int>) -> int
    decreases s.len(),
{
    if is_word(w, s) || s.len() == 0 { at(w, s) } else { lon(w, tail(s)) }
}
pub open spec fn stems(w: Seq<Seq<int>>, p: int) -> bool { w[p].len() > 0 ==> is_word(w, w[p].drop_last()) }
pub open spec fn used(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, p: int) -> bool { stem(d, w[p]) }
/// the words: the empty one first, no two alike, prefixes included
pub open spec fn words(w: Seq<Seq<int>>) -> bool {
    &&& w.len() > 0 && w[0] == Seq::<int>::empty()
    &&& forall|p: int, q: int| 0 <= p < w.len() && 0 <= q < w.len() && (#[trigger] w[p]) == (#[trigger] w[q]) ==> p == q
    &&& forall|p: int| 0 <= p < w.len() ==> #[trigger] stems(w, p)
}
pub open spec fn look(d: Map<Seq<int>, usize>, s: Seq<int>) -> Option<usize> { if d.dom().contains(s) { Some(d[s]) } else { None } }
/// s is a prefix of a key
pub open spec fn stem(d: Map<Seq<int>, usize>, s: Seq<int>) -> bool { exists|k: Seq<int>| #[trigger] d.dom().contains(k) && s.is_prefix_of(k) }
/// the longest suffix of s that is empty or a prefix of a key
pub open spec fn best(d: Map<Seq<int>, usize>, s: Seq<int>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 || stem(d, s) { s } else { best(d, tail(s)) }
}
/// the entries of the keys that are suffixes of s, longest first
pub open spec fn hits(d: Map<Seq<int>, usize>, s: Seq<int>) -> Seq<usize>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else if d.dom().contains(s) { seq![d[s]] + hits(d, tail(s)) } else { hits(d, tail(s)) }
}
/// the keys are nonempty words, and every word but the empty one is a prefix of a key
pub open spec fn keyed(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>) -> bool {
    &&& forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> is_word(w, k) && k.len() > 0
    &&& forall|p: int| 0 < p < w.len() ==> #[trigger] used(w, d, p)
}
pub proof fn lemma_at(w: Seq<Seq<int>>, p: int)
    requires words(w), 0 <= p < w.len(),
    ensures is_word(w, w[p]), at(w, w[p]) == p, lon(w, w[p]) == p,
{
    let q = at(w, w[p]);
    assert(0 <= q < w.len() && w[q] == w[p]);
}
pub proof fn lemma_lon(w: Seq<Seq<int>>, s: Seq<int>)
    requires words(w),
    ensures 0 <= lon(w, s) < w.len(), w[lon(w, s)].len() <= s.len(), is_word(w, s) ==> w[lon(w, s)] == s, s.len() == 0 ==> lon(w, s) == 0,
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= w[0]); }
    if is_word(w, s) {
        let p = choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == s;
        lemma_at(w, p);
        if s.len() == 0 { assert(s == w[0]); lemma_at(w, 0); }
    } else {
        lemma_lon(w, tail(s));
    }
}
pub proof fn lemma_tail_push(t: Seq<int>, c: int)
    ensures t.len() > 0 ==> tail(t.push(c)) == tail(t).push(c), t.len() == 0 ==> tail(t.push(c)) == Seq::<int>::empty(), t.push(c).drop_last() == t,
{
    if t.len() > 0 { assert(t.push(c).drop_first() =~= t.drop_first().push(c)); } else { assert(t.push(c).drop_first() =~= Seq::<int>::empty()); }
    assert(t.push(c).drop_last() =~= t);
}
/// the longest word at the end of t and c extends the longest word at the end of t
pub proof fn lemma_goto(w: Seq<Seq<int>>, t: Seq<int>, c: int)
    requires words(w),
    ensures lon(w, t.push(c)) == lon(w, w[lon(w, t)].push(c)),
    decreases t.len(),
{
    lemma_lon(w, t);
    lemma_tail_push(t, c);
    if !is_word(w, t) {
        if t.len() == 0 { assert(t =~= w[0]); }
        if is_word(w, t.push(c)) {
            let p = choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == t.push(c);
            assert(stems(w, p));
        }
        lemma_goto(w, tail(t), c);
    }
}
/// no occurrence is lost by keeping the longest word only
pub proof fn lemma_hits_lon(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, s: Seq<int>)
    requires words(w), keyed(w, d),
    ensures hits(d, s) == hits(d, w[lon(w, s)]),
    decreases s.len(),
{
    lemma_lon(w, s);
    if !is_word(w, s) {
        if s.len() == 0 { assert(s =~= w[0]); } else { lemma_hits_lon(w, d, tail(s)); }
    }
}
/// a prefix of a word is a word
pub proof fn lemma_prefix(w: Seq<Seq<int>>, k: Seq<int>, s: Seq<int>)
    requires words(w), is_word(w, k), s.is_prefix_of(k),
    ensures is_word(w, s),
    decreases k.len(),
{
    if s.len() == k.len() {
        assert(s =~= k);
    } else {
        let p = choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == k;
        assert(stems(w, p));
        assert(s.is_prefix_of(k.drop_last())) by { assert(s =~= k.subrange(0, s.len() as int)); assert(s =~= k.drop_last().subrange(0, s.len() as int)); }
        lemma_prefix(w, k.drop_last(), s);
    }
}
pub proof fn lemma_best(w: Seq<Seq<int>>, d: Map<Seq<int>, usize>, s: Seq<int>)
    requires words(w), keyed(w, d),
    ensures w[lon(w, s)] == best(d, s),
    decreases s.len(),
{
    lemma_lon(w, s);
    if s.len() == 0 {
        assert(s =~= w[0]);
    } else {
        if stem(d, s) {
            let k = choose|k: Seq<int>| #[trigger] d.dom().contains(k) && s.is_prefix_of(k);
            lemma_prefix(w, k, s);
        }
        if is_word(w, s) {
            let p = choose|p: int| 0 <= p < w.len() && (#[trigger] w[p]) == s;
            assert(p != 0);
            assert(used(w, d, p));
        } else {
            lemma_best(w, d, tail(s));
        }
    }
}
// ---- what the answers mean
pub open spec fn ends_with(s: Seq<int>, k: Seq<int>) -> bool { k.len() <= s.len() && s.subrange(s.len() - k.len(), s.len() as int) == k }
/// the number of ends e' <= e at which k occurs in t
pub open spec fn occ(t: Seq<int>, k: Seq<int>, e: int) -> int
    decreases e,
{
    if e <= 0 { 0 } else { occ(t, k, e - 1) + if ends_with(t.subrange(0, e), k) { 1int } else { 0int } }
}
pub open spec fn mult(s: Seq<usize>, x: usize) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { mult(s.drop_last(), x) + if s.last() == x { 1int } else { 0int } }
}
pub proof fn lemma_mult_first(a: usize, s: Seq<usize>, x: usize)
    ensures mult(seq![a] + s, x) == mult(s, x) + if a == x { 1int } else { 0int },
    decreases s.len(),
{
    let b = seq![a] + s;
    if s.len() == 0 {
        assert(b =~= seq![a]);
        assert(b.drop_last() =~= Seq::<usize>::empty());
        reveal_with_fuel(mult, 2);
    } else {
        assert(b.drop_last() =~= seq![a] + s.drop_last());
        lemma_mult_first(a, s.drop_last(), x);
    }
}
/// no two keys share their entry
pub open spec fn separate(d: Map<Seq<int>, usize>) -> bool {
    forall|k: Seq<int>, l: Seq<int>| #[trigger] d.dom().contains(k) && #[trigger] d.dom().contains(l) && d[k] == d[l] ==> k == l
}
/// each key that ends s is listed once, the others are not
pub proof fn lemma_mult_hits(d: Map<Seq<int>, usize>, s: Seq<int>, k: Seq<int>)
    requires separate(d), d.dom().contains(k), k.len() > 0,
    ensures mult(hits(d, s), d[k]) == if ends_with(s, k) { 1int } else { 0int },
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_mult_hits(d, tail(s), k);
        assert(s.subrange(0, s.len() as int) =~= s);
        if k.len() <= s.len() - 1 { assert(tail(s).subrange(tail(s).len() - k.len(), tail(s).len() as int) =~= s.subrange(s.len() - k.len(), s.len() as int)); }
        if d.dom().contains(s) { lemma_mult_first(d[s], hits(d, tail(s)), d[k]); }
        if k.len() == s.len() && ends_with(s, k) { assert(s == k); }
        if k == s { assert(ends_with(s, k)); }
    }
}
pub proof fn lemma_mult_other(d: Map<Seq<int>, usize>, s: Seq<int>, x: usize)
    requires forall|k: Seq<int>| #[trigger] d.dom().contains(k) ==> d[k] != x,
    ensures mult(hits(d, s), x) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_mult_other(d, tail(s), x);
        if d.dom().contains(s) { lemma_mult_first(d[s], hits(d, tail(s)), x); }
    }
}
/// every listed entry is that of a key that ends s, and the list goes from longer keys to shorter ones
pub proof fn lemma_hits_of(d: Map<Seq<int>, usize>, s: Seq<int>) -> (ks: Seq<Seq<int>>)
    ensures
        ks.len() == hits(d, s).len(),
        forall|i: int| 0 <= i < ks.len() ==> d.dom().contains(#[trigger] ks[i]) && hits(d, s)[i] == d[ks[i]] && ends_with(s, ks[i]) && ks[i].len() > 0,
        forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).len() > (#[trigger] ks[j]).len(),
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let r = lemma_hits_of(d, tail(s));
        assert forall|i: int| 0 <= i < r.len() implies ends_with(s, #[trigger] r[i]) by {
            let k = r[i];
            assert(tail(s).subrange(tail(s).len() - k.len(), tail(s).len() as int) =~= s.subrange(s.len() - k.len(), s.len() as int));
        }
        if d.dom().contains(s) {
            assert(s.subrange(0, s.len() as int) =~= s);
            let ks = seq![s] + r;
            assert forall|i: int| 0 <= i < ks.len() implies d.dom().contains(#[trigger] ks[i]) && hits(d, s)[i] == d[ks[i]] && ends_with(s, ks[i]) && ks[i].len() > 0 by {
                if i > 0 { assert(ks[i] == r[i - 1]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).len() > (#[trigger] ks[j]).len() by {
                assert(ks[j] == r[j - 1]);
                if i > 0 { assert(ks[i] == r[i - 1]); } else { assert(ends_with(tail(s), r[j - 1])) by { assert(d.dom().contains(r[j - 1])); } }
            }
            ks
        } else {
            r
        }
    }
}
