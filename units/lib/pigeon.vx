/// distinct entries, each marked by p: no more than the number of marked indices
pub open spec fn count_true(p: Seq<bool>) -> int
    decreases p.len(),
{
    if p.len() == 0 { 0 } else { count_true(p.drop_last()) + if p.last() { 1int } else { 0int } }
}
pub proof fn lemma_count_bounds(p: Seq<bool>)
    ensures 0 <= count_true(p) <= p.len(),
    decreases p.len(),
{
    if p.len() > 0 { lemma_count_bounds(p.drop_last()); }
}
pub proof fn lemma_count_mono(p: Seq<bool>, q: Seq<bool>)
    requires p.len() == q.len(), forall|i: int| 0 <= i < p.len() && p[i] ==> q[i],
    ensures count_true(p) <= count_true(q),
        (exists|i: int| 0 <= i < p.len() && !p[i] && q[i]) ==> count_true(p) < count_true(q),
    decreases p.len(),
{
    if p.len() > 0 {
        assert forall|i: int| 0 <= i < p.drop_last().len() && p.drop_last()[i] implies q.drop_last()[i] by { assert(p[i]); }
        lemma_count_mono(p.drop_last(), q.drop_last());
        if exists|i: int| 0 <= i < p.len() && !p[i] && q[i] {
            let i = choose|i: int| 0 <= i < p.len() && !p[i] && q[i];
            if i < p.len() - 1 { assert(!p.drop_last()[i] && q.drop_last()[i]); }
        }
    }
}
pub proof fn lemma_pigeon(s: Seq<int>, p: Seq<bool>)
    requires
        forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < p.len() && p[s[i]],
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] ==> i == j,
    ensures s.len() <= count_true(p),
    decreases p.len(),
{
    if p.len() == 0 {
        if s.len() > 0 { assert(0 <= s[0] < p.len()); }
    } else {
        let k = p.len() - 1;
        let q = p.drop_last();
        if exists|i: int| 0 <= i < s.len() && s[i] == k {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            let t = s.remove(i);
            assert forall|a: int| 0 <= a < t.len() implies 0 <= #[trigger] t[a] < q.len() && q[t[a]] by {
                let b = if a < i { a } else { a + 1 };
                assert(t[a] == s[b]);
                assert(s[b] != s[i]);
            }
            assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && #[trigger] t[a] == #[trigger] t[b] implies a == b by {
                let a2 = if a < i { a } else { a + 1 };
                let b2 = if b < i { b } else { b + 1 };
                assert(t[a] == s[a2] && t[b] == s[b2]);
            }
            lemma_pigeon(t, q);
        } else {
            assert forall|a: int| 0 <= a < s.len() implies 0 <= #[trigger] s[a] < q.len() && q[s[a]] by {
                assert(s[a] != k);
                assert(p[s[a]]);
            }
            lemma_pigeon(s, q);
        }
    }
}
