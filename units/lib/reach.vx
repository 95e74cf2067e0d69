/// x -> y is an edge of the graph given by adjacency lists
pub open spec fn edge(g: Seq<Vec<usize>>, x: int, y: int) -> bool {
    0 <= x < g.len() && 0 <= y < g.len() && exists|j: int| 0 <= j < g[x]@.len() && (#[trigger] g[x]@[j]) == y
}
pub open spec fn gok(g: Seq<Vec<usize>>) -> bool {
    forall|x: int, j: int| 0 <= x < g.len() && 0 <= j < g[x]@.len() ==> (#[trigger] g[x]@[j]) < g.len()
}
/// a walk of k edges
pub open spec fn walk(g: Seq<Vec<usize>>, x: int, y: int, k: int) -> bool
    decreases k,
{
    if k <= 0 { x == y } else { exists|z: int| #[trigger] edge(g, x, z) && walk(g, z, y, k - 1) }
}
/// y can be reached from x
pub open spec fn reach(g: Seq<Vec<usize>>, x: int, y: int) -> bool { exists|k: int| k >= 0 && walk(g, x, y, k) }
pub proof fn lemma_reach_refl(g: Seq<Vec<usize>>, x: int)
    ensures reach(g, x, x),
{
    assert(walk(g, x, x, 0));
}
pub proof fn lemma_walk_trans(g: Seq<Vec<usize>>, x: int, y: int, z: int, k: int, l: int)
    requires walk(g, x, y, k), k >= 0, l >= 0, walk(g, y, z, l),
    ensures walk(g, x, z, k + l),
    decreases k,
{
    if k > 0 {
        let w = choose|w: int| #[trigger] edge(g, x, w) && walk(g, w, y, k - 1);
        lemma_walk_trans(g, w, y, z, k - 1, l);
        assert(edge(g, x, w) && walk(g, w, z, k + l - 1));
    }
}
pub proof fn lemma_reach_trans(g: Seq<Vec<usize>>, x: int, y: int, z: int)
    requires reach(g, x, y), reach(g, y, z),
    ensures reach(g, x, z),
{
    let k = choose|k: int| k >= 0 && walk(g, x, y, k);
    let l = choose|l: int| l >= 0 && walk(g, y, z, l);
    lemma_walk_trans(g, x, y, z, k, l);
}
pub proof fn lemma_reach_edge(g: Seq<Vec<usize>>, x: int, y: int)
    requires edge(g, x, y),
    ensures reach(g, x, y),
{
    assert(edge(g, x, y) && walk(g, y, y, 0));
    assert(walk(g, x, y, 1));
}
/// a vertex set that no edge leaves holds all that its members reach
pub proof fn lemma_closed_walk(g: Seq<Vec<usize>>, a: spec_fn(int) -> bool, x: int, y: int, k: int)
    requires a(x), walk(g, x, y, k), k >= 0, forall|p: int, q: int| #[trigger] edge(g, p, q) && a(p) ==> a(q),
    ensures a(y),
    decreases k,
{
    if k > 0 {
        let w = choose|w: int| #[trigger] edge(g, x, w) && walk(g, w, y, k - 1);
        lemma_closed_walk(g, a, w, y, k - 1);
    }
}
pub proof fn lemma_closed_reach(g: Seq<Vec<usize>>, a: spec_fn(int) -> bool, x: int, y: int)
    requires a(x), reach(g, x, y), forall|p: int, q: int| #[trigger] edge(g, p, q) && a(p) ==> a(q),
    ensures a(y),
{
    let k = choose|k: int| k >= 0 && walk(g, x, y, k);
    lemma_closed_walk(g, a, x, y, k);
}
