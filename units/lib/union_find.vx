//@include chain.vx
//@struct data_structure/union_find.rs | UnionFind

/// the representative reached from i by parent links (sz strictly increases along them)
pub open spec fn root(fa: Seq<usize>, sz: Seq<usize>, i: int) -> int
    decreases usize::MAX - sz[i],
{
    if 0 <= i < fa.len() && fa[i] != i && fa[i] < fa.len() && sz[i] < sz[fa[i] as int] { root(fa, sz, fa[i] as int) } else { i }
}

pub open spec fn forest(fa: Seq<usize>, sz: Seq<usize>) -> bool {
    &&& fa.len() == sz.len()
    &&& forall|i: int| 0 <= i < fa.len() ==> (#[trigger] fa[i]) < fa.len() && (fa[i] != i ==> sz[i] < sz[fa[i] as int])
}

pub open spec fn roots(fa: Seq<usize>, sz: Seq<usize>) -> Seq<int> {
    Seq::new(fa.len(), |i: int| root(fa, sz, i))
}

/// how many of the first k elements belong to class r
pub open spec fn cnt(v: Seq<int>, r: int, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { cnt(v, r, k - 1) + (if v[k - 1] == r { 1int } else { 0 }) }
}

/// the elements of class r among the first k, ascending
pub open spec fn members(v: Seq<int>, r: int, k: int) -> Seq<usize>
    decreases k,
{
    if k <= 0 { Seq::empty() } else if v[k - 1] == r { members(v, r, k - 1).push((k - 1) as usize) } else { members(v, r, k - 1) }
}

pub open spec fn relabel(v: Seq<int>, a: int, b: int) -> Seq<int> {
    Seq::new(v.len(), |j: int| if v[j] == a { b } else { v[j] })
}

/// the partition after merging the classes of x and y under the name w
pub open spec fn merged(v: Seq<int>, x: int, y: int, w: int) -> Seq<int> {
    Seq::new(v.len(), |i: int| if v[i] == v[x] || v[i] == v[y] { w } else { v[i] })
}

/// the non-empty sequences of s[..k], in order
pub open spec fn nonempty(s: Seq<Seq<usize>>, k: int) -> Seq<Seq<usize>>
    decreases k,
{
    if k <= 0 { Seq::empty() } else if s[k - 1].len() == 0 { nonempty(s, k - 1) } else { nonempty(s, k - 1).push(s[k - 1]) }
}

pub open spec fn classes(v: Seq<int>) -> Seq<Seq<usize>> {
    nonempty(Seq::new(v.len(), |r: int| members(v, r, v.len() as int)), v.len() as int)
}

pub proof fn lemma_root(fa: Seq<usize>, sz: Seq<usize>, i: int)
    requires forest(fa, sz), 0 <= i < fa.len(),
    ensures ({
        let r = root(fa, sz, i);
        0 <= r < fa.len() && fa[r] == r && sz[i] <= sz[r] && (fa[i] != i ==> sz[i] < sz[r]) && root(fa, sz, r) == r
    }),
    decreases usize::MAX - sz[i],
{
    if fa[i] != i { lemma_root(fa, sz, fa[i] as int); }
}

/// pointing i directly at its representative changes no representative
proof fn lemma_compress_at(fa: Seq<usize>, sz: Seq<usize>, i: int, j: int)
    requires forest(fa, sz), 0 <= i < fa.len(), 0 <= j < fa.len(), fa[i] != i,
    ensures
        root(fa.update(i, root(fa, sz, i) as usize), sz, j) == root(fa, sz, j),
    decreases usize::MAX - sz[j],
{
    let r = root(fa, sz, i);
    let fb = fa.update(i, r as usize);
    lemma_root(fa, sz, i);
    assert(fb[r] == r);
    if j == i {
        assert(root(fb, sz, r) == r);
    } else if fa[j] != j {
        lemma_compress_at(fa, sz, i, fa[j] as int);
    }
}

pub broadcast proof fn lemma_compress(fa: Seq<usize>, sz: Seq<usize>, i: int, r: usize)
    requires forest(fa, sz), 0 <= i < fa.len(), fa[i] != i, r == root(fa, sz, i),
    ensures
        #[trigger] roots(fa.update(i, r), sz) == roots(fa, sz),
{
    assert forall|j: int| 0 <= j < fa.len() implies root(fa.update(i, r), sz, j) == root(fa, sz, j) by {
        lemma_compress_at(fa, sz, i, j);
    }
    assert(roots(fa.update(i, r), sz) =~= roots(fa, sz));
}

pub broadcast proof fn lemma_compress_forest(fa: Seq<usize>, sz: Seq<usize>, i: int, r: usize)
    requires forest(fa, sz), 0 <= i < fa.len(), fa[i] != i, r == root(fa, sz, i),
    ensures
        #[trigger] forest(fa.update(i, r), sz),
{
    lemma_root(fa, sz, i);
}

/// hanging root a below root b
proof fn lemma_link_at(fa: Seq<usize>, sz: Seq<usize>, a: int, b: usize, s: usize, j: int)
    requires
        forest(fa, sz), 0 <= a < fa.len(), 0 <= b < fa.len(), a != b, fa[a] == a, fa[b as int] == b, 0 <= j < fa.len(),
        sz[a] < s, sz[b as int] < s,
    ensures
        root(fa.update(a, b), sz.update(b as int, s), j) == (if root(fa, sz, j) == a { b as int } else { root(fa, sz, j) }),
    decreases usize::MAX - sz[j],
{
    let fb = fa.update(a, b as usize);
    let sb = sz.update(b as int, s);
    assert(root(fb, sb, b as int) == b);
    if j == a {
        assert(root(fb, sb, a) == root(fb, sb, b as int));
    } else if fa[j] != j {
        assert(j != b);
        lemma_link_at(fa, sz, a, b, s, fa[j] as int);
        lemma_root(fa, sz, fa[j] as int);
    }
}

pub broadcast proof fn lemma_link(fa: Seq<usize>, sz: Seq<usize>, a: int, b: usize, s: usize)
    requires
        forest(fa, sz), 0 <= a < fa.len(), 0 <= b < fa.len(), a != b, fa[a] == a, fa[b as int] == b,
        sz[a] < s, sz[b as int] < s,
    ensures
        #[trigger] roots(fa.update(a, b), sz.update(b as int, s)) == relabel(roots(fa, sz), a, b as int),
{
    assert forall|j: int| 0 <= j < fa.len() implies root(fa.update(a, b), sz.update(b as int, s), j) == (if root(fa, sz, j) == a { b as int } else { root(fa, sz, j) }) by {
        lemma_link_at(fa, sz, a, b, s, j);
    }
    assert(roots(fa.update(a, b), sz.update(b as int, s)) =~= relabel(roots(fa, sz), a, b as int));
}

pub broadcast proof fn lemma_link_forest(fa: Seq<usize>, sz: Seq<usize>, a: int, b: usize, s: usize)
    requires
        forest(fa, sz), 0 <= a < fa.len(), 0 <= b < fa.len(), a != b, fa[a] == a, fa[b as int] == b,
        sz[a] < s, sz[b as int] < s,
    ensures
        #[trigger] forest(fa.update(a, b), sz.update(b as int, s)),
{
}

pub broadcast group group_forest { lemma_compress, lemma_compress_forest, lemma_link, lemma_link_forest }

pub proof fn lemma_cnt_frame(v: Seq<int>, w: Seq<int>, r: int, k: int)
    requires forall|i: int| 0 <= i < k ==> (v[i] == r <==> w[i] == r),
    ensures cnt(v, r, k) == cnt(w, r, k),
    decreases k,
{
    if k > 0 { lemma_cnt_frame(v, w, r, k - 1); }
}

pub proof fn lemma_cnt_merge(v: Seq<int>, w: Seq<int>, a: int, b: int, k: int)
    requires a != b, forall|i: int| 0 <= i < k ==> w[i] == (if v[i] == a { b } else { v[i] }),
    ensures cnt(w, b, k) == cnt(v, a, k) + cnt(v, b, k), 0 <= cnt(v, a, k), 0 <= cnt(v, b, k), cnt(w, b, k) <= (if k <= 0 { 0 } else { k }),
    decreases k,
{
    if k > 0 { lemma_cnt_merge(v, w, a, b, k - 1); }
}

pub proof fn lemma_cnt_pos(v: Seq<int>, i: int, k: int)
    requires 0 <= i < k,
    ensures 1 <= cnt(v, v[i], k),
    decreases k,
{
    if i < k - 1 { lemma_cnt_pos(v, i, k - 1); } else { lemma_cnt_nonneg(v, v[i], k - 1); }
}

pub proof fn lemma_cnt_nonneg(v: Seq<int>, r: int, k: int)
    ensures 0 <= cnt(v, r, k),
    decreases k,
{
    if k > 0 { lemma_cnt_nonneg(v, r, k - 1); }
}

impl UnionFind {
    /// the class name of every element
    pub closed spec fn view(&self) -> Seq<int> {
        roots(self.fa@, self.sz@)
    }
    pub closed spec fn wf(&self) -> bool {
        &&& forest(self.fa@, self.sz@)
        &&& self.n == self.fa@.len()
        &&& forall|r: int| 0 <= r < self.n && self.fa@[r] == r ==> (#[trigger] self.sz@[r]) == cnt(self@, r, self.n as int)
    }
    proof fn lemma_class(&self, i: int)
        requires self.wf(), 0 <= i < self.n,
        ensures
            self@.len() == self.n,
            0 <= self@[i] < self.n,
            self.fa@[self@[i]] == self@[i],
            self@[self@[i]] == self@[i],
            self.sz@[self@[i]] == cnt(self@, self@[i], self.n as int),
    {
        lemma_root(self.fa@, self.sz@, i);
    }

//@fn data_structure/union_find.rs | UnionFind::new | ret=ret
//@spec
    ensures ret.wf(), ret@ == Seq::new(n as nat, |i: int| i), tracks(ret@, seq![]),
//@exit
    proof {
        assert(ret@ =~= Seq::new(n as nat, |i: int| i));
        assert forall|r: int| 0 <= r < n implies cnt(ret@, r, n as int) == 1 by { lemma_cnt_ident(ret@, r, n as int); }
        lemma_tracks_new(ret@);
    }
//@end

//@fn data_structure/union_find.rs | UnionFind::find | ret=ret
//@spec
    requires old(self).wf(), i < old(self)@.len(),
    ensures
        final(self).wf(), final(self)@ == old(self)@, final(self).n == old(self).n, final(self).sz == old(self).sz, ret == old(self)@[i as int],
        final(self).fa@[ret as int] == ret, final(self).sz@[ret as int] == cnt(old(self)@, ret as int, old(self).n as int),
        forall|r: int| 0 <= r < old(self).n && old(self).fa@[r] == r ==> #[trigger] final(self).fa@[r] == r,
    decreases usize::MAX - old(self).sz@[i as int],
//@entry
    broadcast use group_forest;
    let ghost i0 = i as int;
    proof { self.lemma_class(i0); self.lemma_class(self.fa@[i0] as int); lemma_root(self.fa@, self.sz@, i0); }
//@exit
    proof {
        assert(self@ =~= old(self)@);
        self.lemma_class(i0);
    }
//@end

//@fn data_structure/union_find.rs | UnionFind::is_same | ret=ret
//@spec
    requires old(self).wf(), x < old(self)@.len(), y < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@, ret == (old(self)@[x as int] == old(self)@[y as int]),
//@end

//@fn data_structure/union_find.rs | UnionFind::size | ret=ret
//@spec
    requires old(self).wf(), x < old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@, ret == cnt(old(self)@, old(self)@[x as int], old(self)@.len() as int),
//@entry
    hide(root);
    hide(cnt);
    proof { self.lemma_class(x as int); }
//@end

//@fn data_structure/union_find.rs | UnionFind::join | ret=ret
//@spec
    requires old(self).wf(), x < old(self)@.len(), y < old(self)@.len(),
    ensures
        final(self).wf(),
        ret == (old(self)@[x as int] != old(self)@[y as int]),
        !ret ==> final(self)@ == old(self)@,
        ret ==> final(self)@ == merged(old(self)@, x as int, y as int, old(self)@[x as int]) || final(self)@ == merged(old(self)@, x as int, y as int, old(self)@[y as int]),
        forall|e: Seq<(int, int)>| #[trigger] tracks(old(self)@, e) ==> tracks(final(self)@, e.push((x as int, y as int))),
//@entry
    hide(root);
    hide(cnt);
    broadcast use group_forest;
    let ghost v = self@;
    let ghost vx = self@[x as int];
    let ghost vy = self@[y as int];
    proof {
        self.lemma_class(x as int); self.lemma_class(y as int);
        if vx != vy {
            lemma_cnt_merge(v, relabel(v, vx, vy), vx, vy, v.len() as int);
            lemma_cnt_pos(v, vx, v.len() as int);
            lemma_cnt_pos(v, vy, v.len() as int);
        } else {
            assert forall|e: Seq<(int, int)>| #[trigger] tracks(v, e) implies tracks(v, e.push((x as int, y as int))) by { lemma_tracks_join(v, v, e, x as int, y as int); }
        }
    }
//@exit
    proof {
        if vx != vy {
            let b = if self.fa@[vx] == vx { vx } else { vy };
            let a = if self.fa@[vx] == vx { vy } else { vx };
            assert(self@ =~= merged(v, x as int, y as int, b));
            lemma_cnt_merge(v, self@, a, b, self.n as int);
            assert forall|r: int| 0 <= r < self.n && self.fa@[r] == r implies (#[trigger] self.sz@[r]) == cnt(self@, r, self.n as int) by {
                if r != b { lemma_cnt_frame(v, self@, r, self.n as int); }
            }
        }
        assert forall|e: Seq<(int, int)>| #[trigger] tracks(v, e) implies tracks(self@, e.push((x as int, y as int))) by { lemma_tracks_join(v, self@, e, x as int, y as int); }
    }
//@end

//@fn data_structure/union_find.rs | UnionFind::groups | ret=ret
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self)@ == old(self)@,
        lists_classes(deep(ret@), old(self)@),
//@entry
    let ghost v = self@;
    let ghost n = self.n;
    let ghost gs = Seq::new(v.len(), |r: int| members(v, r, v.len() as int));
//@loop 0
    invariant
        n == v.len(), 0 <= i <= n, self.n == n, vx_e0 == n, self.wf(), self@ == v, result@.len() == n,
        forall|r: int| 0 <= r < n ==> (#[trigger] result@[r])@ == members(v, r, i as int),
    decreases n - i,
//@at loop0.head
    let ghost r0 = result@;
    proof { self.lemma_class(i as int); }
//@at loop0.bodyend
    proof {
        assert forall|r: int| 0 <= r < n implies (#[trigger] result@[r])@ == members(v, r, i + 1) by {
            assert(r0[r]@ == members(v, r, i as int));
        }
    }
//@at loop1.before
    proof { assert(deep(vx_out@) =~= nonempty(gs, 0)); }
//@loop 1
    invariant
        n == v.len(), gs == Seq::new(v.len(), |r: int| members(v, r, v.len() as int)),
        vx_s1@.len() == n, 0 <= vx_k1 <= n,
        forall|r: int| 0 <= r < n ==> (#[trigger] vx_s1@[r])@ == members(v, r, n as int),
        deep(vx_out@) == nonempty(gs, vx_k1 as int),
    decreases n - vx_k1,
//@at loop1.head
    let ghost o0 = vx_out@;
    let ghost k = vx_k1 as int;
//@at loop1.bodyend
    proof {
        assert(vx_x@ =~= gs[k]);
        if vx_x@.len() > 0 { assert(deep(vx_out@) =~= deep(o0).push(gs[k])); }
    }
//@at loop1.after
    proof {
        assert(deep(vx_out@) =~= classes(v));
        assert(n <= usize::MAX);
        assert forall|i: int| 0 <= i < v.len() implies 0 <= (#[trigger] v[i]) < v.len() by { self.lemma_class(i); }
        lemma_lists_classes(v);
    }
//@end
}

pub open spec fn deep(s: Seq<Vec<usize>>) -> Seq<Seq<usize>> {
    Seq::new(s.len(), |i: int| s[i]@)
}

pub proof fn lemma_cnt_ident(v: Seq<int>, r: int, k: int)
    requires 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == i, 0 <= r,
    ensures cnt(v, r, k) == (if r < k { 1int } else { 0 }),
    decreases k,
{
    if k > 0 { lemma_cnt_ident(v, r, k - 1); }
}
