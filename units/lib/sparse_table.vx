//@struct data_structure/sparse_table.rs | SparseTable | attr=#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(F)]

/// the function computed by the closure f
pub open spec fn ap<T, F: Fn(T, T) -> T>(f: F, a: T, b: T) -> T {
    choose|r: T| f.ensures((a, b), r)
}

/// f is a total function that is associative and idempotent
pub open spec fn lawful<T, F: Fn(T, T) -> T>(f: F) -> bool {
    &&& forall|a: T, b: T| #[trigger] f.requires((a, b))
    &&& forall|a: T, b: T, r: T| #[trigger] f.ensures((a, b), r) ==> r == ap(f, a, b)
    &&& forall|a: T, b: T, c: T| #[trigger] ap(f, ap(f, a, b), c) == ap(f, a, ap(f, b, c))
    &&& forall|a: T| #[trigger] ap(f, a, a) == a
}

/// cloning an element gives that element
pub open spec fn clone_exact<T: Clone>() -> bool {
    forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b
}

/// f(s[l], ..., s[r - 1]), l < r
pub open spec fn agg<T, F: Fn(T, T) -> T>(f: F, s: Seq<T>, l: int, r: int) -> T
    decreases r - l,
{
    if r <= l + 1 { s[l] } else { ap(f, agg(f, s, l, r - 1), s[r - 1]) }
}

pub proof fn lemma_agg_split<T, F: Fn(T, T) -> T>(f: F, s: Seq<T>, l: int, m: int, r: int)
    requires lawful(f), l < m < r,
    ensures agg(f, s, l, r) == ap(f, agg(f, s, l, m), agg(f, s, m, r)),
    decreases r - m,
{
    if m + 1 < r {
        lemma_agg_split(f, s, l, m, r - 1);
        assert(ap(f, ap(f, agg(f, s, l, m), agg(f, s, m, r - 1)), s[r - 1]) == ap(f, agg(f, s, l, m), ap(f, agg(f, s, m, r - 1), s[r - 1])));
    }
}

/// overlapping blocks
pub proof fn lemma_agg_overlap<T, F: Fn(T, T) -> T>(f: F, s: Seq<T>, l: int, a: int, b: int, r: int)
    requires lawful(f), l <= a < b <= r,
    ensures agg(f, s, l, r) == ap(f, agg(f, s, l, b), agg(f, s, a, r)),
{
    let m = agg(f, s, a, b);
    assert(ap(f, m, m) == m);
    if l < a && b < r {
        let x = agg(f, s, l, a);
        let z = agg(f, s, b, r);
        lemma_agg_split(f, s, l, a, b);
        lemma_agg_split(f, s, a, b, r);
        lemma_agg_split(f, s, l, a, r);
        assert(ap(f, ap(f, x, m), ap(f, m, z)) == ap(f, x, ap(f, m, ap(f, m, z))));
        assert(ap(f, ap(f, m, m), z) == ap(f, m, ap(f, m, z)));
    } else if l < a {
        let x = agg(f, s, l, a);
        lemma_agg_split(f, s, l, a, b);
        assert(ap(f, ap(f, x, m), m) == ap(f, x, ap(f, m, m)));
    } else if b < r {
        let z = agg(f, s, b, r);
        lemma_agg_split(f, s, a, b, r);
        assert(ap(f, ap(f, m, m), z) == ap(f, m, ap(f, m, z)));
    }
}

pub proof fn lemma_shl_pow(i: usize)
    requires i < 64,
    ensures 1usize << i == pow2(i as nat), 1 <= pow2(i as nat) <= 0x8000_0000_0000_0000,
{
    lemma2_to64();
    lemma_pow2_unfold(64);
    lemma_pow2_pos(i as nat);
    if i < 63 { lemma_pow2_strictly_increases(i as nat, 63); }
    lemma_usize_shl_is_mul(1, i);
}

pub open spec fn row_ok<T, F: Fn(T, T) -> T>(f: F, s: Seq<T>, row: Seq<T>, c: int) -> bool {
    &&& row.len() == s.len()
    &&& forall|i: int| 0 <= i && i + pow2(c as nat) <= s.len() ==> #[trigger] row[i] == agg(f, s, i, i + pow2(c as nat))
}

impl<T, F> SparseTable<T, F> where T: Copy, F: Fn(T, T) -> T {
    /// the table answers queries about s
    pub closed spec fn models(&self, s: Seq<T>) -> bool {
        &&& lawful(self.op)
        &&& s.len() >= 1
        &&& self.data@.len() <= 64
        &&& s.len() < pow2(self.data@.len() as nat)
        &&& forall|c: int| 0 <= c < self.data@.len() ==> row_ok(self.op, s, (#[trigger] self.data@[c])@, c)
    }

//@fn data_structure/sparse_table.rs | SparseTable::from | ret=ret
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires lawful(op), clone_exact::<T>(), 1 <= v@.len() < usize::MAX,
    ensures ret.models(v@), ret.op == op,
//@entry
    let ghost s = v@;
    proof { lemma2_to64(); }
//@at loop0.before
    proof {
        assert forall|c: int| 0 <= c < count implies (#[trigger] data@[c])@.len() == n by {}
        assert(row_ok(op, s, data@[0]@, 0));
        lemma_pow2_unfold(count as nat);
        lemma_pow2_pos((count - 1) as nat);
    }
//@loop 0
    invariant
        s == v@, n == s.len(), n < usize::MAX, 1 <= c, c <= count <= 64, lawful(op), data@.len() == count,
        pow2((count - 1) as nat) <= n < pow2(count as nat),
        forall|k: int| 0 <= k < count ==> (#[trigger] data@[k])@.len() == n,
        forall|k: int| 0 <= k < c ==> row_ok(op, s, (#[trigger] data@[k])@, k),
    decreases count - c,
//@at loop0.head
    let ghost c0 = c as int;
    let ghost d0 = data@;
    let ghost q = pow2((c - 1) as nat) as int;
    proof {
        lemma_shl_pow(c);
        lemma_shl_pow((c - 1) as usize);
        lemma_pow2_unfold(c as nat);
        if c < count - 1 { lemma_pow2_strictly_increases(c as nat, (count - 1) as nat); }
        assert(row_ok(op, s, data@[c - 1]@, c - 1));
    }
//@loop 1
    invariant
        s == v@, n == s.len(), 1 <= c < count, c == c0, count <= 64, lawful(op), data@.len() == count, d0.len() == count,
        q == pow2((c - 1) as nat), 1 <= q, 2 * q == pow2(c as nat), pow2(c as nat) <= n, 1usize << c == pow2(c as nat), 1usize << ((c - 1) as usize) == q,
        i <= n - pow2(c as nat) + 1,
        forall|k: int| 0 <= k < count ==> (#[trigger] data@[k])@.len() == n,
        forall|k: int| 0 <= k < count && k != c ==> #[trigger] data@[k] == d0[k],
        row_ok(op, s, d0[c - 1]@, c - 1),
        forall|j: int| 0 <= j < i ==> #[trigger] data@[c as int]@[j] == agg(op, s, j, j + pow2(c as nat)),
    decreases n - pow2(c as nat) + 1 - i,
//@at loop1.head
    let ghost e0 = data@;
    proof {
        assert(data@[c - 1] == d0[c - 1]);
        lemma_agg_split(op, s, i as int, i + q, i + 2 * q);
        assert(d0[c - 1]@[i as int] == agg(op, s, i as int, i + q));
        assert(d0[c - 1]@[i + q] == agg(op, s, i + q, i + q + q));
    }
//@at loop1.after
    proof {
        assert(row_ok(op, s, data@[c0]@, c0));
        assert forall|k: int| 0 <= k < c0 + 1 implies row_ok(op, s, (#[trigger] data@[k])@, k) by {
            if k < c0 { assert(data@[k] == d0[k]); }
        }
    }
//@end

//@fn data_structure/sparse_table.rs | SparseTable::get | ret=ret
//@spec
    requires exists|s: Seq<T>| #[trigger] self.models(s) && l < r <= s.len(),
    ensures forall|s: Seq<T>| #[trigger] self.models(s) && r <= s.len() ==> ret == agg(self.op, s, l as int, r as int),
//@entry
    let ghost s1 = choose|s: Seq<T>| #[trigger] self.models(s) && l < r <= s.len();
    proof {
        assert forall|c: u32, d: u32| #[trigger] is_lg(r - l, c as int) && #[trigger] is_lg(r - l, d as int) implies c == d by {
            if c + 1 < d { lemma_pow2_strictly_increases((c + 1) as nat, d as nat); }
            if d + 1 < c { lemma_pow2_strictly_increases((d + 1) as nat, c as nat); }
        }
    }
    proof {
        assert forall|c: u32| #[trigger] is_lg(r - l, c as int) && c < 64 implies
            c < self.data@.len() && 1usize << (c as usize) == pow2(c as nat) && 1 <= pow2(c as nat) <= r - l
            && (forall|s: Seq<T>| #[trigger] self.models(s) && r <= s.len() ==>
                self.data@[c as int]@.len() == s.len()
                && ap(self.op, self.data@[c as int]@[l as int], self.data@[c as int]@[r - pow2(c as nat)]) == agg(self.op, s, l as int, r as int))
        by {
        lemma_shl_pow(c as usize);
        assert(c < self.data@.len()) by {
            if c >= self.data@.len() {
                if c > self.data@.len() { lemma_pow2_strictly_increases(self.data@.len() as nat, c as nat); }
            }
        }
        lemma_pow2_unfold((c + 1) as nat);
        let w = pow2(c as nat) as int;
        assert forall|s: Seq<T>| #[trigger] self.models(s) && r <= s.len() implies
            self.data@[c as int]@.len() == s.len()
            && ap(self.op, self.data@[c as int]@[l as int], self.data@[c as int]@[r - w]) == agg(self.op, s, l as int, r as int)
        by {
            assert(row_ok(self.op, s, self.data@[c as int]@, c as int));
            assert(self.data@[c as int]@[l as int] == agg(self.op, s, l as int, l + w));
            assert(self.data@[c as int]@[r - w] == agg(self.op, s, r - w, r - w + w));
            lemma_agg_overlap(self.op, s, l as int, r - w, l + w, r as int);
        }
        }
    }
//@end
}
