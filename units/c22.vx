//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/eq.vx

/// k is the length of the longest common prefix of s and s[i..]
pub open spec fn is_lcp<T: PartialEq>(s: Seq<T>, i: int, k: int) -> bool {
    &&& agree(s, i, k)
    &&& forall|m: int| #[trigger] agree(s, i, m) ==> m <= k
}

//@fn string/z_algorithm.rs | z_function | ret=ret
//@spec
    requires lawful_eq::<T>(),
    ensures
        ret@.len() == s@.len(),
        s@.len() > 0 ==> ret@[0] == 0,
        forall|i: int| 1 <= i < s@.len() ==> is_lcp(s@, i, #[trigger] ret@[i] as int),
//@loop 0
    invariant
        lawful_eq::<T>(), n == s@.len(), z@.len() == n, n > 0 ==> 1 <= i <= n, l <= r + 1, r < n || n == 0, r > 0 ==> 1 <= l < i, r == 0 ==> l == 0,
        n > 0 ==> z@[0] == 0,
        r > 0 ==> agree(s@, l as int, (r as int) - (l as int) + 1),
        forall|k: int| 1 <= k < i && k < n ==> is_lcp(s@, k, #[trigger] z@[k] as int),
        forall|k: int| i <= k < n ==> #[trigger] z@[k] == 0,
    decreases n - i,
//@at loop0.head
    proof {
        if i <= r {
            let p = z@[(i as int) - (l as int)] as int;
            assert(agree(s@, (i as int) - (l as int), p));
            let w: int = (r as int) - (i as int) + 1;
            let k: int = if w <= p { w } else { p };
            assert forall|j: int| 0 <= j < k implies same(#[trigger] s@[j], s@[i + j]) by {
                assert(same(s@[j], s@[(i as int) - (l as int) + j]));
                assert(same(s@[(i as int) - (l as int) + j], s@[(l as int) + ((i as int) - (l as int) + j)]));
            }
            assert(agree(s@, i as int, k));
        } else {
            assert(agree(s@, i as int, 0));
        }
    }
    let ghost z0 = z@;
//@loop 1
    invariant
        lawful_eq::<T>(), n == s@.len(), 1 <= i < n, z@.len() == n, z0.len() == n,
        forall|k: int| 0 <= k < n && k != i ==> #[trigger] z@[k] == z0[k],
        agree(s@, i as int, z@[i as int] as int),
    ensures
        i + z@[i as int] < n ==> !same(s@[z@[i as int] as int], s@[i + z@[i as int]]),
    decreases n - z@[i as int],
//@at loop1.after
    proof {
        let q = z@[i as int] as int;
        assert forall|m: int| #[trigger] agree(s@, i as int, m) implies m <= q by {
            if m > q { assert(same(s@[q], s@[i + q])); }
        }
        assert(is_lcp(s@, i as int, q));
    }
//@end
}
