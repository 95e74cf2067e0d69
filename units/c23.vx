//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/eq.vx

/// the prefix of length k of s[..m] is also its suffix
pub open spec fn border<T: PartialEq>(s: Seq<T>, m: int, k: int) -> bool {
    0 <= k <= m && agree(s.take(m), m - k, k)
}

/// k is the length of the longest proper prefix of s[..m] that is also its suffix
pub open spec fn longest_border<T: PartialEq>(s: Seq<T>, m: int, k: int) -> bool {
    &&& k < m && border(s, m, k)
    &&& forall|q: int| q < m && #[trigger] border(s, m, q) ==> q <= k
}

pub proof fn lemma_border<T: PartialEq>(s: Seq<T>, m: int, k: int)
    requires 0 <= k <= m <= s.len(),
    ensures border(s, m, k) <==> forall|j: int| 0 <= j < k ==> same(#[trigger] s[j], s[m - k + j]),
{
    let t = s.take(m);
    if border(s, m, k) {
        assert forall|j: int| 0 <= j < k implies same(#[trigger] s[j], s[m - k + j]) by { assert(same(t[j], t[m - k + j])); }
    }
    if forall|j: int| 0 <= j < k ==> same(#[trigger] s[j], s[m - k + j]) {
        assert forall|j: int| 0 <= j < k implies same(#[trigger] t[j], t[m - k + j]) by { assert(same(s[j], s[m - k + j])); }
    }
}

/// a border of a border, and a border within a border
pub proof fn lemma_border_trans<T: PartialEq>(s: Seq<T>, m: int, k: int, q: int)
    requires lawful_eq::<T>(), 0 <= q <= k <= m <= s.len(), border(s, m, k),
    ensures border(s, k, q) <==> border(s, m, q),
{
    lemma_border(s, m, k);
    lemma_border(s, k, q);
    lemma_border(s, m, q);
    assert forall|j: int| 0 <= j < q implies same(#[trigger] s[k - q + j], s[m - q + j]) by {
        assert(same(s[k - q + j], s[m - k + (k - q + j)]));
    }
    if border(s, k, q) {
        assert forall|j: int| 0 <= j < q implies same(#[trigger] s[j], s[m - q + j]) by { assert(same(s[j], s[k - q + j])); assert(same(s[k - q + j], s[m - q + j])); }
    }
    if border(s, m, q) {
        assert forall|j: int| 0 <= j < q implies same(#[trigger] s[j], s[k - q + j]) by { assert(same(s[j], s[m - q + j])); assert(same(s[k - q + j], s[m - q + j])); }
    }
}

/// borders of s[..m + 1] are borders of s[..m] followed by equal elements
pub proof fn lemma_border_ext<T: PartialEq>(s: Seq<T>, m: int, k: int)
    requires lawful_eq::<T>(), 0 <= k <= m < s.len(),
    ensures border(s, m + 1, k + 1) <==> border(s, m, k) && same(s[k], s[m]),
{
    lemma_border(s, m + 1, k + 1);
    lemma_border(s, m, k);
    if border(s, m + 1, k + 1) {
        assert forall|j: int| 0 <= j < k implies same(#[trigger] s[j], s[m - k + j]) by { assert(same(s[j], s[m + 1 - (k + 1) + j])); }
        assert(same(s[k], s[m + 1 - (k + 1) + k]));
    }
    if border(s, m, k) && same(s[k], s[m]) {
        assert forall|j: int| 0 <= j < k + 1 implies same(#[trigger] s[j], s[m + 1 - (k + 1) + j]) by { if j < k { assert(same(s[j], s[m - k + j])); } }
    }
}

//@fn string/kmp.rs | kmp | ret=ret
//@spec
    requires lawful_eq::<T>(),
    ensures
        ret@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> longest_border(s@, i + 1, #[trigger] ret@[i] as int),
//@at loop0.before
    proof {
        if n > 0 {
            lemma_border(s@, 1, 0);
            assert(border(s@, 1, 0));
            assert(longest_border(s@, 1, pi@[0] as int));
        }
    }
//@loop 0
    invariant
        lawful_eq::<T>(), n == s@.len(), pi@.len() == n, n > 0 ==> 1 <= i <= n,
        forall|k: int| 0 <= k < i && k < n ==> longest_border(s@, k + 1, #[trigger] pi@[k] as int),
    decreases n - i,
//@loop 1
    invariant
        lawful_eq::<T>(), n == s@.len(), pi@.len() == n, 1 <= i < n, 0 <= j < i,
        forall|k: int| 0 <= k < i && k < n ==> longest_border(s@, k + 1, #[trigger] pi@[k] as int),
        border(s@, i as int, j as int),
        forall|q: int| j < q < i && #[trigger] border(s@, i as int, q) ==> !same(s@[q], s@[i as int]),
    ensures j == 0 || same(s@[i as int], s@[j as int]),
    decreases j,
//@at set:j#0.before
    proof {
        let p = pi@[j - 1] as int;
        assert(longest_border(s@, j as int - 1 + 1, p));
        lemma_border_trans(s@, i as int, j as int, p);
        assert forall|q: int| p < q < i && #[trigger] border(s@, i as int, q) implies !same(s@[q], s@[i as int]) by {
            if q < j {
                lemma_border_trans(s@, i as int, j as int, q);
            }
        }
    }
//@at loop1.after
    proof {
        let t: int = if same(s@[i as int], s@[j as int]) { j + 1 } else { 0 };
        lemma_border(s@, i + 1, 0);
        lemma_border_ext(s@, i as int, j as int);
        assert forall|q: int| q < i + 1 && #[trigger] border(s@, i + 1, q) implies q <= t by {
            if q > 0 {
                lemma_border_ext(s@, i as int, q - 1);
                if q - 1 > j { assert(border(s@, i as int, q - 1)); }
            }
        }
        assert(longest_border(s@, i + 1, t));
    }
//@end
}
