/// all bits j >= k of i are zero
pub proof fn lemma_high_zero64(i: u64, k: u64)
    requires k < 64, forall|j: u64| k <= j < 64 ==> #[trigger] (i >> j) & 1u64 == 0u64,
    ensures (i >> k) == 0,
    decreases 64 - k
{
    assert((i >> k) & 1u64 == 0u64);
    if k == 63 {
        assert((i >> 63u64) & 1u64 == 0u64 ==> (i >> 63u64) == 0) by (bit_vector);
    } else {
        let k1 = (k + 1) as u64;
        lemma_high_zero64(i, k1);
        assert(i >> k == 0) by (bit_vector) requires k1 == k + 1, k < 63, i >> k1 == 0, (i >> k) & 1u64 == 0u64;
    }
}
pub proof fn lemma_lg64(i: u64)
    requires i > 0
    ensures u64_leading_zeros(i) < 64, pow2((63 - u64_leading_zeros(i)) as nat) <= i < pow2((64 - u64_leading_zeros(i)) as nat)
{
    axiom_u64_leading_zeros(i);
    let r = u64_leading_zeros(i);
    let k = (63 - r) as u64;
    lemma_pow2_pos(k as nat);
    lemma_pow2_unfold((k + 1) as nat);
    lemma_u64_shr_is_div(i, k);
    let q = i >> k;
    assert((i >> (63u64 - r)) & 1u64 != 0u64);
    assert(q & 1u64 != 0u64);
    assert(q & 1u64 == 1u64) by (bit_vector) requires q & 1u64 != 0u64;
    if k < 63 {
        let k1 = (k + 1) as u64;
        lemma_high_zero64(i, k1);
        assert(q == 1) by (bit_vector) requires q == i >> k, k1 == k + 1, k < 63, i >> k1 == 0, q & 1u64 == 1u64;
    } else {
        assert(q == 1) by (bit_vector) requires q == i >> 63u64, q & 1u64 == 1u64;
    }
    lemma_fundamental_div_mod(i as int, pow2(k as nat) as int);
    assert(pow2(k as nat) as int * 1 == pow2(k as nat) as int);
    lemma_mod_bound(i as int, pow2(k as nat) as int);
}
pub proof fn lemma_lg32(i: u32)
    ensures u32_leading_zeros(i) <= 32,
      i == 0 <==> u32_leading_zeros(i) == 32,
      i > 0 ==> pow2((31 - u32_leading_zeros(i)) as nat) <= i < pow2((32 - u32_leading_zeros(i)) as nat)
{
    axiom_u32_leading_zeros(i);
    let r = u32_leading_zeros(i);
    if i > 0 {
    let k = (31 - r) as u32;
    lemma_pow2_pos(k as nat);
    lemma_pow2_unfold((k + 1) as nat);
    lemma_u32_shr_is_div(i, k);
    let q = i >> k;
    assert((i >> (31u32 - r)) & 1u32 != 0u32);
    assert(q & 1u32 != 0u32);
    assert(q & 1u32 == 1u32) by (bit_vector) requires q & 1u32 != 0u32;
    if k < 31 {
        let k1 = (k + 1) as u32;
        lemma_high_zero32(i, k1);
        assert(q == 1) by (bit_vector) requires q == i >> k, k1 == k + 1, k < 31, i >> k1 == 0, q & 1u32 == 1u32;
    } else {
        assert(q == 1) by (bit_vector) requires q == i >> 31u32, q & 1u32 == 1u32;
    }
    lemma_fundamental_div_mod(i as int, pow2(k as nat) as int);
    assert(pow2(k as nat) as int * 1 == pow2(k as nat) as int);
    lemma_mod_bound(i as int, pow2(k as nat) as int);
    }
}
pub proof fn lemma_high_zero32(i: u32, k: u32)
    requires k < 32, forall|j: u32| k <= j < 32 ==> #[trigger] (i >> j) & 1u32 == 0u32,
    ensures (i >> k) == 0,
    decreases 32 - k
{
    assert((i >> k) & 1u32 == 0u32);
    if k == 31 {
        assert((i >> 31u32) & 1u32 == 0u32 ==> (i >> 31u32) == 0) by (bit_vector);
    } else {
        let k1 = (k + 1) as u32;
        lemma_high_zero32(i, k1);
        assert(i >> k == 0) by (bit_vector) requires k1 == k + 1, k < 31, i >> k1 == 0, (i >> k) & 1u32 == 0u32;
    }
}
