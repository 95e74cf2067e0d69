// ---- bit facts (each one decided by the bit-vector back end), used through `broadcast use`
pub broadcast proof fn bit_and1(x: usize)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by (bit_vector);
}
pub broadcast proof fn bit_shr1(x: usize)
    ensures #[trigger] (x >> 1usize) == x / 2,
{
    assert((x >> 1usize) == x / 2) by (bit_vector);
}
pub broadcast proof fn bit_shr1i(x: usize)
    ensures #[trigger] (x >> 1i32) == x / 2,
{
    assert((x >> 1i32) == x / 2) by (bit_vector);
}
pub broadcast group group_bits { bit_and1, bit_shr1, bit_shr1i }

pub proof fn bit_shr_step(x: usize, i: usize)
    requires i < 63,
    ensures (x >> (i + 1) as usize) == (x >> i) / 2,
{
    let j = (i + 1) as usize;
    assert(j == add(i, 1)) ;
    assert((x >> add(i, 1)) == (x >> i) / 2) by (bit_vector) requires i < 63;
}

/// p >> i in terms of powers of two
pub proof fn bit_shr_pow2(x: usize, i: usize)
    requires i < 64,
    ensures (x >> i) == x as nat / pow2(i as nat),
{
    lemma_usize_shr_is_div(x, i);
}

pub open spec fn is_p2(k: nat) -> bool
    decreases k,
{
    if k <= 1 { k == 1 } else { k % 2 == 0 && is_p2(k / 2) }
}

pub proof fn lemma_is_p2_pow2(j: nat)
    ensures is_p2(pow2(j)),
    decreases j,
{
    if j == 0 {
        lemma2_to64();
    } else {
        lemma_pow2_unfold(j);
        lemma_is_p2_pow2((j - 1) as nat);
        lemma_pow2_pos((j - 1) as nat);
    }
}

pub proof fn lemma_p2_isize(l: isize)
    requires 0 < l,
    ensures ((l & ((-l) as isize)) == l) <==> is_p2(l as nat),
    decreases l,
{
    let m = (-l) as isize;
    if l == 1 {
        assert(l & m == 1) by (bit_vector) requires l == 1, m == -1;
    } else if l % 2 == 1 {
        assert(l & m == 1) by (bit_vector) requires m == -l, l % 2 == 1, l > 0;
    } else {
        let h = (l / 2) as isize;
        lemma_p2_isize(h);
        let hm = (-h) as isize;
        assert((l & m) == l <==> (h & hm) == h) by (bit_vector) requires m == -l, hm == -h, h == l / 2, l % 2 == 0, l > 0;
    }
}
