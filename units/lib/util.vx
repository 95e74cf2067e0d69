//@include lglemmas.vx
/// r is the integer base-2 logarithm of i
pub open spec fn is_lg(i: int, r: int) -> bool {
    0 <= r && pow2(r as nat) <= i < pow2((r + 1) as nat)
}

//@fn misc/util.rs | lg | ret=r
//@spec
    requires i >= 1,
    ensures r < 64, is_lg(i as int, r as int),
//@entry
    proof { lemma_lg64(i as u64); }
//@end

//@fn misc/util.rs | ceil_lg | ret=r
//@spec
    ensures r <= 32, n <= pow2(r as nat), r > 0 ==> pow2((r - 1) as nat) < n,
//@entry
    proof {
        lemma2_to64();
        lemma_lg32(if n >= 1 { (n - 1) as u32 } else { 0u32 });
    }
//@end
