// Contracts assumed on std functions that vstd does not specify (trusted).
pub assume_specification [usize::leading_zeros] (i: usize) -> (r: u32)
    ensures r == u64_leading_zeros(i as u64);
pub assume_specification [usize::wrapping_neg] (i: usize) -> (r: usize)
    ensures r == (if i == 0 { 0int } else { usize::MAX - i + 1 });
pub assume_specification [i64::abs] (x: i64) -> (r: i64)
    requires x != i64::MIN,
    ensures r == (if x >= 0 { x as int } else { -x });
