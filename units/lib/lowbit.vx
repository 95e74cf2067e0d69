// ---- lowest set bit and the Fenwick index structure
pub open spec fn lb(i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else if i % 2 == 1 { 1 } else { 2 * lb(i / 2) }
}

pub proof fn lemma_lb(i: int)
    requires i >= 1,
    ensures 1 <= lb(i) <= i,
    decreases i,
{
    if i % 2 == 0 { lemma_lb(i / 2); }
}

pub proof fn lemma_lb_neg(x: usize, w: usize)
    requires x > 0, w == 0xffff_ffff_ffff_ffff - x + 1,
    ensures x & w == lb(x as int),
    decreases x,
{
    if x % 2 == 1 {
        assert(x & w == 1) by (bit_vector) requires x % 2 == 1, w == 0xffff_ffff_ffff_ffff - x + 1;
    } else {
        let h = x / 2;
        let hw = (0xffff_ffff_ffff_ffff - h + 1) as usize;
        lemma_lb_neg(h, hw);
        lemma_lb(h as int);
        assert(x & w == 2 * (h & hw)) by (bit_vector)
            requires x % 2 == 0, x > 0, h == x / 2, w == 0xffff_ffff_ffff_ffff - x + 1, hw == 0xffff_ffff_ffff_ffff - h + 1;
    }
}

pub proof fn lemma_lb_dec(x: usize)
    requires x > 0,
    ensures x & ((x - 1) as usize) == x - lb(x as int),
    decreases x,
{
    let w = (x - 1) as usize;
    if x % 2 == 1 {
        assert(x & w == x - 1) by (bit_vector) requires x % 2 == 1, w == x - 1;
    } else {
        let h = x / 2;
        let hw = (h - 1) as usize;
        lemma_lb_dec(h);
        assert(x & w == 2 * (h & hw)) by (bit_vector) requires x % 2 == 0, x > 0, h == x / 2, w == x - 1, hw == h - 1;
    }
}

/// the parent of i covers at least twice as much
pub proof fn lemma_lb_up(i: int)
    requires i >= 1,
    ensures lb(i + lb(i)) >= 2 * lb(i),
    decreases i,
{
    if i % 2 == 1 {
        lemma_lb((i + 1) / 2);
    } else {
        lemma_lb_up(i / 2);
        lemma_lb(i / 2);
        assert((i + lb(i)) / 2 == i / 2 + lb(i / 2));
    }
}

/// strictly between i and its parent, nothing reaches below i or beyond the parent
pub proof fn lemma_lb_between(i: int, j: int)
    requires 1 <= i < j < i + lb(i),
    ensures j - lb(j) >= i, j + lb(j) <= i + lb(i),
    decreases i,
{
    if i % 2 == 0 && j % 2 == 0 {
        lemma_lb_between(i / 2, j / 2);
    } else if i % 2 == 0 {
        assert(lb(i) == 2 * lb(i / 2));
    }
}

/// strictly inside the range covered by i
pub proof fn lemma_lb_inside(i: int, j: int)
    requires 1 <= i, i - lb(i) < j < i,
    ensures j - lb(j) >= i - lb(i), j + lb(j) <= i,
    decreases i,
{
    lemma_lb(i);
    if i % 2 == 0 && j % 2 == 0 {
        lemma_lb(j);
        lemma_lb_inside(i / 2, j / 2);
    } else if i % 2 == 0 {
        assert(lb(i) == 2 * lb(i / 2));
    }
}

pub proof fn lemma_lb_left(i: int)
    requires i >= 1, i - lb(i) > 0, lb(i + lb(i)) > 2 * lb(i),
    ensures lb(i - lb(i)) == 2 * lb(i),
    decreases i,
{
    if i % 2 == 1 {
        let h = (i + 1) / 2;
        assert(lb(i + 1) == 2 * lb(h));
        assert(h % 2 == 0);
        assert((i - 1) / 2 == h - 1);
        assert(lb(i - 1) == 2 * lb(h - 1));
    } else {
        let h = i / 2;
        lemma_lb(h);
        assert((i + lb(i)) / 2 == h + lb(h));
        assert((i - lb(i)) / 2 == h - lb(h));
        lemma_lb_left(h);
    }
}

/// how far the range of j has been filled when 1..=t have been processed by the linear-time build
pub open spec fn cov(j: int, t: int) -> int
    decreases t,
{
    if t <= j - lb(j) || t <= 0 { j - lb(j) } else if t + lb(t) == j { t } else { cov(j, t - 1) }
}

pub proof fn lemma_cov_start(j: int)
    requires j >= 1,
    ensures cov(j, 0) == j - lb(j),
{
    lemma_lb(j);
}

pub proof fn lemma_cov_full(j: int)
    requires j >= 1,
    ensures cov(j, j - 1) == j - 1,
{
    lemma_lb(j);
    if j % 2 == 0 {
        assert(lb(j) == 2 * lb(j / 2));
        lemma_lb(j / 2);
    }
}

proof fn lemma_cov_skip(j: int, i: int, t: int)
    requires 1 <= i, i + lb(i) == j, i - lb(i) <= t < i,
    ensures cov(j, t) == cov(j, i - lb(i)),
    decreases t,
{
    lemma_lb(i);
    if t > i - lb(i) {
        lemma_lb_inside(i, t);
        lemma_lb_up(i);
        assert(i - lb(i) >= j - lb(j));
        lemma_cov_skip(j, i, t - 1);
    }
}

pub proof fn lemma_cov_child(j: int, i: int)
    requires 1 <= i, i + lb(i) == j,
    ensures cov(j, i - 1) == i - lb(i), j - lb(j) <= i - lb(i), cov(j, i) == i,
{
    lemma_lb(i);
    lemma_lb_up(i);
    lemma_cov_skip(j, i, i - 1);
    let p = i - lb(i);
    if p > j - lb(j) {
        lemma_lb(j);
        lemma_lb_left(i);
        assert(p + lb(p) == j);
    }
}

pub proof fn lemma_cov_other(j: int, i: int)
    requires 1 <= i < j, i + lb(i) != j,
    ensures cov(j, i) == cov(j, i - 1),
{
    lemma_lb(j);
    if i <= j - lb(j) {
    }
}

pub proof fn lemma_lb_pow(m: int, c: nat)
    requires m >= 0, m % (pow2(c + 1) as int) == 0,
    ensures lb(m + pow2(c)) == pow2(c),
    decreases c,
{
    lemma_pow2_unfold(c + 1);
    lemma_pow2_pos(c);
    if c == 0 {
        lemma2_to64();
    } else {
        lemma_pow2_unfold(c);
        let q = pow2(c) as int;
        lemma_fundamental_div_mod(m, 2 * q);
        let d = m / (2 * q);
        assert(m == 2 * (q * d)) by (nonlinear_arith) requires m == 2 * q * d;
        assert(m / 2 == q * d);
        assert((q * d) % q == 0) by { lemma_mod_multiples_basic(d, q); assert(q * d == d * q) by (nonlinear_arith); }
        lemma_lb_pow(m / 2, (c - 1) as nat);
        assert((m + q) / 2 == m / 2 + pow2((c - 1) as nat));
        assert((m + q) % 2 == 0);
    }
}
