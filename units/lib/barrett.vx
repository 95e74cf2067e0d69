// The run-time modulus.  Interior mutability is checked as exclusive mutation: the atomics are plain cells here (stand-ins
// below, verified), and update/set_modulus receive the companion Barrett as a mutable parameter.
pub mod atomic {
    pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
}
pub struct AtomicU32 { pub v: u32 }
pub struct AtomicU64 { pub v: u64 }
impl AtomicU32 {
    pub const fn new(v: u32) -> (r: Self) ensures r.v == v { AtomicU32 { v } }
    pub fn load(&self, o: atomic::Ordering) -> (r: u32) ensures r == self.v { self.v }
    pub fn store(&mut self, v: u32, o: atomic::Ordering) ensures final(self).v == v { self.v = v; }
}
impl AtomicU64 {
    pub const fn new(v: u64) -> (r: Self) ensures r.v == v { AtomicU64 { v } }
    pub fn load(&self, o: atomic::Ordering) -> (r: u64) ensures r == self.v { self.v }
    pub fn store(&mut self, v: u64, o: atomic::Ordering) ensures final(self).v == v { self.v = v; }
}

/// im is the rounded-up reciprocal of m, as 64-bit fixed point (0 stands for 2^64 when m = 1)
pub open spec fn barrett_ok(m: int, im: int) -> bool {
    &&& 1 <= m <= 0x8000_0000
    &&& 0 <= im < 0x1_0000_0000_0000_0000
    &&& m == 1 ==> im == 0
    &&& m >= 2 ==> 0x1_0000_0000_0000_0000 <= im * m < 0x1_0000_0000_0000_0000 + m
}

pub proof fn lemma_barrett_im(m: int, q: int)
    requires 1 <= m <= 0x8000_0000, q == 0xffff_ffff_ffff_ffffint / m,
    ensures
        m == 1 ==> q == 0xffff_ffff_ffff_ffff,
        m >= 2 ==> q + 1 < 0x1_0000_0000_0000_0000 && barrett_ok(m, q + 1),
{
    lemma_fundamental_div_mod(0xffff_ffff_ffff_ffffint, m);
    if m >= 2 {
        let r = 0xffff_ffff_ffff_ffffint % m;
        assert((q + 1) * m == m * q + m) by (nonlinear_arith);
        assert(q * 2 <= m * q) by (nonlinear_arith) requires m >= 2, q >= 0;
    } else {
        assert(q == 0xffff_ffff_ffff_ffffint) by (nonlinear_arith) requires m == 1, q == 0xffff_ffff_ffff_ffffint / m;
    }
}

/// the estimate of the quotient is exact or one too big
pub proof fn lemma_barrett(a: int, b: int, m: int, im: int, x: int)
    requires
        barrett_ok(m, im), 0 <= a < m, 0 <= b < m,
        x == (a * b * im) / 0x1_0000_0000_0000_0000,
    ensures
        0 <= a * b < 0x4000_0000_0000_0000,
        0 <= a * b * im < 0x4000_0000_0000_0000 * 0x1_0000_0000_0000_0000,
        0 <= x < 0x8000_0000_0000_0000,
        0 <= x * m < 0x8000_0000_0000_0000,
        a * b - x * m == (a * b) % m || a * b - x * m == (a * b) % m - m,
{
    let z = a * b;
    let k = 0x1_0000_0000_0000_0000int;
    assert(0 <= z <= (m - 1) * (m - 1)) by (nonlinear_arith) requires 0 <= a < m, 0 <= b < m, z == a * b;
    assert((m - 1) * (m - 1) < 0x4000_0000_0000_0000) by (nonlinear_arith) requires 1 <= m <= 0x8000_0000;
    if m == 1 {
        assert(z == 0);
        assert(z * im == 0);
        assert(x == 0);
        assert(x * m == 0);
        lemma_small_mod(0, 1);
    } else {
        let c = z / m;
        let d = z % m;
        lemma_fundamental_div_mod(z, m);
        let r = im * m - k;
        assert(z * im == c * k + (c * r + d * im)) by (nonlinear_arith) requires z == m * c + d, im * m == k + r;
        assert(0 <= c) by (nonlinear_arith) requires z == m * c + d, 0 <= d < m, z >= 0, m > 0;
        assert(c < m) by (nonlinear_arith) requires z == m * c + d, 0 <= d, z <= (m - 1) * (m - 1), m > 0;
        let e = c * r + d * im;
        assert(0 <= e) by (nonlinear_arith) requires c >= 0, r >= 0, d >= 0, im >= 0, e == c * r + d * im;
        assert(c * r <= (m - 1) * (m - 1)) by (nonlinear_arith) requires 0 <= c < m, 0 <= r < m;
        assert(d * im <= (m - 1) * im) by (nonlinear_arith) requires 0 <= d < m, im >= 0;
        assert((m - 1) * im == im * m - im) by (nonlinear_arith);
        assert(im * m < k + m);
        assert(e < 2 * k);
        assert(z * im < 0x4000_0000_0000_0000 * k) by (nonlinear_arith) requires z < 0x4000_0000_0000_0000, 0 <= z, 0 <= im < k;
        assert(z * im >= 0) by (nonlinear_arith) requires z >= 0, im >= 0;
        lemma_div_multiples_vanish_fancy(c, e % k, k);
        // z * im / k is c or c + 1
        if e < k {
            lemma_fundamental_div_mod_converse(z * im, k, c, e);
            assert(x == c);
            assert(z - c * m == d) by (nonlinear_arith) requires z == m * c + d;
        } else {
            assert(z * im == k * (c + 1) + (e - k)) by (nonlinear_arith) requires z * im == c * k + e;
            lemma_fundamental_div_mod_converse(z * im, k, c + 1, e - k);
            assert(x == c + 1);
            assert(z - (c + 1) * m == d - m) by (nonlinear_arith) requires z == m * c + d;
        }
        assert(0 <= x * m <= z + m) by (nonlinear_arith) requires z - x * m >= -m, x >= 0, m > 0;
    }
}

//@fn math/internal_math.rs | mul_mod | ret=r | divassign
//@spec
    requires barrett_ok(m as int, im as int), a < m, b < m,
    ensures r < m, r as int == (a as int * b as int) % (m as int),
//@entry
    let ghost xx = (a as int * b as int * im as int) / 0x1_0000_0000_0000_0000;
    proof {
        lemma_barrett(a as int, b as int, m as int, im as int, xx);
        assert forall|w: u128| #[trigger] (w >> 64) == w / 0x1_0000_0000_0000_0000 by { lemma_shr128(w); }
        lemma_mod_bound(a as int * b as int, m as int);
        lemma_trunc_all();
    }
//@end

pub proof fn lemma_shr128(w: u128)
    ensures (w >> 64) == w / 0x1_0000_0000_0000_0000,
{
    assert((w >> 64) == w / 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_trunc_all()
    ensures
        forall|w: u64| w < 0x1_0000_0000 ==> #[trigger] (w as u32) == w,
        forall|w: u64| w >= 0xffff_ffff_0000_0000 ==> #[trigger] (w as u32) == w - 0xffff_ffff_0000_0000,
{
    assert forall|w: u64| w < 0x1_0000_0000 implies #[trigger] (w as u32) == w by {}
    assert forall|w: u64| w >= 0xffff_ffff_0000_0000 implies #[trigger] (w as u32) == w - 0xffff_ffff_0000_0000 by {
        assert(w >= 0xffff_ffff_0000_0000u64 ==> (w as u32) as u64 == w - 0xffff_ffff_0000_0000u64) by (bit_vector);
    }
}

//@struct misc/modint.rs | Barrett
impl Barrett {
    pub open spec fn spec_m(self) -> int { self.m.v as int }
    pub open spec fn wf(self) -> bool { barrett_ok(self.m.v as int, self.im.v as int) }
}
impl Barrett {
//@fn misc/modint.rs | Barrett::new | ret=r
//@spec
    requires 1 <= m <= 0x8000_0000,
    ensures r.wf(), r.spec_m() == m,
//@entry
    proof {
        lemma_barrett_im(m as int, 0xffff_ffff_ffff_ffffint / (m as int));
        assert((-1i64) as u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector);
    }
//@end
//@fn misc/modint.rs | Barrett::default | ret=r
//@spec
    ensures r.wf(), r.spec_m() == 998_244_353,
//@end
//@fn misc/modint.rs | Barrett::update
//@subst &self ==> &mut self
//@spec
    requires 1 <= m <= 0x8000_0000,
    ensures final(self).wf(), final(self).spec_m() == m,
//@entry
    proof {
        lemma_barrett_im(m as int, 0xffff_ffff_ffff_ffffint / (m as int));
        assert((-1i64) as u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector);
    }
//@end
//@fn misc/modint.rs | Barrett::umod | ret=r
//@spec
    ensures r as int == self.spec_m(),
//@end
//@fn misc/modint.rs | Barrett::mul | ret=r
//@spec
    requires self.wf(), (a as int) < self.spec_m(), (b as int) < self.spec_m(),
    ensures (r as int) < self.spec_m(), r as int == (a as int * b as int) % self.spec_m(),
//@end
}
pub trait Id: 'static + Sized + Copy {
    /// the modulus last set; constant while no set_modulus intervenes
    spec fn modulus_spec() -> u32;
    proof fn law_m()
        ensures 1 <= Self::modulus_spec() <= 0x8000_0000;
    fn companion_barrett() -> (r: &'static Barrett)
        ensures r.wf(), r.spec_m() == Self::modulus_spec();
}
