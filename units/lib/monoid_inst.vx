// generated by tools/gen_monoids.py
impl Zero for i8 {
    open spec fn z_zero() -> i8 { 0 }
//@fn exp:traits::numeric | i8@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for i8 {
    open spec fn z_one() -> i8 { 1 }
//@fn exp:traits::numeric | i8@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for i8 {
    open spec fn b_min() -> i8 { i8::MIN }
//@fn exp:traits::numeric | i8@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == i8::MIN,
//@end
}
impl BoundedAbove for i8 {
    open spec fn b_max() -> i8 { i8::MAX }
//@fn exp:traits::numeric | i8@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == i8::MAX,
//@end
}
pub proof fn laws_i8(a: i8, b: i8, c: i8)
    ensures
        // Max
        Max::<i8>::m_req(a, b), Max::<i8>::m_op(a, b) == if a >= b { a } else { b },
        Max::<i8>::m_op(Max::<i8>::m_id(), a) == a, Max::<i8>::m_op(a, Max::<i8>::m_id()) == a,
        Max::<i8>::m_op(Max::<i8>::m_op(a, b), c) == Max::<i8>::m_op(a, Max::<i8>::m_op(b, c)),
        // Min
        Min::<i8>::m_req(a, b), Min::<i8>::m_op(a, b) == if a <= b { a } else { b },
        Min::<i8>::m_op(Min::<i8>::m_id(), a) == a, Min::<i8>::m_op(a, Min::<i8>::m_id()) == a,
        Min::<i8>::m_op(Min::<i8>::m_op(a, b), c) == Min::<i8>::m_op(a, Min::<i8>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<i8>::m_req(a, b) <==> i8::MIN <= a + b <= i8::MAX,
        Additive::<i8>::m_req(a, b) ==> Additive::<i8>::m_op(a, b) == a + b,
        Additive::<i8>::m_req(Additive::<i8>::m_id(), a), Additive::<i8>::m_op(Additive::<i8>::m_id(), a) == a,
        Additive::<i8>::m_req(a, Additive::<i8>::m_id()), Additive::<i8>::m_op(a, Additive::<i8>::m_id()) == a,
        defined_assoc::<Additive<i8>>(a, b, c) ==> Additive::<i8>::m_op(Additive::<i8>::m_op(a, b), c) == Additive::<i8>::m_op(a, Additive::<i8>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<i8>::m_req(a, b) <==> i8::MIN <= a * b <= i8::MAX,
        Multiplicative::<i8>::m_req(a, b) ==> Multiplicative::<i8>::m_op(a, b) == a * b,
        Multiplicative::<i8>::m_req(Multiplicative::<i8>::m_id(), a), Multiplicative::<i8>::m_op(Multiplicative::<i8>::m_id(), a) == a,
        Multiplicative::<i8>::m_req(a, Multiplicative::<i8>::m_id()), Multiplicative::<i8>::m_op(a, Multiplicative::<i8>::m_id()) == a,
        defined_assoc::<Multiplicative<i8>>(a, b, c) ==> Multiplicative::<i8>::m_op(Multiplicative::<i8>::m_op(a, b), c) == Multiplicative::<i8>::m_op(a, Multiplicative::<i8>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for i16 {
    open spec fn z_zero() -> i16 { 0 }
//@fn exp:traits::numeric | i16@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for i16 {
    open spec fn z_one() -> i16 { 1 }
//@fn exp:traits::numeric | i16@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for i16 {
    open spec fn b_min() -> i16 { i16::MIN }
//@fn exp:traits::numeric | i16@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == i16::MIN,
//@end
}
impl BoundedAbove for i16 {
    open spec fn b_max() -> i16 { i16::MAX }
//@fn exp:traits::numeric | i16@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == i16::MAX,
//@end
}
pub proof fn laws_i16(a: i16, b: i16, c: i16)
    ensures
        // Max
        Max::<i16>::m_req(a, b), Max::<i16>::m_op(a, b) == if a >= b { a } else { b },
        Max::<i16>::m_op(Max::<i16>::m_id(), a) == a, Max::<i16>::m_op(a, Max::<i16>::m_id()) == a,
        Max::<i16>::m_op(Max::<i16>::m_op(a, b), c) == Max::<i16>::m_op(a, Max::<i16>::m_op(b, c)),
        // Min
        Min::<i16>::m_req(a, b), Min::<i16>::m_op(a, b) == if a <= b { a } else { b },
        Min::<i16>::m_op(Min::<i16>::m_id(), a) == a, Min::<i16>::m_op(a, Min::<i16>::m_id()) == a,
        Min::<i16>::m_op(Min::<i16>::m_op(a, b), c) == Min::<i16>::m_op(a, Min::<i16>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<i16>::m_req(a, b) <==> i16::MIN <= a + b <= i16::MAX,
        Additive::<i16>::m_req(a, b) ==> Additive::<i16>::m_op(a, b) == a + b,
        Additive::<i16>::m_req(Additive::<i16>::m_id(), a), Additive::<i16>::m_op(Additive::<i16>::m_id(), a) == a,
        Additive::<i16>::m_req(a, Additive::<i16>::m_id()), Additive::<i16>::m_op(a, Additive::<i16>::m_id()) == a,
        defined_assoc::<Additive<i16>>(a, b, c) ==> Additive::<i16>::m_op(Additive::<i16>::m_op(a, b), c) == Additive::<i16>::m_op(a, Additive::<i16>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<i16>::m_req(a, b) <==> i16::MIN <= a * b <= i16::MAX,
        Multiplicative::<i16>::m_req(a, b) ==> Multiplicative::<i16>::m_op(a, b) == a * b,
        Multiplicative::<i16>::m_req(Multiplicative::<i16>::m_id(), a), Multiplicative::<i16>::m_op(Multiplicative::<i16>::m_id(), a) == a,
        Multiplicative::<i16>::m_req(a, Multiplicative::<i16>::m_id()), Multiplicative::<i16>::m_op(a, Multiplicative::<i16>::m_id()) == a,
        defined_assoc::<Multiplicative<i16>>(a, b, c) ==> Multiplicative::<i16>::m_op(Multiplicative::<i16>::m_op(a, b), c) == Multiplicative::<i16>::m_op(a, Multiplicative::<i16>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for i32 {
    open spec fn z_zero() -> i32 { 0 }
//@fn exp:traits::numeric | i32@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for i32 {
    open spec fn z_one() -> i32 { 1 }
//@fn exp:traits::numeric | i32@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for i32 {
    open spec fn b_min() -> i32 { i32::MIN }
//@fn exp:traits::numeric | i32@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == i32::MIN,
//@end
}
impl BoundedAbove for i32 {
    open spec fn b_max() -> i32 { i32::MAX }
//@fn exp:traits::numeric | i32@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == i32::MAX,
//@end
}
pub proof fn laws_i32(a: i32, b: i32, c: i32)
    ensures
        // Max
        Max::<i32>::m_req(a, b), Max::<i32>::m_op(a, b) == if a >= b { a } else { b },
        Max::<i32>::m_op(Max::<i32>::m_id(), a) == a, Max::<i32>::m_op(a, Max::<i32>::m_id()) == a,
        Max::<i32>::m_op(Max::<i32>::m_op(a, b), c) == Max::<i32>::m_op(a, Max::<i32>::m_op(b, c)),
        // Min
        Min::<i32>::m_req(a, b), Min::<i32>::m_op(a, b) == if a <= b { a } else { b },
        Min::<i32>::m_op(Min::<i32>::m_id(), a) == a, Min::<i32>::m_op(a, Min::<i32>::m_id()) == a,
        Min::<i32>::m_op(Min::<i32>::m_op(a, b), c) == Min::<i32>::m_op(a, Min::<i32>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<i32>::m_req(a, b) <==> i32::MIN <= a + b <= i32::MAX,
        Additive::<i32>::m_req(a, b) ==> Additive::<i32>::m_op(a, b) == a + b,
        Additive::<i32>::m_req(Additive::<i32>::m_id(), a), Additive::<i32>::m_op(Additive::<i32>::m_id(), a) == a,
        Additive::<i32>::m_req(a, Additive::<i32>::m_id()), Additive::<i32>::m_op(a, Additive::<i32>::m_id()) == a,
        defined_assoc::<Additive<i32>>(a, b, c) ==> Additive::<i32>::m_op(Additive::<i32>::m_op(a, b), c) == Additive::<i32>::m_op(a, Additive::<i32>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<i32>::m_req(a, b) <==> i32::MIN <= a * b <= i32::MAX,
        Multiplicative::<i32>::m_req(a, b) ==> Multiplicative::<i32>::m_op(a, b) == a * b,
        Multiplicative::<i32>::m_req(Multiplicative::<i32>::m_id(), a), Multiplicative::<i32>::m_op(Multiplicative::<i32>::m_id(), a) == a,
        Multiplicative::<i32>::m_req(a, Multiplicative::<i32>::m_id()), Multiplicative::<i32>::m_op(a, Multiplicative::<i32>::m_id()) == a,
        defined_assoc::<Multiplicative<i32>>(a, b, c) ==> Multiplicative::<i32>::m_op(Multiplicative::<i32>::m_op(a, b), c) == Multiplicative::<i32>::m_op(a, Multiplicative::<i32>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for i64 {
    open spec fn z_zero() -> i64 { 0 }
//@fn exp:traits::numeric | i64@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for i64 {
    open spec fn z_one() -> i64 { 1 }
//@fn exp:traits::numeric | i64@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for i64 {
    open spec fn b_min() -> i64 { i64::MIN }
//@fn exp:traits::numeric | i64@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == i64::MIN,
//@end
}
impl BoundedAbove for i64 {
    open spec fn b_max() -> i64 { i64::MAX }
//@fn exp:traits::numeric | i64@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == i64::MAX,
//@end
}
pub proof fn laws_i64(a: i64, b: i64, c: i64)
    ensures
        // Max
        Max::<i64>::m_req(a, b), Max::<i64>::m_op(a, b) == if a >= b { a } else { b },
        Max::<i64>::m_op(Max::<i64>::m_id(), a) == a, Max::<i64>::m_op(a, Max::<i64>::m_id()) == a,
        Max::<i64>::m_op(Max::<i64>::m_op(a, b), c) == Max::<i64>::m_op(a, Max::<i64>::m_op(b, c)),
        // Min
        Min::<i64>::m_req(a, b), Min::<i64>::m_op(a, b) == if a <= b { a } else { b },
        Min::<i64>::m_op(Min::<i64>::m_id(), a) == a, Min::<i64>::m_op(a, Min::<i64>::m_id()) == a,
        Min::<i64>::m_op(Min::<i64>::m_op(a, b), c) == Min::<i64>::m_op(a, Min::<i64>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<i64>::m_req(a, b) <==> i64::MIN <= a + b <= i64::MAX,
        Additive::<i64>::m_req(a, b) ==> Additive::<i64>::m_op(a, b) == a + b,
        Additive::<i64>::m_req(Additive::<i64>::m_id(), a), Additive::<i64>::m_op(Additive::<i64>::m_id(), a) == a,
        Additive::<i64>::m_req(a, Additive::<i64>::m_id()), Additive::<i64>::m_op(a, Additive::<i64>::m_id()) == a,
        defined_assoc::<Additive<i64>>(a, b, c) ==> Additive::<i64>::m_op(Additive::<i64>::m_op(a, b), c) == Additive::<i64>::m_op(a, Additive::<i64>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<i64>::m_req(a, b) <==> i64::MIN <= a * b <= i64::MAX,
        Multiplicative::<i64>::m_req(a, b) ==> Multiplicative::<i64>::m_op(a, b) == a * b,
        Multiplicative::<i64>::m_req(Multiplicative::<i64>::m_id(), a), Multiplicative::<i64>::m_op(Multiplicative::<i64>::m_id(), a) == a,
        Multiplicative::<i64>::m_req(a, Multiplicative::<i64>::m_id()), Multiplicative::<i64>::m_op(a, Multiplicative::<i64>::m_id()) == a,
        defined_assoc::<Multiplicative<i64>>(a, b, c) ==> Multiplicative::<i64>::m_op(Multiplicative::<i64>::m_op(a, b), c) == Multiplicative::<i64>::m_op(a, Multiplicative::<i64>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for i128 {
    open spec fn z_zero() -> i128 { 0 }
//@fn exp:traits::numeric | i128@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for i128 {
    open spec fn z_one() -> i128 { 1 }
//@fn exp:traits::numeric | i128@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for i128 {
    open spec fn b_min() -> i128 { i128::MIN }
//@fn exp:traits::numeric | i128@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == i128::MIN,
//@end
}
impl BoundedAbove for i128 {
    open spec fn b_max() -> i128 { i128::MAX }
//@fn exp:traits::numeric | i128@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == i128::MAX,
//@end
}
pub proof fn laws_i128(a: i128, b: i128, c: i128)
    ensures
        // Max
        Max::<i128>::m_req(a, b), Max::<i128>::m_op(a, b) == if a >= b { a } else { b },
        Max::<i128>::m_op(Max::<i128>::m_id(), a) == a, Max::<i128>::m_op(a, Max::<i128>::m_id()) == a,
        Max::<i128>::m_op(Max::<i128>::m_op(a, b), c) == Max::<i128>::m_op(a, Max::<i128>::m_op(b, c)),
        // Min
        Min::<i128>::m_req(a, b), Min::<i128>::m_op(a, b) == if a <= b { a } else { b },
        Min::<i128>::m_op(Min::<i128>::m_id(), a) == a, Min::<i128>::m_op(a, Min::<i128>::m_id()) == a,
        Min::<i128>::m_op(Min::<i128>::m_op(a, b), c) == Min::<i128>::m_op(a, Min::<i128>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<i128>::m_req(a, b) <==> i128::MIN <= a + b <= i128::MAX,
        Additive::<i128>::m_req(a, b) ==> Additive::<i128>::m_op(a, b) == a + b,
        Additive::<i128>::m_req(Additive::<i128>::m_id(), a), Additive::<i128>::m_op(Additive::<i128>::m_id(), a) == a,
        Additive::<i128>::m_req(a, Additive::<i128>::m_id()), Additive::<i128>::m_op(a, Additive::<i128>::m_id()) == a,
        defined_assoc::<Additive<i128>>(a, b, c) ==> Additive::<i128>::m_op(Additive::<i128>::m_op(a, b), c) == Additive::<i128>::m_op(a, Additive::<i128>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<i128>::m_req(a, b) <==> i128::MIN <= a * b <= i128::MAX,
        Multiplicative::<i128>::m_req(a, b) ==> Multiplicative::<i128>::m_op(a, b) == a * b,
        Multiplicative::<i128>::m_req(Multiplicative::<i128>::m_id(), a), Multiplicative::<i128>::m_op(Multiplicative::<i128>::m_id(), a) == a,
        Multiplicative::<i128>::m_req(a, Multiplicative::<i128>::m_id()), Multiplicative::<i128>::m_op(a, Multiplicative::<i128>::m_id()) == a,
        defined_assoc::<Multiplicative<i128>>(a, b, c) ==> Multiplicative::<i128>::m_op(Multiplicative::<i128>::m_op(a, b), c) == Multiplicative::<i128>::m_op(a, Multiplicative::<i128>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for isize {
    open spec fn z_zero() -> isize { 0 }
//@fn exp:traits::numeric | isize@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for isize {
    open spec fn z_one() -> isize { 1 }
//@fn exp:traits::numeric | isize@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for isize {
    open spec fn b_min() -> isize { isize::MIN }
//@fn exp:traits::numeric | isize@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == isize::MIN,
//@end
}
impl BoundedAbove for isize {
    open spec fn b_max() -> isize { isize::MAX }
//@fn exp:traits::numeric | isize@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == isize::MAX,
//@end
}
pub proof fn laws_isize(a: isize, b: isize, c: isize)
    ensures
        // Max
        Max::<isize>::m_req(a, b), Max::<isize>::m_op(a, b) == if a >= b { a } else { b },
        Max::<isize>::m_op(Max::<isize>::m_id(), a) == a, Max::<isize>::m_op(a, Max::<isize>::m_id()) == a,
        Max::<isize>::m_op(Max::<isize>::m_op(a, b), c) == Max::<isize>::m_op(a, Max::<isize>::m_op(b, c)),
        // Min
        Min::<isize>::m_req(a, b), Min::<isize>::m_op(a, b) == if a <= b { a } else { b },
        Min::<isize>::m_op(Min::<isize>::m_id(), a) == a, Min::<isize>::m_op(a, Min::<isize>::m_id()) == a,
        Min::<isize>::m_op(Min::<isize>::m_op(a, b), c) == Min::<isize>::m_op(a, Min::<isize>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<isize>::m_req(a, b) <==> isize::MIN <= a + b <= isize::MAX,
        Additive::<isize>::m_req(a, b) ==> Additive::<isize>::m_op(a, b) == a + b,
        Additive::<isize>::m_req(Additive::<isize>::m_id(), a), Additive::<isize>::m_op(Additive::<isize>::m_id(), a) == a,
        Additive::<isize>::m_req(a, Additive::<isize>::m_id()), Additive::<isize>::m_op(a, Additive::<isize>::m_id()) == a,
        defined_assoc::<Additive<isize>>(a, b, c) ==> Additive::<isize>::m_op(Additive::<isize>::m_op(a, b), c) == Additive::<isize>::m_op(a, Additive::<isize>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<isize>::m_req(a, b) <==> isize::MIN <= a * b <= isize::MAX,
        Multiplicative::<isize>::m_req(a, b) ==> Multiplicative::<isize>::m_op(a, b) == a * b,
        Multiplicative::<isize>::m_req(Multiplicative::<isize>::m_id(), a), Multiplicative::<isize>::m_op(Multiplicative::<isize>::m_id(), a) == a,
        Multiplicative::<isize>::m_req(a, Multiplicative::<isize>::m_id()), Multiplicative::<isize>::m_op(a, Multiplicative::<isize>::m_id()) == a,
        defined_assoc::<Multiplicative<isize>>(a, b, c) ==> Multiplicative::<isize>::m_op(Multiplicative::<isize>::m_op(a, b), c) == Multiplicative::<isize>::m_op(a, Multiplicative::<isize>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for u8 {
    open spec fn z_zero() -> u8 { 0 }
//@fn exp:traits::numeric | u8@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for u8 {
    open spec fn z_one() -> u8 { 1 }
//@fn exp:traits::numeric | u8@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for u8 {
    open spec fn b_min() -> u8 { u8::MIN }
//@fn exp:traits::numeric | u8@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == u8::MIN,
//@end
}
impl BoundedAbove for u8 {
    open spec fn b_max() -> u8 { u8::MAX }
//@fn exp:traits::numeric | u8@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == u8::MAX,
//@end
}
pub proof fn laws_u8(a: u8, b: u8, c: u8)
    ensures
        // Max
        Max::<u8>::m_req(a, b), Max::<u8>::m_op(a, b) == if a >= b { a } else { b },
        Max::<u8>::m_op(Max::<u8>::m_id(), a) == a, Max::<u8>::m_op(a, Max::<u8>::m_id()) == a,
        Max::<u8>::m_op(Max::<u8>::m_op(a, b), c) == Max::<u8>::m_op(a, Max::<u8>::m_op(b, c)),
        // Min
        Min::<u8>::m_req(a, b), Min::<u8>::m_op(a, b) == if a <= b { a } else { b },
        Min::<u8>::m_op(Min::<u8>::m_id(), a) == a, Min::<u8>::m_op(a, Min::<u8>::m_id()) == a,
        Min::<u8>::m_op(Min::<u8>::m_op(a, b), c) == Min::<u8>::m_op(a, Min::<u8>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<u8>::m_req(a, b) <==> u8::MIN <= a + b <= u8::MAX,
        Additive::<u8>::m_req(a, b) ==> Additive::<u8>::m_op(a, b) == a + b,
        Additive::<u8>::m_req(Additive::<u8>::m_id(), a), Additive::<u8>::m_op(Additive::<u8>::m_id(), a) == a,
        Additive::<u8>::m_req(a, Additive::<u8>::m_id()), Additive::<u8>::m_op(a, Additive::<u8>::m_id()) == a,
        defined_assoc::<Additive<u8>>(a, b, c) ==> Additive::<u8>::m_op(Additive::<u8>::m_op(a, b), c) == Additive::<u8>::m_op(a, Additive::<u8>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<u8>::m_req(a, b) <==> u8::MIN <= a * b <= u8::MAX,
        Multiplicative::<u8>::m_req(a, b) ==> Multiplicative::<u8>::m_op(a, b) == a * b,
        Multiplicative::<u8>::m_req(Multiplicative::<u8>::m_id(), a), Multiplicative::<u8>::m_op(Multiplicative::<u8>::m_id(), a) == a,
        Multiplicative::<u8>::m_req(a, Multiplicative::<u8>::m_id()), Multiplicative::<u8>::m_op(a, Multiplicative::<u8>::m_id()) == a,
        defined_assoc::<Multiplicative<u8>>(a, b, c) ==> Multiplicative::<u8>::m_op(Multiplicative::<u8>::m_op(a, b), c) == Multiplicative::<u8>::m_op(a, Multiplicative::<u8>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for u16 {
    open spec fn z_zero() -> u16 { 0 }
//@fn exp:traits::numeric | u16@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for u16 {
    open spec fn z_one() -> u16 { 1 }
//@fn exp:traits::numeric | u16@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for u16 {
    open spec fn b_min() -> u16 { u16::MIN }
//@fn exp:traits::numeric | u16@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == u16::MIN,
//@end
}
impl BoundedAbove for u16 {
    open spec fn b_max() -> u16 { u16::MAX }
//@fn exp:traits::numeric | u16@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == u16::MAX,
//@end
}
pub proof fn laws_u16(a: u16, b: u16, c: u16)
    ensures
        // Max
        Max::<u16>::m_req(a, b), Max::<u16>::m_op(a, b) == if a >= b { a } else { b },
        Max::<u16>::m_op(Max::<u16>::m_id(), a) == a, Max::<u16>::m_op(a, Max::<u16>::m_id()) == a,
        Max::<u16>::m_op(Max::<u16>::m_op(a, b), c) == Max::<u16>::m_op(a, Max::<u16>::m_op(b, c)),
        // Min
        Min::<u16>::m_req(a, b), Min::<u16>::m_op(a, b) == if a <= b { a } else { b },
        Min::<u16>::m_op(Min::<u16>::m_id(), a) == a, Min::<u16>::m_op(a, Min::<u16>::m_id()) == a,
        Min::<u16>::m_op(Min::<u16>::m_op(a, b), c) == Min::<u16>::m_op(a, Min::<u16>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<u16>::m_req(a, b) <==> u16::MIN <= a + b <= u16::MAX,
        Additive::<u16>::m_req(a, b) ==> Additive::<u16>::m_op(a, b) == a + b,
        Additive::<u16>::m_req(Additive::<u16>::m_id(), a), Additive::<u16>::m_op(Additive::<u16>::m_id(), a) == a,
        Additive::<u16>::m_req(a, Additive::<u16>::m_id()), Additive::<u16>::m_op(a, Additive::<u16>::m_id()) == a,
        defined_assoc::<Additive<u16>>(a, b, c) ==> Additive::<u16>::m_op(Additive::<u16>::m_op(a, b), c) == Additive::<u16>::m_op(a, Additive::<u16>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<u16>::m_req(a, b) <==> u16::MIN <= a * b <= u16::MAX,
        Multiplicative::<u16>::m_req(a, b) ==> Multiplicative::<u16>::m_op(a, b) == a * b,
        Multiplicative::<u16>::m_req(Multiplicative::<u16>::m_id(), a), Multiplicative::<u16>::m_op(Multiplicative::<u16>::m_id(), a) == a,
        Multiplicative::<u16>::m_req(a, Multiplicative::<u16>::m_id()), Multiplicative::<u16>::m_op(a, Multiplicative::<u16>::m_id()) == a,
        defined_assoc::<Multiplicative<u16>>(a, b, c) ==> Multiplicative::<u16>::m_op(Multiplicative::<u16>::m_op(a, b), c) == Multiplicative::<u16>::m_op(a, Multiplicative::<u16>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for u32 {
    open spec fn z_zero() -> u32 { 0 }
//@fn exp:traits::numeric | u32@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for u32 {
    open spec fn z_one() -> u32 { 1 }
//@fn exp:traits::numeric | u32@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for u32 {
    open spec fn b_min() -> u32 { u32::MIN }
//@fn exp:traits::numeric | u32@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == u32::MIN,
//@end
}
impl BoundedAbove for u32 {
    open spec fn b_max() -> u32 { u32::MAX }
//@fn exp:traits::numeric | u32@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == u32::MAX,
//@end
}
pub proof fn laws_u32(a: u32, b: u32, c: u32)
    ensures
        // Max
        Max::<u32>::m_req(a, b), Max::<u32>::m_op(a, b) == if a >= b { a } else { b },
        Max::<u32>::m_op(Max::<u32>::m_id(), a) == a, Max::<u32>::m_op(a, Max::<u32>::m_id()) == a,
        Max::<u32>::m_op(Max::<u32>::m_op(a, b), c) == Max::<u32>::m_op(a, Max::<u32>::m_op(b, c)),
        // Min
        Min::<u32>::m_req(a, b), Min::<u32>::m_op(a, b) == if a <= b { a } else { b },
        Min::<u32>::m_op(Min::<u32>::m_id(), a) == a, Min::<u32>::m_op(a, Min::<u32>::m_id()) == a,
        Min::<u32>::m_op(Min::<u32>::m_op(a, b), c) == Min::<u32>::m_op(a, Min::<u32>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<u32>::m_req(a, b) <==> u32::MIN <= a + b <= u32::MAX,
        Additive::<u32>::m_req(a, b) ==> Additive::<u32>::m_op(a, b) == a + b,
        Additive::<u32>::m_req(Additive::<u32>::m_id(), a), Additive::<u32>::m_op(Additive::<u32>::m_id(), a) == a,
        Additive::<u32>::m_req(a, Additive::<u32>::m_id()), Additive::<u32>::m_op(a, Additive::<u32>::m_id()) == a,
        defined_assoc::<Additive<u32>>(a, b, c) ==> Additive::<u32>::m_op(Additive::<u32>::m_op(a, b), c) == Additive::<u32>::m_op(a, Additive::<u32>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<u32>::m_req(a, b) <==> u32::MIN <= a * b <= u32::MAX,
        Multiplicative::<u32>::m_req(a, b) ==> Multiplicative::<u32>::m_op(a, b) == a * b,
        Multiplicative::<u32>::m_req(Multiplicative::<u32>::m_id(), a), Multiplicative::<u32>::m_op(Multiplicative::<u32>::m_id(), a) == a,
        Multiplicative::<u32>::m_req(a, Multiplicative::<u32>::m_id()), Multiplicative::<u32>::m_op(a, Multiplicative::<u32>::m_id()) == a,
        defined_assoc::<Multiplicative<u32>>(a, b, c) ==> Multiplicative::<u32>::m_op(Multiplicative::<u32>::m_op(a, b), c) == Multiplicative::<u32>::m_op(a, Multiplicative::<u32>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for u64 {
    open spec fn z_zero() -> u64 { 0 }
//@fn exp:traits::numeric | u64@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for u64 {
    open spec fn z_one() -> u64 { 1 }
//@fn exp:traits::numeric | u64@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for u64 {
    open spec fn b_min() -> u64 { u64::MIN }
//@fn exp:traits::numeric | u64@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == u64::MIN,
//@end
}
impl BoundedAbove for u64 {
    open spec fn b_max() -> u64 { u64::MAX }
//@fn exp:traits::numeric | u64@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == u64::MAX,
//@end
}
pub proof fn laws_u64(a: u64, b: u64, c: u64)
    ensures
        // Max
        Max::<u64>::m_req(a, b), Max::<u64>::m_op(a, b) == if a >= b { a } else { b },
        Max::<u64>::m_op(Max::<u64>::m_id(), a) == a, Max::<u64>::m_op(a, Max::<u64>::m_id()) == a,
        Max::<u64>::m_op(Max::<u64>::m_op(a, b), c) == Max::<u64>::m_op(a, Max::<u64>::m_op(b, c)),
        // Min
        Min::<u64>::m_req(a, b), Min::<u64>::m_op(a, b) == if a <= b { a } else { b },
        Min::<u64>::m_op(Min::<u64>::m_id(), a) == a, Min::<u64>::m_op(a, Min::<u64>::m_id()) == a,
        Min::<u64>::m_op(Min::<u64>::m_op(a, b), c) == Min::<u64>::m_op(a, Min::<u64>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<u64>::m_req(a, b) <==> u64::MIN <= a + b <= u64::MAX,
        Additive::<u64>::m_req(a, b) ==> Additive::<u64>::m_op(a, b) == a + b,
        Additive::<u64>::m_req(Additive::<u64>::m_id(), a), Additive::<u64>::m_op(Additive::<u64>::m_id(), a) == a,
        Additive::<u64>::m_req(a, Additive::<u64>::m_id()), Additive::<u64>::m_op(a, Additive::<u64>::m_id()) == a,
        defined_assoc::<Additive<u64>>(a, b, c) ==> Additive::<u64>::m_op(Additive::<u64>::m_op(a, b), c) == Additive::<u64>::m_op(a, Additive::<u64>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<u64>::m_req(a, b) <==> u64::MIN <= a * b <= u64::MAX,
        Multiplicative::<u64>::m_req(a, b) ==> Multiplicative::<u64>::m_op(a, b) == a * b,
        Multiplicative::<u64>::m_req(Multiplicative::<u64>::m_id(), a), Multiplicative::<u64>::m_op(Multiplicative::<u64>::m_id(), a) == a,
        Multiplicative::<u64>::m_req(a, Multiplicative::<u64>::m_id()), Multiplicative::<u64>::m_op(a, Multiplicative::<u64>::m_id()) == a,
        defined_assoc::<Multiplicative<u64>>(a, b, c) ==> Multiplicative::<u64>::m_op(Multiplicative::<u64>::m_op(a, b), c) == Multiplicative::<u64>::m_op(a, Multiplicative::<u64>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for u128 {
    open spec fn z_zero() -> u128 { 0 }
//@fn exp:traits::numeric | u128@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for u128 {
    open spec fn z_one() -> u128 { 1 }
//@fn exp:traits::numeric | u128@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for u128 {
    open spec fn b_min() -> u128 { u128::MIN }
//@fn exp:traits::numeric | u128@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == u128::MIN,
//@end
}
impl BoundedAbove for u128 {
    open spec fn b_max() -> u128 { u128::MAX }
//@fn exp:traits::numeric | u128@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == u128::MAX,
//@end
}
pub proof fn laws_u128(a: u128, b: u128, c: u128)
    ensures
        // Max
        Max::<u128>::m_req(a, b), Max::<u128>::m_op(a, b) == if a >= b { a } else { b },
        Max::<u128>::m_op(Max::<u128>::m_id(), a) == a, Max::<u128>::m_op(a, Max::<u128>::m_id()) == a,
        Max::<u128>::m_op(Max::<u128>::m_op(a, b), c) == Max::<u128>::m_op(a, Max::<u128>::m_op(b, c)),
        // Min
        Min::<u128>::m_req(a, b), Min::<u128>::m_op(a, b) == if a <= b { a } else { b },
        Min::<u128>::m_op(Min::<u128>::m_id(), a) == a, Min::<u128>::m_op(a, Min::<u128>::m_id()) == a,
        Min::<u128>::m_op(Min::<u128>::m_op(a, b), c) == Min::<u128>::m_op(a, Min::<u128>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<u128>::m_req(a, b) <==> u128::MIN <= a + b <= u128::MAX,
        Additive::<u128>::m_req(a, b) ==> Additive::<u128>::m_op(a, b) == a + b,
        Additive::<u128>::m_req(Additive::<u128>::m_id(), a), Additive::<u128>::m_op(Additive::<u128>::m_id(), a) == a,
        Additive::<u128>::m_req(a, Additive::<u128>::m_id()), Additive::<u128>::m_op(a, Additive::<u128>::m_id()) == a,
        defined_assoc::<Additive<u128>>(a, b, c) ==> Additive::<u128>::m_op(Additive::<u128>::m_op(a, b), c) == Additive::<u128>::m_op(a, Additive::<u128>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<u128>::m_req(a, b) <==> u128::MIN <= a * b <= u128::MAX,
        Multiplicative::<u128>::m_req(a, b) ==> Multiplicative::<u128>::m_op(a, b) == a * b,
        Multiplicative::<u128>::m_req(Multiplicative::<u128>::m_id(), a), Multiplicative::<u128>::m_op(Multiplicative::<u128>::m_id(), a) == a,
        Multiplicative::<u128>::m_req(a, Multiplicative::<u128>::m_id()), Multiplicative::<u128>::m_op(a, Multiplicative::<u128>::m_id()) == a,
        defined_assoc::<Multiplicative<u128>>(a, b, c) ==> Multiplicative::<u128>::m_op(Multiplicative::<u128>::m_op(a, b), c) == Multiplicative::<u128>::m_op(a, Multiplicative::<u128>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
impl Zero for usize {
    open spec fn z_zero() -> usize { 0 }
//@fn exp:traits::numeric | usize@Zero::zero | ret=r | novis
//@spec
    ensures r == 0,
//@end
}
impl One for usize {
    open spec fn z_one() -> usize { 1 }
//@fn exp:traits::numeric | usize@One::one | ret=r | novis
//@spec
    ensures r == 1,
//@end
}
impl BoundedBelow for usize {
    open spec fn b_min() -> usize { usize::MIN }
//@fn exp:traits::numeric | usize@BoundedBelow::min_value | ret=r | novis
//@spec
    ensures r == usize::MIN,
//@end
}
impl BoundedAbove for usize {
    open spec fn b_max() -> usize { usize::MAX }
//@fn exp:traits::numeric | usize@BoundedAbove::max_value | ret=r | novis
//@spec
    ensures r == usize::MAX,
//@end
}
pub proof fn laws_usize(a: usize, b: usize, c: usize)
    ensures
        // Max
        Max::<usize>::m_req(a, b), Max::<usize>::m_op(a, b) == if a >= b { a } else { b },
        Max::<usize>::m_op(Max::<usize>::m_id(), a) == a, Max::<usize>::m_op(a, Max::<usize>::m_id()) == a,
        Max::<usize>::m_op(Max::<usize>::m_op(a, b), c) == Max::<usize>::m_op(a, Max::<usize>::m_op(b, c)),
        // Min
        Min::<usize>::m_req(a, b), Min::<usize>::m_op(a, b) == if a <= b { a } else { b },
        Min::<usize>::m_op(Min::<usize>::m_id(), a) == a, Min::<usize>::m_op(a, Min::<usize>::m_id()) == a,
        Min::<usize>::m_op(Min::<usize>::m_op(a, b), c) == Min::<usize>::m_op(a, Min::<usize>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<usize>::m_req(a, b) <==> usize::MIN <= a + b <= usize::MAX,
        Additive::<usize>::m_req(a, b) ==> Additive::<usize>::m_op(a, b) == a + b,
        Additive::<usize>::m_req(Additive::<usize>::m_id(), a), Additive::<usize>::m_op(Additive::<usize>::m_id(), a) == a,
        Additive::<usize>::m_req(a, Additive::<usize>::m_id()), Additive::<usize>::m_op(a, Additive::<usize>::m_id()) == a,
        defined_assoc::<Additive<usize>>(a, b, c) ==> Additive::<usize>::m_op(Additive::<usize>::m_op(a, b), c) == Additive::<usize>::m_op(a, Additive::<usize>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<usize>::m_req(a, b) <==> usize::MIN <= a * b <= usize::MAX,
        Multiplicative::<usize>::m_req(a, b) ==> Multiplicative::<usize>::m_op(a, b) == a * b,
        Multiplicative::<usize>::m_req(Multiplicative::<usize>::m_id(), a), Multiplicative::<usize>::m_op(Multiplicative::<usize>::m_id(), a) == a,
        Multiplicative::<usize>::m_req(a, Multiplicative::<usize>::m_id()), Multiplicative::<usize>::m_op(a, Multiplicative::<usize>::m_id()) == a,
        defined_assoc::<Multiplicative<usize>>(a, b, c) ==> Multiplicative::<usize>::m_op(Multiplicative::<usize>::m_op(a, b), c) == Multiplicative::<usize>::m_op(a, Multiplicative::<usize>::m_op(b, c)),
{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}
