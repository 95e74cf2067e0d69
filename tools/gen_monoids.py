#!/usr/bin/env python3
# writes units/lib/monoid_inst.vx: the numeric constants and monoid laws for the twelve primitive integer types
T = "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split()
o = ["// generated by tools/gen_monoids.py"]
for t in T:
    for tr, f, g, v in (("Zero", "zero", "z_zero", "0"), ("One", "one", "z_one", "1"), ("BoundedBelow", "min_value", "b_min", f"{t}::MIN"), ("BoundedAbove", "max_value", "b_max", f"{t}::MAX")):
        o.append(f"""impl {tr} for {t} {{
    open spec fn {g}() -> {t} {{ {v} }}
//@fn exp:traits::numeric | {t}@{tr}::{f} | ret=r | novis
//@spec
    ensures r == {v},
//@end
}}""")
    o.append(f"""pub proof fn laws_{t}(a: {t}, b: {t}, c: {t})
    ensures
        // Max
        Max::<{t}>::m_req(a, b), Max::<{t}>::m_op(a, b) == if a >= b {{ a }} else {{ b }},
        Max::<{t}>::m_op(Max::<{t}>::m_id(), a) == a, Max::<{t}>::m_op(a, Max::<{t}>::m_id()) == a,
        Max::<{t}>::m_op(Max::<{t}>::m_op(a, b), c) == Max::<{t}>::m_op(a, Max::<{t}>::m_op(b, c)),
        // Min
        Min::<{t}>::m_req(a, b), Min::<{t}>::m_op(a, b) == if a <= b {{ a }} else {{ b }},
        Min::<{t}>::m_op(Min::<{t}>::m_id(), a) == a, Min::<{t}>::m_op(a, Min::<{t}>::m_id()) == a,
        Min::<{t}>::m_op(Min::<{t}>::m_op(a, b), c) == Min::<{t}>::m_op(a, Min::<{t}>::m_op(b, c)),
        // Additive: defined exactly where the sum is representable
        Additive::<{t}>::m_req(a, b) <==> {t}::MIN <= a + b <= {t}::MAX,
        Additive::<{t}>::m_req(a, b) ==> Additive::<{t}>::m_op(a, b) == a + b,
        Additive::<{t}>::m_req(Additive::<{t}>::m_id(), a), Additive::<{t}>::m_op(Additive::<{t}>::m_id(), a) == a,
        Additive::<{t}>::m_req(a, Additive::<{t}>::m_id()), Additive::<{t}>::m_op(a, Additive::<{t}>::m_id()) == a,
        defined_assoc::<Additive<{t}>>(a, b, c) ==> Additive::<{t}>::m_op(Additive::<{t}>::m_op(a, b), c) == Additive::<{t}>::m_op(a, Additive::<{t}>::m_op(b, c)),
        // Multiplicative: defined exactly where the product is representable
        Multiplicative::<{t}>::m_req(a, b) <==> {t}::MIN <= a * b <= {t}::MAX,
        Multiplicative::<{t}>::m_req(a, b) ==> Multiplicative::<{t}>::m_op(a, b) == a * b,
        Multiplicative::<{t}>::m_req(Multiplicative::<{t}>::m_id(), a), Multiplicative::<{t}>::m_op(Multiplicative::<{t}>::m_id(), a) == a,
        Multiplicative::<{t}>::m_req(a, Multiplicative::<{t}>::m_id()), Multiplicative::<{t}>::m_op(a, Multiplicative::<{t}>::m_id()) == a,
        defined_assoc::<Multiplicative<{t}>>(a, b, c) ==> Multiplicative::<{t}>::m_op(Multiplicative::<{t}>::m_op(a, b), c) == Multiplicative::<{t}>::m_op(a, Multiplicative::<{t}>::m_op(b, c)),
{{
    lemma_mul_is_associative(a as int, b as int, c as int);
    assert(1 * a == a && a * 1 == a);
}}""")
open(__file__.rsplit("/", 2)[0] + "/units/lib/monoid_inst.vx", "w").write("\n".join(o) + "\n")
