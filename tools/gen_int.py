# writes units/lib/integral_inst.vx: the laws of Integral for each of the 12 primitive integer types
T = "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split()
o = ["// generated by tools/gen_int.py: the primitive integer types satisfy the laws; their constants are the real code"]
for t in T:
    o.append(f"""impl Zero for {t} {{
    open spec fn zero_val() -> {t} {{ 0 }}
//@fn exp:traits::numeric | {t}@Zero::zero | ret=r | novis
//@end
}}
impl One for {t} {{
    open spec fn one_val() -> {t} {{ 1 }}
//@fn exp:traits::numeric | {t}@One::one | ret=r | novis
//@end
}}
impl Integral for {t} {{
    open spec fn v(self) -> int {{ self as int }}
    open spec fn lo() -> int {{ {t}::MIN as int }}
    open spec fn hi() -> int {{ {t}::MAX as int }}
    proof fn law_range(a: {t}) {{}}
    proof fn law_eq(a: {t}, b: {t}) {{}}
    proof fn law_sub(a: {t}, b: {t}) {{}}
    proof fn law_mul(a: {t}, b: {t}) {{}}
    proof fn law_div(a: {t}, b: {t}) {{ lemma_trunc(a as int, b as int); if a as int == 0 {{ lemma_euclid(0, b as int); }} if b as int == -1 {{ assert(rust_div(a as int, -1) == -(a as int)); }} }}
}}
""")
open("/verif/units/lib/integral_inst.vx", "w").write("\n".join(o))
