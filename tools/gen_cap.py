# writes units/lib/capint_inst.vx: the laws of Integral (the operations flow uses) for each of the 12 primitive integer types
T = "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split()
o = ["// generated by tools/gen_cap.py: the primitive integer types satisfy the laws; their constants are the real code"]
for t in T:
    o.append(f"""impl Zero for {t} {{
    open spec fn zero_val() -> {t} {{ 0 }}
//@fn exp:traits::numeric | {t}@Zero::zero | ret=r | novis
//@end
}}
impl BoundedAbove for {t} {{
    open spec fn max_val() -> {t} {{ {t}::MAX }}
//@fn exp:traits::numeric | {t}@BoundedAbove::max_value | ret=r | novis
//@end
}}
impl Integral for {t} {{
    open spec fn v(self) -> int {{ self as int }}
    open spec fn lo() -> int {{ {t}::MIN as int }}
    open spec fn hi() -> int {{ {t}::MAX as int }}
    proof fn law_range(a: {t}) {{}}
    proof fn law_cmp(a: {t}, b: {t}) {{}}
    proof fn law_add(a: {t}, b: {t}) {{}}
    proof fn law_sub(a: {t}, b: {t}) {{}}
}}
""")
open("/verif/units/lib/capint_inst.vx", "w").write("\n".join(o))
