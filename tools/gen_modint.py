# writes units/lib/rem_euclid.vx, modint_static.vx, modint_static_div.vx, modint_static_fold.vx and the dynamic twins:
# the same contracts for StaticModInt<M> and DynamicModInt<I>; every body is extracted from the real source
W = lambda f, s: open("/verif/units/lib/" + f, "w").write(s)
T = "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split()
o = ["// generated by tools/gen_modint.py", """pub trait RemEuclidU32: Sized {
    spec fn int_val(self) -> int;
    fn rem_euclid_u32(self, modulus: u32) -> (r: u32)
        requires 1 <= modulus <= 0x8000_0000,
        ensures r == self.int_val() % (modulus as int);
}
"""]
for t in T:
    o.append(f"""impl RemEuclidU32 for {t} {{
    open spec fn int_val(self) -> int {{ self as int }}
//@fn exp:misc::modint | {t}@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof {{ lemma_mod_bound(self as int, modulus as int); }}
//@end
}}
""")
W("rem_euclid.vx", "\n".join(o))

PRE = {
"static": ("""pub trait Modulus: 'static + Sized + Copy {
    const VALUE: u32;
    const HINT_VALUE_IS_PRIME: bool;
    /// required of a modulus (documented: 1 <= m <= 2^31; the hint is only given for primes)
    proof fn law_m()
        ensures 1 <= Self::VALUE <= 0x8000_0000, Self::HINT_VALUE_IS_PRIME ==> is_prime_spec(Self::VALUE as int);
}
//@struct misc/modint.rs | StaticModInt
"""),
"dyn": ("""//@struct misc/modint.rs | DynamicModInt
"""),
}

def core(kind):
    X, P, B = ("StaticModInt", "M", "Modulus") if kind == "static" else ("DynamicModInt", "I", "Id")
    XT = f"{X}<{P}>"
    G = f"{P}: {B}"
    m = "M::VALUE as int" if kind == "static" else "I::modulus_spec() as int"
    o = ["// generated by tools/gen_modint.py", PRE[kind]]
    o.append(f"""impl<{P}> Copy for {XT} {{}}
impl<{P}> Clone for {XT} {{
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    {{ *self }}
}}
impl<{G}> {XT} {{
    pub open spec fn m() -> int {{ {m} }}
    pub open spec fn v(self) -> int {{ self.val as int }}
    /// the invariant of the type: the stored value is below the modulus
    pub open spec fn wf(self) -> bool {{ self.val < {m} }}
    /// the element whose stored value is the residue of x
    pub open spec fn res(x: int) -> Self {{ {X} {{ val: (x % Self::m()) as u32, phantom: PhantomData }} }}
    pub proof fn lemma_res(x: int)
        ensures Self::res(x).wf(), Self::res(x).v() == x % Self::m(), 1 <= Self::m() <= 0x8000_0000,
    {{
        {P}::law_m();
        lemma_mod_bound(x, Self::m());
    }}
    pub proof fn lemma_ops(a: Self, b: Self)
        requires a.wf(), b.wf(),
        ensures
            Self::res(a.v() + b.v()).v() == if a.v() + b.v() < Self::m() {{ a.v() + b.v() }} else {{ a.v() + b.v() - Self::m() }},
            Self::res(a.v() - b.v()).v() == if a.v() >= b.v() {{ a.v() - b.v() }} else {{ a.v() - b.v() + Self::m() }},
            Self::res(a.v() * b.v()).v() == (a.v() * b.v()) % Self::m(), 0 <= a.v() * b.v() <= 0x7fff_ffff * 0x7fff_ffff,
            Self::res(0).v() == 0, 1 <= Self::m() <= 0x8000_0000,
            forall|x: int| #[trigger] Self::res(x).wf(),
    {{
        {P}::law_m();
        lemma_add_reduce(a.v(), b.v(), Self::m());
        lemma_sub_reduce(a.v(), b.v(), Self::m());
        lemma_mod_bound(a.v() * b.v(), Self::m());
        let (x, y) = (a.v(), b.v());
        assert(0 <= x * y <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= x <= 0x7fff_ffff, 0 <= y <= 0x7fff_ffff;
        assert forall|x: int| #[trigger] Self::res(x).wf() by {{ Self::lemma_res(x); }}
        lemma_small_mod(0, Self::m() as nat);
    }}
    pub proof fn lemma_same(a: Self)
        requires a.wf(),
        ensures Self::res(a.v()) == a,
    {{
        lemma_small_mod(a.v() as nat, Self::m() as nat);
    }}
}}
impl<{G}> {XT} {{
//@fn misc/modint.rs | {X}::modulus | ret=r
//@spec
    ensures r as int == Self::m(),
//@end
""")
    if kind == "dyn":
        o.append("""//@fn misc/modint.rs | DynamicModInt::set_modulus
//@subst fn set_modulus(modulus: u32) ==> fn set_modulus(vx_barrett: &mut Barrett, modulus: u32)
//@subst I::companion_barrett() ==> vx_barrett
//@spec
    requires 1 <= modulus <= 0x8000_0000,
    ensures final(vx_barrett).wf(), final(vx_barrett).spec_m() == modulus,
//@end
""")
    o.append(f"""//@fn misc/modint.rs | {X}::raw | ret=r
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@entry
    proof {{ lemma_small_mod(val as nat, Self::m() as nat); }}
//@end
//@fn misc/modint.rs | {X}::val | ret=r
//@spec
    ensures r as int == self.v(),
//@end
//@fn misc/modint.rs | {X}@ModIntBase::modulus | ret=r | as=base_modulus
//@spec
    ensures r as int == Self::m(),
//@end
//@fn misc/modint.rs | {X}@ModIntBase::raw | ret=r | as=base_raw
//@spec
    requires (val as int) < Self::m(),
    ensures r.wf(), r == Self::res(val as int), r.v() == val,
//@end
//@fn misc/modint.rs | {X}@ModIntBase::val | ret=r | as=base_val
//@spec
    ensures r as int == self.v(),
//@end
""")
    NEW = """//@spec
    ensures r.wf(), r == Self::res(val.int_val()), r.v() == val.int_val() % Self::m(),
//@entry
    proof {
        Self::lemma_res(val.int_val());
        let x = val.int_val() % Self::m();
        lemma_small_mod(x as nat, Self::m() as nat);
    }
//@end
"""
    POWSPEC = """//@spec
    requires self.wf(),
    ensures r.wf(), r.v() == pow(self.v(), n as nat) % Self::m(),
"""
    if kind == "static":
        o.append(f"//@fn misc/modint.rs | {X}::new | ret=r\n" + NEW)
        o.append("//@fn misc/modint.rs | trait ModIntBase::new | ret=r | as=base_new\n" + NEW)
    else:
        o.append("//@fn misc/modint.rs | trait ModIntBase::new | ret=r | as=base_new\n" + NEW)
        o.append(f"//@fn misc/modint.rs | {X}::new | ret=r\n//@subst <Self as ModIntBase>::new ==> Self::base_new\n" + NEW)
    o.append("""//@fn misc/modint.rs | trait ModIntBase::pow | ret=r | as=base_pow
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
""" + POWSPEC + """//@entry
    let ghost (n0, mm) = (n as nat, Self::m());
    proof {
        Self::lemma_res(1);
        lemma_pow0_all();
    }
//@loop 0
    invariant
        r.wf(), x.wf(),
        pow_inv(r.v(), x.v(), n as nat, self.v(), n0, mm),
    decreases n as int,
//@at loop0.before
    proof { lemma_pow_start(r.v(), x.v(), n as nat, self.v(), mm); }
//@at loop0.head
    proof {
        lemma_pow_step(r.v(), x.v(), n as nat, self.v(), n0, mm);
        Self::lemma_res(r.v() * x.v());
        Self::lemma_res(x.v() * x.v());
        assert(n & 1 == n % 2) by (bit_vector);
        assert(n >> 1 == n / 2) by (bit_vector);
    }
//@at loop0.after
    proof { lemma_pow_end(r.v(), x.v(), self.v(), n0, mm); }
//@end
""")
    o.append(f"//@fn misc/modint.rs | {X}::pow | ret=r\n//@subst <Self as ModIntBase>::pow ==> Self::base_pow\n" + POWSPEC + "//@end\n")
    o.append("""//@fn misc/modint.rs | trait InternalImplementations::default_impl | ret=r
//@spec
    ensures r.wf(), r == Self::res(0), r.v() == 0,
//@entry
    proof { Self::lemma_res(0); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::add_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() + rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::sub_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() - rhs.v()),
//@entry
    proof { Self::lemma_ops(lhs, rhs); }
//@exit
    proof { Self::lemma_same(r); }
//@end
//@fn misc/modint.rs | trait InternalImplementations::neg_impl | ret=r
//@spec
    requires this.wf(),
    ensures r.wf(), r == Self::res(-this.v()),
//@entry
    proof { Self::lemma_ops(this, this); Self::lemma_ops(Self::res(0), this); Self::lemma_same(this); }
//@exit
    proof { Self::lemma_same(r); }
//@end
""")
    o.append(f"""//@fn misc/modint.rs | {X}@InternalImplementations::mul_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(),
    ensures r.wf(), r == Self::res(lhs.v() * rhs.v()),
//@entry
    proof {{ Self::lemma_ops(lhs, rhs); }}
//@exit
    proof {{ Self::lemma_same(r); }}
//@end
}}
""")
    o.append(f"""impl<{G}, V: RemEuclidU32> vstd::std_specs::convert::FromSpecImpl<V> for {XT} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(from: V) -> Self {{ Self::res(from.int_val()) }}
}}
impl<{G}, V: RemEuclidU32> From<V> for {XT} {{
//@fn misc/modint.rs | {X}@From::from | ret=r | novis
//@end
}}
""" if kind == "xstatic" else f"""impl<{G}> {XT} {{
//@fn exp:misc::modint | {X}@From::from | ret=r | as=from_prim | hdr=impl<{G}, V: RemEuclidU32> From<V> for {XT}
//@subst fn from(from: V) ==> fn from<V: RemEuclidU32>(from: V)
//@spec
    ensures r.wf(), r == Self::res(from.int_val()), r.v() == from.int_val() % Self::m(),
//@end
}}
""")
    for L in (XT, f"&'_ {XT}"):
        pre = "&" if L[0] == "&" else ""
        o.append(f"""impl<{G}> NegSpecImpl for {L} {{
    open spec fn obeys_neg_spec() -> bool {{ true }}
    open spec fn neg_req(self) -> bool {{ self.wf() }}
    open spec fn neg_spec(self) -> {XT} {{ {X}::<{P}>::res(-self.v()) }}
}}
impl<{G}> Neg for {L} {{
    type Output = {XT};
//@fn exp:misc::modint | {pre}{X}@Neg::neg | ret=r | novis | hdr=impl<{G}> Neg for {L}
//@end
}}
""")
    for kindop in ("Add", "Sub", "Mul"):
        o.append(ops(kindop, X, P, B))
    return "\n".join(o)

SYM = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/"}
NOOP = {"Add": "lemma_add_mod_noop_right", "Sub": "lemma_sub_mod_noop_right", "Mul": "lemma_mul_mod_noop_right"}

def ops(op, X, P, B):
    XT = f"{X}<{P}>"
    G = f"{P}: {B}"
    lo = op.lower()
    o = []
    for L, R in ((XT, XT), (XT, f"&'_ {XT}"), (f"&'_ {XT}", XT), (f"&'_ {XT}", f"&'_ {XT}"), (XT, "T")):
        pre = "&" if L[0] == "&" else ""
        g = G + (", T: RemEuclidU32" if R == "T" else "")
        rv = "rhs.int_val()" if R == "T" else "rhs.v()"
        rwf = "" if R == "T" else " && rhs.wf()"
        if op == "Div":
            expr = f"self.v() * inv_of({rv}, {X}::<{P}>::m())"
            req = f"self.wf(){rwf} && inv_ok({rv}, {X}::<{P}>::m())"
            proof = f"    proof {{ {X}::<{P}>::lemma_res({rv}); lemma_inv_mod({rv}, {X}::<{P}>::m()); }}\n"
        else:
            expr = f"self.v() {SYM[op]} {rv}"
            req = f"self.wf(){rwf}"
            proof = f"    proof {{ {X}::<{P}>::lemma_res({rv}); {NOOP[op]}(self.v(), {rv}, {X}::<{P}>::m()); }}\n"
        entry = ("//@entry\n" + proof) if R == "T" else ""
        o.append(f"""impl<{g}> {op}SpecImpl<{R}> for {L} {{
    open spec fn obeys_{lo}_spec() -> bool {{ true }}
    open spec fn {lo}_req(self, rhs: {R}) -> bool {{ {req} }}
    open spec fn {lo}_spec(self, rhs: {R}) -> {XT} {{ {X}::<{P}>::res({expr}) }}
}}
impl<{g}> {op}<{R}> for {L} {{
    type Output = {XT};
//@fn exp:misc::modint | {pre}{X}@{op}::{lo}#{R[0]}{pre} | ret=r | novis | hdr=impl<{g}> {op}<{R}> for {L}
{entry}//@end
}}
""")
        if L == XT:
            expr2 = expr
            o.append(f"""impl<{g}> {op}AssignSpecImpl<{R}> for {L} {{
    open spec fn obeys_{lo}_assign_spec() -> bool {{ true }}
    open spec fn {lo}_assign_req(&self, rhs: {R}) -> bool {{ {req} }}
    open spec fn {lo}_assign_spec(&self, rhs: {R}) -> &{XT} {{ &{X}::<{P}>::res({expr2}) }}
}}
impl<{g}> {op}Assign<{R}> for {L} {{
//@fn exp:misc::modint | {X}@{op}Assign::{lo}_assign#{R[0]} | novis | hdr=impl<{g}> {op}Assign<{R}> for {L}
{entry}//@end
}}
""")
    return "\n".join(o)

def fold(kind):
    X, P, B = ("StaticModInt", "M", "Modulus") if kind == "static" else ("DynamicModInt", "I", "Id")
    XT = f"{X}<{P}>"
    G = f"{P}: {B}"
    o = ["// generated by tools/gen_modint.py"]
    o.append(f"""impl<{G}> {XT} {{
    pub open spec fn sum_of(s: Seq<int>) -> int
        decreases s.len(),
    {{ if s.len() == 0 {{ 0 }} else {{ Self::sum_of(s.drop_last()) + s.last() }} }}
    pub open spec fn prod_of(s: Seq<int>) -> int
        decreases s.len(),
    {{ if s.len() == 0 {{ 1 }} else {{ Self::prod_of(s.drop_last()) * s.last() }} }}
}}
""")
    for op, m, unit in (("Sum", "sum", "0"), ("Product", "product", "1")):
        fn = "sum_of" if op == "Sum" else "prod_of"
        sym = "+" if op == "Sum" else "*"
        lem = "lemma_add_mod_left" if op == "Sum" else "lemma_mul_mod_noop_left"
        for ref in ("", "&'a "):
            hdr = f"impl<{G}> {op}<Self> for {XT}" if not ref else f"impl<'a, {G}> {op}<&'a Self> for {XT}"
            g = G if not ref else f"'a, {G}"
            vals = f"Seq::new(iter.remaining().len(), |i: int| iter.remaining()[i].v())"
            o.append(f"""impl<{g}> {XT} {{
//@fn exp:misc::modint | {X}@{op}::{m}#{'r' if ref else 'o'} | ret=r | as={m}_{'refs' if ref else 'own'} | hdr={hdr}
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        iter.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < iter.remaining().len() ==> (#[trigger] iter.remaining()[i]).wf(),
    ensures
        r.wf(),
        r == Self::res(Self::{fn}({vals})),
//@entry
    let ghost s = {vals};
    let ghost all = iter.remaining();
    let ghost mut k: int = 0;
    proof {{ Self::lemma_res({unit}); }}
//@loop 0
    invariant
        vx_it.obeys_prophetic_iter_laws(),
        0 <= k <= all.len(),
        vx_it.remaining() == all.skip(k),
        vx_acc.wf(),
        vx_acc == Self::res(Self::{fn}(s.take(k))),
    ensures
        k == all.len(),
//@at arm0.head
    proof {{
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(vx_x == all[k]);
        assert(vx_x.wf());
        assert(t.last() == vx_x.v());
        Self::lemma_res(Self::{fn}(s.take(k)));
        {lem}(Self::{fn}(s.take(k)), vx_x.v(), Self::m());
        Self::lemma_res(vx_acc.v() {sym} vx_x.v());
        k = k + 1;
    }}
//@at loop0.before
    proof {{ assert(s.take(0) =~= Seq::<int>::empty()); assert(all.skip(0) =~= all); }}
//@at loop0.after
    proof {{ assert(s.take(k) =~= s); }}
//@end
}}
""")
    return "\n".join(o)

def div(kind):
    X, P, B = ("StaticModInt", "M", "Modulus") if kind == "static" else ("DynamicModInt", "I", "Id")
    XT = f"{X}<{P}>"
    G = f"{P}: {B}"
    INV = """//@spec
    requires {S}.wf(), inv_ok({S}.v(), Self::m()),
    ensures r.wf(), inv_exists({S}.v(), Self::m()), is_inv({S}.v(), r.v(), Self::m()), r == Self::res(inv_of({S}.v(), Self::m())),
"""
    o = ["// generated by tools/gen_modint.py", f"impl<{G}> {XT} {{"]
    o.append("""//@fn misc/modint.rs | trait InternalImplementations::inv_for_non_prime_modulus | ret=r | maypanic
""" + INV.replace("{S}", "this") + """//@entry
    proof {
        """ + P + """::law_m();
        lemma_inv_gcd_use(this.v(), Self::m());
    }
//@exit
    proof { lemma_inv_unique(this.v(), r.v(), Self::m()); Self::lemma_same(r); }
//@end
""")
    if kind == "static":
        o.append("""//@fn misc/modint.rs | StaticModInt::inv | ret=r | maypanic
//@subst M::VALUE.try_into() ==> vx_try_i32(M::VALUE)
""" + INV.replace("{S}", "self") + """//@entry
    proof {
        M::law_m();
        if M::HINT_VALUE_IS_PRIME {
            lemma_prime_inv(self.v(), Self::m());
            if M::VALUE == 0x8000_0000 { assert(0x8000_0000int % 2 == 0); }
        }
    }
//@exit
    proof { lemma_inv_unique(self.v(), r.v(), Self::m()); Self::lemma_same(r); }
//@end
""")
    else:
        o.append("""//@fn misc/modint.rs | DynamicModInt::inv | ret=r
""" + INV.replace("{S}", "self") + """//@end
""")
    o.append(f"//@fn misc/modint.rs | {X}@ModIntBase::inv | ret=r | as=base_inv\n" + INV.replace("{S}", "self") + "//@end\n")
    o.append("""//@fn misc/modint.rs | trait InternalImplementations::div_impl | ret=r
//@spec
    requires lhs.wf(), rhs.wf(), inv_ok(rhs.v(), Self::m()),
    ensures r.wf(), inv_exists(rhs.v(), Self::m()), r == Self::res(lhs.v() * inv_of(rhs.v(), Self::m())),
//@entry
    proof { lemma_inv_res(rhs.v(), Self::m()); """ + P + """::law_m(); }
//@end
}
""")
    o.append(ops("Div", X, P, B))
    return "\n".join(o)

for k in ("static", "dyn"):
    W(f"modint_{k}.vx", core(k))
    W(f"modint_{k}_fold.vx", fold(k))
    W(f"modint_{k}_div.vx", div(k))
