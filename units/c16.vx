//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/divides.vx
//@include lib/integral.vx
//@include lib/integral_inst.vx
//@include lib/number_theory.vx

// gcd(0, 0) = 0, and the gcd is the greatest of the common divisors
proof fn consequence_gcd(g: int, a: int, b: int)
    requires is_gcd(g, a, b),
    ensures a == 0 && b == 0 ==> g == 0,
        a != 0 || b != 0 ==> g > 0 && forall|d: int| #[trigger] divides(d, a) && divides(d, b) ==> d <= g,
{
    if a == 0 && b == 0 {
        lemma_divides_refl(g + 1);
        lemma_divides_refl(0);
        assert(divides(0, a) && divides(0, b));
        lemma_quot(0, g);
    } else {
        assert(g != 0) by { if g == 0 { if a != 0 { lemma_divides_le(g, a); } else { lemma_divides_le(g, b); } } }
        assert forall|d: int| #[trigger] divides(d, a) && divides(d, b) implies d <= g by { lemma_divides_le(d, g); }
    }
}

proof fn consequence_lcm(l: int, a: int, b: int)
    requires is_lcm(l, a, b),
    ensures a == 0 || b == 0 ==> l == 0,
        forall|m: int| m > 0 && #[trigger] divides(a, m) && divides(b, m) ==> l <= m,
{
    if a == 0 && l != 0 { lemma_divides_le(a, l); }
    if b == 0 && l != 0 { lemma_divides_le(b, l); }
    assert forall|m: int| m > 0 && #[trigger] divides(a, m) && divides(b, m) implies l <= m by { lemma_divides_le(l, m); }
}
}
