// generated by tools/gen_modint.py
pub trait RemEuclidU32: Sized {
    spec fn int_val(self) -> int;
    fn rem_euclid_u32(self, modulus: u32) -> (r: u32)
        requires 1 <= modulus <= 0x8000_0000,
        ensures r == self.int_val() % (modulus as int);
}

impl RemEuclidU32 for i8 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | i8@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for i16 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | i16@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for i32 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | i32@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for i64 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | i64@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for i128 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | i128@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for isize {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | isize@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for u8 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | u8@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for u16 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | u16@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for u32 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | u32@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for u64 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | u64@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for u128 {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | u128@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}

impl RemEuclidU32 for usize {
    open spec fn int_val(self) -> int { self as int }
//@fn exp:misc::modint | usize@RemEuclidU32::rem_euclid_u32 | ret=r | novis
//@entry
    proof { lemma_mod_bound(self as int, modulus as int); }
//@end
}
