// generated by tools/gen_int.py: the primitive integer types satisfy the laws; their constants are the real code
impl Zero for i8 {
    open spec fn zero_val() -> i8 { 0 }
//@fn exp:traits::numeric | i8@Zero::zero | ret=r | novis
//@end
}
impl One for i8 {
    open spec fn one_val() -> i8 { 1 }
//@fn exp:traits::numeric | i8@One::one | ret=r | novis
//@end
}
impl Integral for i8 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i8::MIN as int }
    open spec fn hi() -> int { i8::MAX as int }
    proof fn law_range(a: i8) {}
    proof fn law_eq(a: i8, b: i8) {}
    proof fn law_sub(a: i8, b: i8) {}
    proof fn law_mul(a: i8, b: i8) {}
    proof fn law_div(a: i8, b: i8) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for i16 {
    open spec fn zero_val() -> i16 { 0 }
//@fn exp:traits::numeric | i16@Zero::zero | ret=r | novis
//@end
}
impl One for i16 {
    open spec fn one_val() -> i16 { 1 }
//@fn exp:traits::numeric | i16@One::one | ret=r | novis
//@end
}
impl Integral for i16 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i16::MIN as int }
    open spec fn hi() -> int { i16::MAX as int }
    proof fn law_range(a: i16) {}
    proof fn law_eq(a: i16, b: i16) {}
    proof fn law_sub(a: i16, b: i16) {}
    proof fn law_mul(a: i16, b: i16) {}
    proof fn law_div(a: i16, b: i16) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for i32 {
    open spec fn zero_val() -> i32 { 0 }
//@fn exp:traits::numeric | i32@Zero::zero | ret=r | novis
//@end
}
impl One for i32 {
    open spec fn one_val() -> i32 { 1 }
//@fn exp:traits::numeric | i32@One::one | ret=r | novis
//@end
}
impl Integral for i32 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i32::MIN as int }
    open spec fn hi() -> int { i32::MAX as int }
    proof fn law_range(a: i32) {}
    proof fn law_eq(a: i32, b: i32) {}
    proof fn law_sub(a: i32, b: i32) {}
    proof fn law_mul(a: i32, b: i32) {}
    proof fn law_div(a: i32, b: i32) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for i64 {
    open spec fn zero_val() -> i64 { 0 }
//@fn exp:traits::numeric | i64@Zero::zero | ret=r | novis
//@end
}
impl One for i64 {
    open spec fn one_val() -> i64 { 1 }
//@fn exp:traits::numeric | i64@One::one | ret=r | novis
//@end
}
impl Integral for i64 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i64::MIN as int }
    open spec fn hi() -> int { i64::MAX as int }
    proof fn law_range(a: i64) {}
    proof fn law_eq(a: i64, b: i64) {}
    proof fn law_sub(a: i64, b: i64) {}
    proof fn law_mul(a: i64, b: i64) {}
    proof fn law_div(a: i64, b: i64) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for i128 {
    open spec fn zero_val() -> i128 { 0 }
//@fn exp:traits::numeric | i128@Zero::zero | ret=r | novis
//@end
}
impl One for i128 {
    open spec fn one_val() -> i128 { 1 }
//@fn exp:traits::numeric | i128@One::one | ret=r | novis
//@end
}
impl Integral for i128 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i128::MIN as int }
    open spec fn hi() -> int { i128::MAX as int }
    proof fn law_range(a: i128) {}
    proof fn law_eq(a: i128, b: i128) {}
    proof fn law_sub(a: i128, b: i128) {}
    proof fn law_mul(a: i128, b: i128) {}
    proof fn law_div(a: i128, b: i128) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for isize {
    open spec fn zero_val() -> isize { 0 }
//@fn exp:traits::numeric | isize@Zero::zero | ret=r | novis
//@end
}
impl One for isize {
    open spec fn one_val() -> isize { 1 }
//@fn exp:traits::numeric | isize@One::one | ret=r | novis
//@end
}
impl Integral for isize {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { isize::MIN as int }
    open spec fn hi() -> int { isize::MAX as int }
    proof fn law_range(a: isize) {}
    proof fn law_eq(a: isize, b: isize) {}
    proof fn law_sub(a: isize, b: isize) {}
    proof fn law_mul(a: isize, b: isize) {}
    proof fn law_div(a: isize, b: isize) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for u8 {
    open spec fn zero_val() -> u8 { 0 }
//@fn exp:traits::numeric | u8@Zero::zero | ret=r | novis
//@end
}
impl One for u8 {
    open spec fn one_val() -> u8 { 1 }
//@fn exp:traits::numeric | u8@One::one | ret=r | novis
//@end
}
impl Integral for u8 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u8::MIN as int }
    open spec fn hi() -> int { u8::MAX as int }
    proof fn law_range(a: u8) {}
    proof fn law_eq(a: u8, b: u8) {}
    proof fn law_sub(a: u8, b: u8) {}
    proof fn law_mul(a: u8, b: u8) {}
    proof fn law_div(a: u8, b: u8) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for u16 {
    open spec fn zero_val() -> u16 { 0 }
//@fn exp:traits::numeric | u16@Zero::zero | ret=r | novis
//@end
}
impl One for u16 {
    open spec fn one_val() -> u16 { 1 }
//@fn exp:traits::numeric | u16@One::one | ret=r | novis
//@end
}
impl Integral for u16 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u16::MIN as int }
    open spec fn hi() -> int { u16::MAX as int }
    proof fn law_range(a: u16) {}
    proof fn law_eq(a: u16, b: u16) {}
    proof fn law_sub(a: u16, b: u16) {}
    proof fn law_mul(a: u16, b: u16) {}
    proof fn law_div(a: u16, b: u16) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for u32 {
    open spec fn zero_val() -> u32 { 0 }
//@fn exp:traits::numeric | u32@Zero::zero | ret=r | novis
//@end
}
impl One for u32 {
    open spec fn one_val() -> u32 { 1 }
//@fn exp:traits::numeric | u32@One::one | ret=r | novis
//@end
}
impl Integral for u32 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u32::MIN as int }
    open spec fn hi() -> int { u32::MAX as int }
    proof fn law_range(a: u32) {}
    proof fn law_eq(a: u32, b: u32) {}
    proof fn law_sub(a: u32, b: u32) {}
    proof fn law_mul(a: u32, b: u32) {}
    proof fn law_div(a: u32, b: u32) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for u64 {
    open spec fn zero_val() -> u64 { 0 }
//@fn exp:traits::numeric | u64@Zero::zero | ret=r | novis
//@end
}
impl One for u64 {
    open spec fn one_val() -> u64 { 1 }
//@fn exp:traits::numeric | u64@One::one | ret=r | novis
//@end
}
impl Integral for u64 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u64::MIN as int }
    open spec fn hi() -> int { u64::MAX as int }
    proof fn law_range(a: u64) {}
    proof fn law_eq(a: u64, b: u64) {}
    proof fn law_sub(a: u64, b: u64) {}
    proof fn law_mul(a: u64, b: u64) {}
    proof fn law_div(a: u64, b: u64) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for u128 {
    open spec fn zero_val() -> u128 { 0 }
//@fn exp:traits::numeric | u128@Zero::zero | ret=r | novis
//@end
}
impl One for u128 {
    open spec fn one_val() -> u128 { 1 }
//@fn exp:traits::numeric | u128@One::one | ret=r | novis
//@end
}
impl Integral for u128 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u128::MIN as int }
    open spec fn hi() -> int { u128::MAX as int }
    proof fn law_range(a: u128) {}
    proof fn law_eq(a: u128, b: u128) {}
    proof fn law_sub(a: u128, b: u128) {}
    proof fn law_mul(a: u128, b: u128) {}
    proof fn law_div(a: u128, b: u128) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}

impl Zero for usize {
    open spec fn zero_val() -> usize { 0 }
//@fn exp:traits::numeric | usize@Zero::zero | ret=r | novis
//@end
}
impl One for usize {
    open spec fn one_val() -> usize { 1 }
//@fn exp:traits::numeric | usize@One::one | ret=r | novis
//@end
}
impl Integral for usize {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { usize::MIN as int }
    open spec fn hi() -> int { usize::MAX as int }
    proof fn law_range(a: usize) {}
    proof fn law_eq(a: usize, b: usize) {}
    proof fn law_sub(a: usize, b: usize) {}
    proof fn law_mul(a: usize, b: usize) {}
    proof fn law_div(a: usize, b: usize) { lemma_trunc(a as int, b as int); if a as int == 0 { lemma_euclid(0, b as int); } if b as int == -1 { assert(rust_div(a as int, -1) == -(a as int)); } }
}
