// generated by tools/gen_cap.py: the primitive integer types satisfy the laws; their constants are the real code
impl Zero for i8 {
    open spec fn zero_val() -> i8 { 0 }
//@fn exp:traits::numeric | i8@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for i8 {
    open spec fn max_val() -> i8 { i8::MAX }
//@fn exp:traits::numeric | i8@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for i8 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i8::MIN as int }
    open spec fn hi() -> int { i8::MAX as int }
    proof fn law_range(a: i8) {}
    proof fn law_cmp(a: i8, b: i8) {}
    proof fn law_add(a: i8, b: i8) {}
    proof fn law_sub(a: i8, b: i8) {}
}

impl Zero for i16 {
    open spec fn zero_val() -> i16 { 0 }
//@fn exp:traits::numeric | i16@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for i16 {
    open spec fn max_val() -> i16 { i16::MAX }
//@fn exp:traits::numeric | i16@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for i16 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i16::MIN as int }
    open spec fn hi() -> int { i16::MAX as int }
    proof fn law_range(a: i16) {}
    proof fn law_cmp(a: i16, b: i16) {}
    proof fn law_add(a: i16, b: i16) {}
    proof fn law_sub(a: i16, b: i16) {}
}

impl Zero for i32 {
    open spec fn zero_val() -> i32 { 0 }
//@fn exp:traits::numeric | i32@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for i32 {
    open spec fn max_val() -> i32 { i32::MAX }
//@fn exp:traits::numeric | i32@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for i32 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i32::MIN as int }
    open spec fn hi() -> int { i32::MAX as int }
    proof fn law_range(a: i32) {}
    proof fn law_cmp(a: i32, b: i32) {}
    proof fn law_add(a: i32, b: i32) {}
    proof fn law_sub(a: i32, b: i32) {}
}

impl Zero for i64 {
    open spec fn zero_val() -> i64 { 0 }
//@fn exp:traits::numeric | i64@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for i64 {
    open spec fn max_val() -> i64 { i64::MAX }
//@fn exp:traits::numeric | i64@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for i64 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i64::MIN as int }
    open spec fn hi() -> int { i64::MAX as int }
    proof fn law_range(a: i64) {}
    proof fn law_cmp(a: i64, b: i64) {}
    proof fn law_add(a: i64, b: i64) {}
    proof fn law_sub(a: i64, b: i64) {}
}

impl Zero for i128 {
    open spec fn zero_val() -> i128 { 0 }
//@fn exp:traits::numeric | i128@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for i128 {
    open spec fn max_val() -> i128 { i128::MAX }
//@fn exp:traits::numeric | i128@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for i128 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { i128::MIN as int }
    open spec fn hi() -> int { i128::MAX as int }
    proof fn law_range(a: i128) {}
    proof fn law_cmp(a: i128, b: i128) {}
    proof fn law_add(a: i128, b: i128) {}
    proof fn law_sub(a: i128, b: i128) {}
}

impl Zero for isize {
    open spec fn zero_val() -> isize { 0 }
//@fn exp:traits::numeric | isize@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for isize {
    open spec fn max_val() -> isize { isize::MAX }
//@fn exp:traits::numeric | isize@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for isize {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { isize::MIN as int }
    open spec fn hi() -> int { isize::MAX as int }
    proof fn law_range(a: isize) {}
    proof fn law_cmp(a: isize, b: isize) {}
    proof fn law_add(a: isize, b: isize) {}
    proof fn law_sub(a: isize, b: isize) {}
}

impl Zero for u8 {
    open spec fn zero_val() -> u8 { 0 }
//@fn exp:traits::numeric | u8@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for u8 {
    open spec fn max_val() -> u8 { u8::MAX }
//@fn exp:traits::numeric | u8@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for u8 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u8::MIN as int }
    open spec fn hi() -> int { u8::MAX as int }
    proof fn law_range(a: u8) {}
    proof fn law_cmp(a: u8, b: u8) {}
    proof fn law_add(a: u8, b: u8) {}
    proof fn law_sub(a: u8, b: u8) {}
}

impl Zero for u16 {
    open spec fn zero_val() -> u16 { 0 }
//@fn exp:traits::numeric | u16@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for u16 {
    open spec fn max_val() -> u16 { u16::MAX }
//@fn exp:traits::numeric | u16@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for u16 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u16::MIN as int }
    open spec fn hi() -> int { u16::MAX as int }
    proof fn law_range(a: u16) {}
    proof fn law_cmp(a: u16, b: u16) {}
    proof fn law_add(a: u16, b: u16) {}
    proof fn law_sub(a: u16, b: u16) {}
}

impl Zero for u32 {
    open spec fn zero_val() -> u32 { 0 }
//@fn exp:traits::numeric | u32@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for u32 {
    open spec fn max_val() -> u32 { u32::MAX }
//@fn exp:traits::numeric | u32@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for u32 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u32::MIN as int }
    open spec fn hi() -> int { u32::MAX as int }
    proof fn law_range(a: u32) {}
    proof fn law_cmp(a: u32, b: u32) {}
    proof fn law_add(a: u32, b: u32) {}
    proof fn law_sub(a: u32, b: u32) {}
}

impl Zero for u64 {
    open spec fn zero_val() -> u64 { 0 }
//@fn exp:traits::numeric | u64@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for u64 {
    open spec fn max_val() -> u64 { u64::MAX }
//@fn exp:traits::numeric | u64@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for u64 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u64::MIN as int }
    open spec fn hi() -> int { u64::MAX as int }
    proof fn law_range(a: u64) {}
    proof fn law_cmp(a: u64, b: u64) {}
    proof fn law_add(a: u64, b: u64) {}
    proof fn law_sub(a: u64, b: u64) {}
}

impl Zero for u128 {
    open spec fn zero_val() -> u128 { 0 }
//@fn exp:traits::numeric | u128@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for u128 {
    open spec fn max_val() -> u128 { u128::MAX }
//@fn exp:traits::numeric | u128@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for u128 {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { u128::MIN as int }
    open spec fn hi() -> int { u128::MAX as int }
    proof fn law_range(a: u128) {}
    proof fn law_cmp(a: u128, b: u128) {}
    proof fn law_add(a: u128, b: u128) {}
    proof fn law_sub(a: u128, b: u128) {}
}

impl Zero for usize {
    open spec fn zero_val() -> usize { 0 }
//@fn exp:traits::numeric | usize@Zero::zero | ret=r | novis
//@end
}
impl BoundedAbove for usize {
    open spec fn max_val() -> usize { usize::MAX }
//@fn exp:traits::numeric | usize@BoundedAbove::max_value | ret=r | novis
//@end
}
impl Integral for usize {
    open spec fn v(self) -> int { self as int }
    open spec fn lo() -> int { usize::MIN as int }
    open spec fn hi() -> int { usize::MAX as int }
    proof fn law_range(a: usize) {}
    proof fn law_cmp(a: usize, b: usize) {}
    proof fn law_add(a: usize, b: usize) {}
    proof fn law_sub(a: usize, b: usize) {}
}
