// ---- the laws hold for the primitive integers (so the contracts below are not vacuous for them)
impl Elem for i64 {
    type D = int;
    open spec fn val(self) -> int { self as int }
    open spec fn plus(a: int, b: int) -> int { a + b }
    open spec fn zero() -> int { 0 }
    proof fn law_plus(a: int, b: int, c: int) {}
    proof fn law_cancel(a: int, b: int, c: int) {}
    proof fn law_clone(a: i64, b: i64) {}
    proof fn law_default() {}
    proof fn law_add(a: i64, b: i64, s: i64) {}
    proof fn law_lt() {}
}
impl ElemAdd<i64> for i64 {
    open spec fn uval(u: i64) -> int { u as int }
    proof fn law_add_u(a: i64, u: i64, c: i64, s: i64) {}
}
impl ElemSub for i64 {
    proof fn law_sub(a: i64, b: i64, d: i64) {}
}
impl Elem for u32 {
    type D = int;
    open spec fn val(self) -> int { self as int }
    open spec fn plus(a: int, b: int) -> int { a + b }
    open spec fn zero() -> int { 0 }
    proof fn law_plus(a: int, b: int, c: int) {}
    proof fn law_cancel(a: int, b: int, c: int) {}
    proof fn law_clone(a: u32, b: u32) {}
    proof fn law_default() {}
    proof fn law_add(a: u32, b: u32, s: u32) {}
    proof fn law_lt() {}
}
impl ElemAdd<u32> for u32 {
    open spec fn uval(u: u32) -> int { u as int }
    proof fn law_add_u(a: u32, u: u32, c: u32, s: u32) {}
}
impl ElemSub for u32 {
    proof fn law_sub(a: u32, b: u32, d: u32) {}
}
