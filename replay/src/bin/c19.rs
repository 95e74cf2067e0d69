use replay::*; use replay::mods::*; use rust_cp::misc::modint::*;
#[derive(Copy, Clone, Eq, PartialEq)] enum Other {}
impl Id for Other { fn companion_barrett() -> &'static Barrett { static B: Barrett = Barrett::new(1_000_000_006); &B } }
fn case(c: &mut C) {
    if c.one_in(6) { modint_case!(c, DynamicModInt<Other>, 1_000_000_006); return; }
    let m = dyn_modulus(c);
    ModInt::set_modulus(m);
    modint_case!(&mut *c, ModInt, m);
    for _ in 0..20 {
        let (x, y) = match c.below(4) { 0 => (m - 1 - c.below(4) as u32 % m, m - 1 - c.below(4) as u32 % m), 1 => { let x = c.u64() as u32 % m; (x, (m as u64 / (x as u64 + 1)) as u32 % m) }, _ => (c.u64() as u32 % m, c.u64() as u32 % m) };
        note!(c, "m={} {} * {}", m, x, y);
        assert_eq!((ModInt::raw(x) * ModInt::raw(y)).val() as u64, x as u64 * y as u64 % m as u64, "product");
    }
}
fn main() { replay::main(case) }
