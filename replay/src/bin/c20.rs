use replay::*; use replay::mods::*; use rust_cp::misc::modint::*;
fn go<M: Modulus>(c: &mut C) { if M::VALUE == 1 && M::HINT_VALUE_IS_PRIME { return; } inv_case!(c, StaticModInt<M>, M::VALUE) }
fn case(c: &mut C) { if c.coin() { let m = dyn_modulus(c); ModInt::set_modulus(m); inv_case!(c, ModInt, m) } else { with_mod!(c, go) } }
fn main() { replay::main(case) }
