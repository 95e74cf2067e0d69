use replay::*; use replay::mods::*; use rust_cp::misc::modint::*;
fn go<M: Modulus>(c: &mut C) { modint_case!(c, StaticModInt<M>, M::VALUE) }
fn case(c: &mut C) { if c.one_in(10) { modint_case!(c, ModInt1000000007, 1_000_000_007) } else if c.one_in(10) { modint_case!(c, ModInt998244353, 998_244_353) } else { with_mod!(c, go) } }
fn main() { replay::main(case) }
