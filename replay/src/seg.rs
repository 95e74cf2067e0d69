//! monoids used by the segment-tree checks
use rust_cp::traits::monoid::*;
/// affine maps over Z/2^64 under composition: not commutative
pub struct Aff;
impl Monoid for Aff {
    type S = (u64, u64);
    fn identity() -> (u64, u64) { (1, 0) }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) { (a.0.wrapping_mul(b.0), a.1.wrapping_mul(b.0).wrapping_add(b.1)) }
}
/// polynomial hash of a sequence: (hash, B^len, 1 + B + .. + B^(len-1)): not commutative
pub struct Hash;
impl Monoid for Hash {
    type S = (u64, u64, u64);
    fn identity() -> Self::S { (0, 1, 0) }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        (a.0.wrapping_mul(b.1).wrapping_add(b.0), a.1.wrapping_mul(b.1), a.2.wrapping_mul(b.1).wrapping_add(b.2))
    }
}
pub fn h1(x: u64) -> (u64, u64, u64) { (x, 1000003, 1) }
/// x -> a x + b on every element
pub struct HashAff;
impl MapMonoid for HashAff {
    type M = Hash;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) { (1, 0) }
    fn mapping(f: &(u64, u64), x: &(u64, u64, u64)) -> (u64, u64, u64) { (f.0.wrapping_mul(x.0).wrapping_add(f.1.wrapping_mul(x.2)), x.1, x.2) }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) { (f.0.wrapping_mul(g.0), f.0.wrapping_mul(g.1).wrapping_add(f.1)) }
}
/// (sum, count): commutative
pub struct Sum;
impl Monoid for Sum {
    type S = (u64, u64);
    fn identity() -> (u64, u64) { (0, 0) }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) { (a.0.wrapping_add(b.0), a.1 + b.1) }
}
pub struct SumAff;
impl MapMonoid for SumAff {
    type M = Sum;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) { (1, 0) }
    fn mapping(f: &(u64, u64), x: &(u64, u64)) -> (u64, u64) { (f.0.wrapping_mul(x.0).wrapping_add(f.1.wrapping_mul(x.1)), x.1) }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) { (f.0.wrapping_mul(g.0), f.0.wrapping_mul(g.1).wrapping_add(f.1)) }
}
pub fn fold<M: Monoid>(v: &[M::S]) -> M::S { v.iter().fold(M::identity(), |a, b| M::binary_operation(&a, b)) }
