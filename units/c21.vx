//@include lib/head.vx
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use vstd::std_specs::iter::*;
use vstd::seq_lib::*;
//@include lib/stdspec.vx
//@include lib/divides.vx
//@include lib/integral.vx
//@include lib/integral_inst.vx
//@include lib/modint_lemmas.vx
//@include lib/fermat.vx
//@include lib/miller.vx
//@include lib/rem_euclid.vx
//@include lib/modint_static.vx
//@include lib/modint_static_div.vx
//@include lib/primes.vx
//@include lib/factorial.vx
}

