//@include lib/head.vx
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use vstd::std_specs::iter::*;
use std::convert::Infallible;
use std::fmt;
use std::hash::{Hash, Hasher};
//@include lib/parse.vx
//@include lib/show.vx
//@include lib/modint_lemmas.vx
//@include lib/rem_euclid.vx
//@include lib/modint_static.vx
//@include lib/modint_static_fold.vx
//@include lib/modint_static_str.vx
//@include lib/modint_static_show.vx
}
