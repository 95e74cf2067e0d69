#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_snake_case, unused_must_use, unreachable_code, unused_unsafe)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::bits::*;
use std::mem::swap;
fn main() {}
verus! {
global size_of usize == 8;
//@include rt.vx
