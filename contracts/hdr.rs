#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces, unreachable_patterns)]
use vstd::prelude::*;
use std::ops::{Add, Sub, Mul, Div, Neg, Rem};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
