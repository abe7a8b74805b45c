use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Sub};

verus! {

//@@ include prelude.rs
//@@ include geo.rs
//@@ global `OPTION` => ``

broadcast use {eqs::ord_eq, eqs::ord_obeys_eq, num::order, num::arith};

//@@ include point.rs
//@@ include monopoly.rs

fn main() {
}

}
