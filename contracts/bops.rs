use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Sub};

verus! {

//@@ include prelude.rs
//@@ include geo.rs
//@@ global `OPTION` => ``
//@@ global `. clone ( )` => `. dup ( )`

//@@ global `< T as HasKernel > :: Ker :: orient2d` => `orient2d`
//@@ global `T :: Ker :: orient2d` => `orient2d`
//@@ global `use geo :: algorithm :: line_intersection :: line_intersection ;` => ``

broadcast use {eqs::ord_eq, eqs::ord_obeys_eq, num::order};

//@@ include point.rs
//@@ include lop.rs
//@@ include rings.rs
//@@ include op.rs
//@@ include osweep.rs
//@@ include laminar.rs

fn main() {
}

}
