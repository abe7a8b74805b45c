use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Sub};

verus! {

//@@ include prelude.rs
//@@ include geo.rs
//@@ global `OPTION` => ``
//@@ global `< T as HasKernel > :: Ker :: orient2d` => `orient2d`
//@@ global `T :: Ker :: orient2d` => `orient2d`
//@@ global `use geo :: algorithm :: line_intersection :: line_intersection ;` => ``
//@@ global `use $x :: * ;` => ``
//@@ global `. clone ( )` => `. dup ( )`
//@@ global `Crossable + Clone` => `Crossable`
//@@ global `Box < Slab < Segment < C > > >` => `Slab < Segment < C > >`

broadcast use {eqs::ord_eq, eqs::ord_obeys_eq, num::order};

//@@ include point.rs
//@@ include lop.rs

mod sweep {
    use super::*;
    use super::LineOrPoint::{Line, Point};

    broadcast use {super::eqs::ord_eq, super::eqs::ord_obeys_eq, super::num::order};

//@@ include crossings.rs
}

fn main() {
}

}
