use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Sub};

verus! {

//@@ include prelude.rs
//@@ include geo.rs
//@@ global `OPTION` => ``
//@@ global `. clone ( )` => `. dup ( )`
//@@ global `T :: Ker :: orient2d` => `orient2d`
//@@ global `unsafe { self . get_unchecked_mut ( ) }` => `self`

broadcast use {eqs::ord_eq, eqs::ord_obeys_eq, num::order};

//@@ include point.rs
//@@ include normal.rs
//@@ include events.rs
//@@ include slab.rs
//@@ include seg.rs
//@@ include mono_new.rs
//@@ include chainspec.rs
//@@ include mspec.rs
//@@ include msweep.rs
//@@ include mchains.rs

spec fn then(a: Ordering, b: Ordering) -> Ordering {
    if a == Ordering::Equal {
        b
    } else {
        a
    }
}

fn main() {
}

}
