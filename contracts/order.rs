use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use std::ops::{Add, Div, Mul, Sub};
use std::cmp::Ordering;

verus! {

//@@ include prelude.rs
//@@ include geo.rs
//@@ global `OPTION` => ``
//@@ global `< T as HasKernel > :: Ker :: orient2d` => `orient2d`
//@@ global `T :: Ker :: orient2d` => `orient2d`
//@@ global `use geo :: algorithm :: line_intersection :: line_intersection ;` => ``

broadcast use {eqs::ord_eq, eqs::ord_obeys_eq, num::order};

//@@ include point.rs
//@@ include lop.rs

//@@ include slab.rs
//@@ global `Crossable + Clone` => `Crossable`
//@@ global `unsafe { & * self . storage as & Slab < _ > }` => `self . storage`
//@@ global `unsafe { & * self . storage }` => `self . storage`
//@@ global `$s as * const _` => `$s`
//@@ global `* const Slab < T >` => `& 'a Slab < T >`

// ---- the order of pieces -------------------------------------------------------------------------
spec fn by_key(k: usize, l: usize) -> Ordering {
    if k < l {
        Ordering::Less
    } else if k == l {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

// by height, and pieces at one height by key
spec fn rank_by<T: GeoNum>(a: LineOrPoint<T>, k: usize, b: LineOrPoint<T>, l: usize) -> Option<Ordering> {
    match lop_cmp(a, b) {
        Some(o) => Some(then(o, by_key(k, l))),
        None => None,
    }
}

// a piece, seen from either side of a comparison, stands in the same order; two lines always stand
// in one, and only a piece is equal to itself
proof fn lemma_rank_anti<T: GeoNum>(a: LineOrPoint<T>, k: usize, b: LineOrPoint<T>, l: usize)
    requires
        placed(a, b),
    ensures
        rank_by(a, k, b, l) == omap(rank_by(b, l, a, k)),
        a is Line && b is Line ==> rank_by(a, k, b, l) is Some,
        rank_by(a, k, b, l) == Some(Ordering::Equal) ==> k == l,
{
    lemma_order(a, b);
}

trait Ranked: Sized {
    // how one piece stands to another can be told
    spec fn told(a: Self, b: Self) -> bool;

    spec fn rank(a: Self, b: Self) -> Option<Ordering>;

    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>)
        ensures
            Self::told(*self, *other) ==> ret == Self::rank(*self, *other),
    ;
}

// ---- active.rs: an entry of the ordered set of active pieces ---------------------------------------
// the slab an entry points to is a reference here: it outlives the entry and stays as it is meanwhile
#[verifier::reject_recursive_types(T)]
//@@ struct Active
//@@ sub `struct Active < T >` => `struct Active < 'a , T >`
struct Active < 'a , T > {
    key: usize,
    storage: & 'a Slab < T >,
}
//@@ end

impl<'a, T> Active<'a, T> {
    spec fn live(&self) -> bool {
        self.storage@.contains_key(self.key)
    }

    spec fn it(&self) -> T {
        self.storage@[self.key]
    }

//@@ fn new self=Active
//@@ sub `storage : & Slab < T >` => `storage : & 'a Slab < T >`
    fn new(key: usize, storage : & 'a Slab < T >) -> (ret: Self) /*@ ensures ret.key == key, ret.storage@ == storage@, @*/ {
        Active {
            key,
            storage: storage,
        }
    }
//@@ end

//@@ fn get self=Active
    fn get(&self) -> (ret: &T) /*@ requires self.live(), ensures *ret == self.it(), @*/ {
        let slab = self . storage;
        unsafe { slab.get_unchecked(self.key) }
    }
//@@ end

//@@ fn eq self=Active trait=PartialEq
    fn eq(&self, other: &Self) -> (ret: bool) /*@ ensures ret == (self.key == other.key), @*/ {
        self.key == other.key
    }
//@@ end
}

impl<'a, T: Ranked> Active<'a, T> {
//@@ fn partial_cmp self=Active trait=PartialOrd
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) /*@ requires self.live(), other.live(), ensures T::told(self.it(), other.it()) ==> ret == T::rank(self.it(), other.it()), @*/ {
        self.get()
            .partial_cmp(
                other
                    .get()
            )
    }
//@@ end

//@@ fn cmp self=Active trait=Ord
    fn cmp(&self, other: &Self) -> (ret: Ordering) /*@ requires self.live(), other.live(), T::told(self.it(), other.it()), T::rank(self.it(), other.it()) is Some, ensures Some(ret) == T::rank(self.it(), other.it()), @*/ {
        match
        self.partial_cmp(other){ Some ( o ) => o , None => {
                rt_panic();
            }}
    }
//@@ end
}

// ---- crossings/sweep.rs: its pieces -----------------------------------------------------------------
mod sweep {
    use super::*;

    broadcast use {super::eqs::ord_eq, super::eqs::ord_obeys_eq, super::num::order};

    trait Crossable: Sized {
        type Scalar: GeoNum;
    }

//@@ struct Segment file=src/crossings/sweep.rs
struct Segment<C: Crossable> {
    geom: LineOrPoint<C::Scalar>,
    key: usize,
    crossable: C,
    first_segment: bool,
    left_event_done: bool,
    overlapping: Option<usize>,
    is_overlapping: bool,
}
//@@ end

    impl<C: Crossable> Segment<C> {
//@@ fn eq self=Segment trait=PartialEq file=src/crossings/sweep.rs
    fn eq(&self, other: &Self) -> (ret: bool) /*@ ensures ret == (self.key == other.key), @*/ {
        self.key == other.key
    }
//@@ end
    }

    impl<C: Crossable> Ranked for Segment<C> {
        closed spec fn told(a: Self, b: Self) -> bool {
            placed(a.geom, b.geom)
        }

        closed spec fn rank(a: Self, b: Self) -> Option<Ordering> {
            rank_by(a.geom, a.key, b.geom, b.key)
        }

//@@ fn partial_cmp self=Segment trait=PartialOrd file=src/crossings/sweep.rs
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) {
        match
        self.geom
            .partial_cmp(&other.geom){ Some (o) => Some ( o. then ( self.key.cmp(&other.key))) , None => None }
    }
//@@ end
    }
}

// ---- monotone/segment.rs: its pieces ----------------------------------------------------------------
mod monotone {
    use super::*;

    broadcast use {super::eqs::ord_eq, super::eqs::ord_obeys_eq, super::num::order};

//@@ struct Helper file=src/monotone/segment.rs
struct Helper<T: GeoNum> {
    point: SweepPoint<T>,
    is_merge: bool,
}
//@@ end

//@@ struct Segment file=src/monotone/segment.rs
struct Segment<T: GeoNum> {
    key: usize,
    geom: LineOrPoint<T>,
    helper: Option<Helper<T>>,
}
//@@ end

    impl<T: GeoNum> Segment<T> {
//@@ fn eq self=Segment trait=PartialEq file=src/monotone/segment.rs
    fn eq(&self, other: &Self) -> (ret: bool) /*@ ensures ret == (self.key == other.key), @*/ {
        self.key == other.key
    }
//@@ end
    }

    impl<T: GeoNum> Ranked for Segment<T> {
        closed spec fn told(a: Self, b: Self) -> bool {
            placed(a.geom, b.geom)
        }

        closed spec fn rank(a: Self, b: Self) -> Option<Ordering> {
            rank_by(a.geom, a.key, b.geom, b.key)
        }

//@@ fn partial_cmp self=Segment trait=PartialOrd file=src/monotone/segment.rs
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) {
        match
        self.geom
            .partial_cmp(&other.geom){ Some (o) => Some ( o. then ( self.key.cmp(&other.key))) , None => None }
    }
//@@ end
    }
}

fn main() {
}

}
