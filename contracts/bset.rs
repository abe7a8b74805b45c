use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;

verus! {

//@@ include prelude.rs
//@@ global `Slab < Self :: SegmentType >` => `Slab`
//@@ global `unsafe { Active :: new ( $k , $s ) }` => `Active { key : $k }`
//@@ global `Active :: new ( $k , $s )` => `Active { key : $k }`
//@@ global `self . range ( $*a ) . $f ( ) . map ( | $p | $*e )` => `match self . range ( $*a ) . $f ( ) { Some ( $p ) => Some ( $*e ) , None => None }`

// ---- active.rs: a BTreeSet as the ordered set of active segments -------------------------------
// assumed: slab::Slab, as far as asked here
#[verifier::external_body]
struct Slab {
    x: usize,
}

impl Slab {
    uninterp spec fn has(&self, k: usize) -> bool;

    #[verifier::external_body]
    fn contains(&self, k: usize) -> (r: bool)
        ensures
            r == self.has(k),
    {
        unimplemented!()
    }
}

// an entry stands for the segment with its key
struct Active {
    key: usize,
}

// the order of the segments
uninterp spec fn below(a: usize, b: usize) -> bool;

spec fn even(a: usize, b: usize) -> bool {
    !below(a, b) && !below(b, a)
}

// while they are active, it is a total one
spec fn total() -> bool {
    &&& forall|a: usize, b: usize| #[trigger] below(a, b) ==> !below(b, a)
    &&& forall|a: usize, b: usize, c: usize| #[trigger] below(a, b) && #[trigger] below(b, c) ==> below(a, c)
}

enum Bound {
    Unbounded,
    Excluded(Active),
    Included(Active),
}

spec fn over(lo: Bound, k: usize) -> bool {
    match lo {
        Bound::Unbounded => true,
        Bound::Excluded(a) => below(a.key, k),
        Bound::Included(a) => !below(k, a.key),
    }
}

spec fn under(hi: Bound, k: usize) -> bool {
    match hi {
        Bound::Unbounded => true,
        Bound::Excluded(a) => below(k, a.key),
        Bound::Included(a) => !below(a.key, k),
    }
}

// assumed: BTreeSet::{range, insert, remove} and the two ends of a range
#[verifier::external_body]
struct Range {
    x: usize,
}

impl Range {
    uninterp spec fn keys(&self) -> Set<usize>;

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Active>)
        ensures
            match r {
                None => forall|k: usize| !#[trigger] old(self).keys().contains(k),
                Some(x) => old(self).keys().contains(x.key) && forall|k: usize| #[trigger] old(self).keys().contains(k) ==> k == x.key || below(x.key, k),
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<Active>)
        ensures
            match r {
                None => forall|k: usize| !#[trigger] old(self).keys().contains(k),
                Some(x) => old(self).keys().contains(x.key) && forall|k: usize| #[trigger] old(self).keys().contains(k) ==> k == x.key || below(k, x.key),
            },
    {
        unimplemented!()
    }
}

#[verifier::external_body]
struct BTreeSet {
    x: usize,
}

impl BTreeSet {
    uninterp spec fn keys(&self) -> Set<usize>;

    // no two entries compare equal
    spec fn wf(&self) -> bool {
        &&& total()
        &&& forall|a: usize, b: usize| #[trigger] self.keys().contains(a) && #[trigger] self.keys().contains(b) && a != b ==> !even(a, b)
    }

    #[verifier::external_body]
    fn range(&self, b: (Bound, Bound)) -> (r: Range)
        requires
            self.wf(),
        ensures
            forall|k: usize|
                #![trigger r.keys().contains(k)]
                #![trigger self.keys().contains(k)]
                r.keys().contains(k) <==> self.keys().contains(k) && over(b.0, k) && under(b.1, k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn insert(&mut self, a: Active) -> (r: bool)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            r <==> forall|k: usize| #[trigger] old(self).keys().contains(k) ==> !even(k, a.key),
            final(self).keys() == if r {
                old(self).keys().insert(a.key)
            } else {
                old(self).keys()
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn remove(&mut self, a: &Active) -> (r: bool)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            r <==> exists|k: usize| #[trigger] old(self).keys().contains(k) && even(k, a.key),
            forall|k: usize| #[trigger] final(self).keys().contains(k) <==> old(self).keys().contains(k) && !even(k, a.key),
    {
        unimplemented!()
    }

//@@ fn prev_key self=BTreeSet trait=Access
    fn prev_key(&self, key: usize, storage: &Slab) -> (ret: Option<usize>) /*@
        requires
            self.wf(),
        ensures
            ret matches Some(k) ==> self.keys().contains(k) && k != key && below(k, key) && !below(key, k),
            // the nearest one
            forall|j: usize| #[trigger] self.keys().contains(j) && below(j, key) ==> ret is Some && (j == ret->Some_0 || below(j, ret->Some_0)),
    @*/ {
        let aseg = Active { key : key };
        match self . range ( (Bound::Unbounded, Bound::Excluded(aseg)) ) . next_back ( ) { Some ( s ) => Some ( s.key ) , None => None }
    }
//@@ end

//@@ fn next_key self=BTreeSet trait=Access
    fn next_key(&self, key: usize, storage: &Slab) -> (ret: Option<usize>) /*@
        requires
            self.wf(),
        ensures
            ret matches Some(k) ==> self.keys().contains(k) && k != key && below(key, k) && !below(k, key),
            // the nearest one
            forall|j: usize| #[trigger] self.keys().contains(j) && below(key, j) ==> ret is Some && (j == ret->Some_0 || below(ret->Some_0, j)),
    @*/ {
        let aseg = Active { key : key };
        match self . range ( (Bound::Excluded(aseg), Bound::Unbounded) ) . next ( ) { Some ( s ) => Some ( s.key ) , None => None }
    }
//@@ end

//@@ fn add_key self=BTreeSet trait=Access asserts=may
    fn add_key(&mut self, key: usize, storage: &Slab) /*@
        requires
            old(self).wf(),
            storage.has(key),
        ensures
            final(self).wf(),
            final(self).keys() == old(self).keys().insert(key),
    @*/ {
        rt_assert(storage.contains(key));
        rt_refuse(self.insert(Active { key : key }));
    }
//@@ end

//@@ fn remove_key self=BTreeSet trait=Access
    fn remove_key(&mut self, key: usize, storage: &Slab) /*@
        requires
            old(self).wf(),
            old(self).keys().contains(key),
            storage.has(key),
        ensures
            final(self).wf(),
            final(self).keys() == old(self).keys().remove(key),
    @*/ {
        rt_assert(storage.contains(key));
        rt_assert(self.remove(& Active { key : key }));
        /*@ proof {
            assert(final(self).keys() =~= old(self).keys().remove(key));
        } @*/
    }
//@@ end
}

} // verus!

fn main() {}
