// ---- shared prelude -------------------------------------------------------------------------
// assert!/debug_assert!/panic! of the code: the caller must show they cannot fire.
fn rt_assert(b: bool)
    requires b,
{
}

// assert! where the code refuses its input: it may panic, and holds afterwards
#[verifier::external_body]
fn rt_refuse(b: bool)
    ensures b,
{
    assert!(b);
}

// panic! of a function that refuses its input
#[verifier::external_body]
fn rt_stop() -> !
{
    panic!();
}

// `expect` where the code refuses its input
trait OrStop<V>: Sized {
    spec fn is_val(self, v: V) -> bool;

    fn or_stop(self) -> (r: V)
        ensures
            self.is_val(r),
    ;
}

impl<V> OrStop<V> for Option<V> {
    closed spec fn is_val(self, v: V) -> bool {
        self == Some(v)
    }

    #[verifier::external_body]
    fn or_stop(self) -> (r: V) {
        self.unwrap()
    }
}

fn rt_panic() -> !
    requires false,
{
    loop
        invariant false,
        decreases 0nat,
    {
    }
}

// ---- assumed contracts of std functions ------------------------------------------------------
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering)
    ensures r == rev(a);

pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });

pub assume_specification<T> [core::mem::replace::<T>] (d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);

pub open spec fn rev(o: Ordering) -> Ordering {
    match o {
        Ordering::Less => Ordering::Greater,
        Ordering::Equal => Ordering::Equal,
        Ordering::Greater => Ordering::Less,
    }
}

mod eqs {
    use super::*;

    pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
        ensures r == (*a == *b);

    // equality of Ordering is equality
    pub broadcast axiom fn ord_eq(a: Ordering, b: Ordering)
        ensures
            #[trigger] a.eq_spec(&b) == (a == b),
    ;

    pub broadcast axiom fn ord_obeys_eq()
        ensures
            #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec(),
    ;
}
