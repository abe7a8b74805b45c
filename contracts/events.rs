// a value that can be copied: Clone gives an equal one
trait Dup: Sized {
    fn dup(&self) -> (r: Self)
        ensures
            r == *self,
    ;
}

// ---- events.rs -------------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ enum EventType derives=PartialOrd,Ord,PartialEq,Eq,Clone,Copy rank=rank
enum EventType {
    PointLeft,
    LineRight,
    LineLeft,
    PointRight,
}
//@@ end

use EventType::*;

// the derived equality and order of EventType: by position in the declaration
impl PartialEqSpecImpl for EventType {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        *self == *o
    }
}

impl PartialEq for EventType {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool {
        unimplemented!()
    }
}

impl Eq for EventType {
}

spec fn cmpi(a: int, b: int) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a == b {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

impl PartialOrdSpecImpl for EventType {
    closed spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    closed spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        Some(cmpi(rank(*self), rank(*o)))
    }
}

impl PartialOrd for EventType {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        unimplemented!()
    }
}

impl OrdSpecImpl for EventType {
    closed spec fn obeys_cmp_spec() -> bool {
        true
    }

    closed spec fn cmp_spec(&self, o: &Self) -> Ordering {
        cmpi(rank(*self), rank(*o))
    }
}

impl Ord for EventType {
    #[verifier::external_body]
    fn cmp(&self, o: &Self) -> Ordering {
        unimplemented!()
    }
}

//@@ struct Event derives=Clone
struct Event<T: GeoNum> {
    point: SweepPoint<T>,
    ty: EventType,
    segment_key: usize,
}
//@@ end

impl<T: GeoNum> Dup for Event<T> {
    #[verifier::external_body]
    fn dup(&self) -> Self {
        unimplemented!()
    }
}

// sweep order of events: by point, ends of lines before starts
spec fn ev_cmp<T: GeoNum>(a: Event<T>, b: Event<T>) -> Ordering {
    then(lex(a.point, b.point), cmpi(rank(a.ty), rank(b.ty)))
}

spec fn ev_le<T: GeoNum>(a: Event<T>, b: Event<T>) -> bool {
    ev_cmp(a, b) != Ordering::Greater
}

impl<T: GeoNum> PartialEqSpecImpl for Event<T> {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        ev_cmp(*self, *o) == Ordering::Equal
    }
}

proof fn lemma_rank(a: EventType, b: EventType)
    ensures
        rank(a) == rank(b) ==> a == b,
        rank(LineRight) < rank(LineLeft),
        rank(PointLeft) < rank(LineRight),
{
}

impl<T: GeoNum> PartialEq for Event<T> {
//@@ fn eq self=Event trait=PartialEq
    fn eq(&self, other: &Self) -> (ret: bool) {
        self.point == other.point && self.ty == other.ty
    }
//@@ end
}

impl<T: GeoNum> Eq for Event<T> {
}

impl<T: GeoNum> PartialOrdSpecImpl for Event<T> {
    closed spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    closed spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        Some(rev(ev_cmp(*self, *o)))
    }
}

impl<T: GeoNum> PartialOrd for Event<T> {
//@@ fn partial_cmp self=Event trait=PartialOrd
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) {
        Some(self.cmp(other))
    }
//@@ end
}

// the reverse of the sweep order: the heap yields the first event of the sweep
impl<T: GeoNum> OrdSpecImpl for Event<T> {
    closed spec fn obeys_cmp_spec() -> bool {
        true
    }

    closed spec fn cmp_spec(&self, o: &Self) -> Ordering {
        rev(ev_cmp(*self, *o))
    }
}

impl<T: GeoNum> Ord for Event<T> {
//@@ fn cmp self=Event trait=Ord
    fn cmp(&self, other: &Self) -> (ret: Ordering) {
        self.point
            .cmp(&other.point). then ( self.ty.cmp(&other.ty))
            .reverse()
    }
//@@ end
}
