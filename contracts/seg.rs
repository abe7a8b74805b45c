// ---- assumed: geo types ----------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(PartialEq, Eq, Clone, Copy)]
enum WindingOrder {
    Clockwise,
    CounterClockwise,
}

impl PartialEqSpecImpl for WindingOrder {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        *self == *o
    }
}

impl WindingOrder {
    fn dup(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

spec fn flip(w: WindingOrder) -> WindingOrder {
    match w {
        WindingOrder::Clockwise => WindingOrder::CounterClockwise,
        WindingOrder::CounterClockwise => WindingOrder::Clockwise,
    }
}

struct LineString<T: GeoNum>(Vec<Coordinate<T>>);

spec fn ats<T: GeoNum>(c: Seq<Coordinate<T>>) -> Seq<Spot> {
    c.map_values(|p: Coordinate<T>| at(p))
}

type Spot = (real, real);

// (a local of the code is named pt)
spec fn xy<T: GeoNum>(p: SweepPoint<T>) -> Spot {
    pt(p)
}

spec fn spots<T: GeoNum>(s: Seq<SweepPoint<T>>) -> Seq<Spot> {
    s.map_values(|p: SweepPoint<T>| pt(p))
}

// an edge between its two ends, in sweep order, and the side of it the polygon is on: Clockwise is below
type Look = (Spot, Spot, WindingOrder);

//@@ fn winding_inverse
fn winding_inverse(winding: WindingOrder) -> (ret: WindingOrder) /*@ ensures ret == flip(winding), @*/ {
    match winding {
        WindingOrder::Clockwise => WindingOrder::CounterClockwise,
        WindingOrder::CounterClockwise => WindingOrder::Clockwise,
    }
}
//@@ end

//@@ fn winding_order_from_orientation
fn winding_order_from_orientation(ori: Orientation) -> (ret: Option<WindingOrder>) /*@ ensures ret == (match ori { Orientation::CounterClockwise => Some(WindingOrder::CounterClockwise), Orientation::Clockwise => Some(WindingOrder::Clockwise), Orientation::Collinear => None }), @*/ {
    match ori {
        Orientation::CounterClockwise => Some(WindingOrder::CounterClockwise),
        Orientation::Clockwise => Some(WindingOrder::Clockwise),
        _ => None,
    }
}
//@@ end

// ---- monotone/segment.rs -----------------------------------------------------------------------
//@@ struct Helper file=src/monotone/segment.rs
struct Helper<T: GeoNum> {
    point: SweepPoint<T>,
    is_merge: bool,
}
//@@ end

impl<T: GeoNum> Helper<T> {
//@@ fn set_merge self=Helper
    fn set_merge(&mut self) /*@ ensures *final(self) == (Helper { is_merge: true, ..*old(self) }), @*/ {
        self.is_merge = true;
    }
//@@ end
//@@ fn reset_merge self=Helper
    fn reset_merge(&mut self) /*@ ensures *final(self) == (Helper { is_merge: false, ..*old(self) }), @*/ {
        self.is_merge = false;
    }
//@@ end
//@@ fn is_merge self=Helper
    fn is_merge(&self) -> (ret: bool) /*@ ensures ret == self.is_merge, @*/ {
        self.is_merge
    }
//@@ end
//@@ fn point self=Helper
    fn point(&self) -> (ret: SweepPoint<T>) /*@ ensures ret == self.point, @*/ {
        self.point
    }
//@@ end
//@@ fn point_mut self=Helper
    fn point_mut(&mut self) -> (ret: &mut SweepPoint<T>) /*@ ensures *ret == old(self).point, *final(self) == (Helper { point: *final(ret), ..*old(self) }), @*/ {
        &mut self.point
    }
//@@ end
}

//@@ struct Segment file=src/monotone/segment.rs
struct Segment<T: GeoNum> {
    key: usize,
    geom: LineOrPoint<T>,
    helper: Option<Helper<T>>,
}
//@@ end

// the edge of a segment; it has a helper exactly if the polygon is below it
spec fn look<T: GeoNum>(s: Segment<T>) -> Look {
    (pt(fst(s.geom)), pt(snd(s.geom)), if s.helper is Some { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise })
}

spec fn segment_ok<T: GeoNum>(s: Segment<T>) -> bool {
    s.geom is Line && lop_wf(s.geom)
}

// an edge of a ring from a to b that has the polygon on the side w of it
spec fn edge_look(a: Spot, b: Spot, w: WindingOrder) -> Look {
    if lexr(a, b) == Ordering::Greater {
        (b, a, flip(w))
    } else {
        (a, b, w)
    }
}

impl<T: GeoNum> Segment<T> {
//@@ fn new_point self=Segment file=src/monotone/segment.rs
    fn new_point(key: usize, geom: Coordinate<T>) -> (ret: Self) /*@ ensures ret.key == key, ret.geom is Point, ret.helper is None, pt(fst(ret.geom)) == at(geom), @*/ {
        Segment {
            key,
            geom: LineOrPoint::Point(geom.into()),
            helper: None,
        }
    }
//@@ end
//@@ fn new self=Segment file=src/monotone/segment.rs
    fn new(key: usize, geom: Line<T>, winding: WindingOrder) -> (ret: Self) /*@ requires at(geom.start) != at(geom.end), ensures ret.key == key, segment_ok(ret), look(ret) == edge_look(at(geom.start), at(geom.end), winding), ret.helper matches Some(h) ==> !h.is_merge && pt(h.point) == look(ret).0, @*/ { let mut winding = winding;
        let mut start = geom.start.into();
        let mut end = geom.end.into();
        rt_assert(start != end);
        if start > end {
            std::mem::swap(&mut start, &mut end);
            winding = winding_inverse(winding);
        }
        let helper = if winding == WindingOrder::Clockwise {
            Some(Helper {
                point: start,
                is_merge: false,
            })
        } else {
            None
        };
        let geom = LineOrPoint::Line(start, end);
        let this = Segment { key, geom, helper };
        this
    }
//@@ end
//@@ fn events self=Segment file=src/monotone/segment.rs
    fn events(&self) -> (ret: [Event<T>; 2]) /*@ requires segment_ok(*self), ensures ret@.len() == 2, ret@[0].ty == LineLeft, ret@[1].ty == LineRight, ret@[0].segment_key == self.key, ret@[1].segment_key == self.key, pt(ret@[0].point) == look(*self).0, pt(ret@[1].point) == look(*self).1, @*/ {
        rt_assert(self.geom.is_line());
        let geom = self.geom.line();
        [
            Event {
                point: geom.start.into(),
                ty: EventType::LineLeft,
                segment_key: self.key,
            },
            Event {
                point: geom.end.into(),
                ty: EventType::LineRight,
                segment_key: self.key,
            },
        ]
    }
//@@ end
//@@ fn interior_winding self=Segment file=src/monotone/segment.rs
    fn interior_winding(&self) -> (ret: WindingOrder) /*@ ensures ret == look(*self).2, @*/ {
        if self.helper.is_some() {
            WindingOrder::Clockwise
        } else {
            WindingOrder::CounterClockwise
        }
    }
//@@ end
//@@ fn helper self=Segment file=src/monotone/segment.rs
    fn helper(&self) -> (ret: Option<&Helper<T>>) /*@ ensures match ret { Some(h) => self.helper == Some(*h), None => self.helper is None }, @*/ {
        self.helper.as_ref()
    }
//@@ end
//@@ fn helper_mut self=Segment file=src/monotone/segment.rs
    fn helper_mut(& mut self) -> (ret: Option<&mut Helper<T>>) /*@ ensures
            match ret {
                Some(h) => old(self).helper == Some(*h) && *final(self) == (Segment { helper: Some(*final(h)), ..*old(self) }),
                None => old(self).helper is None && *final(self) == *old(self),
            }, @*/ {
        self.helper.as_mut()
    }
//@@ end
}

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ enum Link file=src/monotone/segment.rs
enum Link<T: GeoNum> {
    Start {
        root: SweepPoint<T>,
        top: SweepPoint<T>,
        bot: SweepPoint<T>,
    },
    Continue {
        prev: SweepPoint<T>,
        curr: SweepPoint<T>,
        next: SweepPoint<T>,
        interior: WindingOrder,
    },
    Merge {
        prev: SweepPoint<T>,
        next: SweepPoint<T>,
        limbs: Option<(SweepPoint<T>, SweepPoint<T>)>,
    },
    Split {
        prev: SweepPoint<T>,
        next: SweepPoint<T>,
        top: SweepPoint<T>,
        bot: SweepPoint<T>,
    },
    End {
        top: SweepPoint<T>,
        bot: SweepPoint<T>,
        sink: SweepPoint<T>,
    },
}
//@@ end

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ enum VertexType file=src/monotone/segment.rs
enum VertexType {
    Start,
    Split,
    End,
    Merge,
    Continue,
}
//@@ end

//@@ struct Intersection file=src/monotone/segment.rs
struct Intersection<T: GeoNum> {
    ty: VertexType,
    event_1: Event<T>,
    event_2: Event<T>,
    other_1: SweepPoint<T>,
    other_2: SweepPoint<T>,
    orientation: Orientation,
    interior: WindingOrder,
}
//@@ end

const CHAIN_STACK_SIZE: usize = 16;
type Coords<T> = Vec<SweepPoint<T>>;

//@@ struct Chain file=src/monotone/segment.rs
struct Chain<T: GeoNum> {
    interior: WindingOrder,
    other: usize,
    coords: Coords<T>,
    done: bool,
}
//@@ end

impl<T: GeoNum> LineString<T> {
//@@ fn from self=LineString trait=From<Chain<T>> rename=from_chain file=src/monotone/segment.rs
//@@ sub `LineString :: from_iter ( $*x . iter ( ) . map ( | pt | $*e ) )` => `let mut out = Vec :: new ( ) ; let mut at_pt : usize = 0 ; while at_pt < $*x . len ( ) { let pt = & $*x [ at_pt ] ; out . push ( $*e ) ; at_pt = at_pt + 1 ; } LineString ( out )`
    fn from_chain(chain: Chain<T>) -> (ret: Self) /*@ ensures ats(ret.0@) == spots(chain.coords@), @*/ {
        let mut out = Vec :: new ( ) ; let mut at_pt : usize = 0 ; while at_pt < chain.coords . len ( ) /*@ invariant at_pt <= chain.coords@.len(), out@.len() == at_pt, forall|i: int| 0 <= i < at_pt ==> at(#[trigger] out@[i]) == pt(chain.coords@[i]), decreases chain.coords@.len() - at_pt, @*/ { let pt = & chain.coords [ at_pt ] ; out . push ( pt.coord() ) ; at_pt = at_pt + 1 ; } /*@ proof { assert(ats(out@) =~= spots(chain.coords@)); } @*/ LineString ( out )
    }
//@@ end
}

impl<T: GeoNum> Chain<T> {
//@@ fn new self=Chain file=src/monotone/segment.rs
    fn new(interior: WindingOrder, other: usize, coords: Coords<T>) -> (ret: Self) /*@ requires coords@.len() > 1, ensures ret.interior == interior, ret.other == other, ret.coords == coords, !ret.done, @*/ {
        rt_assert(coords.len() > 1);
        Self {
            done: false,
            interior,
            other,
            coords,
        }
    }
//@@ end
//@@ fn next self=Chain file=src/monotone/segment.rs
    fn next(&self) -> (ret: SweepPoint<T>) /*@ requires self.coords@.len() > 0, ensures ret == self.coords@.last(), @*/ {
        *self.coords.last().unwrap()
    }
//@@ end
//@@ fn curr self=Chain file=src/monotone/segment.rs
    fn curr(&self) -> (ret: SweepPoint<T>) /*@ requires self.coords@.len() > 1, ensures ret == self.coords@[self.coords@.len() - 2], @*/ {
        self.coords[self.coords.len() - 2]
    }
//@@ end
//@@ fn pop self=Chain file=src/monotone/segment.rs
    fn pop(&mut self) -> (ret: SweepPoint<T>) /*@ requires old(self).coords@.len() > 0, ensures ret == old(self).coords@.last(), final(self).coords@ == old(self).coords@.drop_last(), final(self).interior == old(self).interior, final(self).other == old(self).other, final(self).done == old(self).done, @*/ {
        self.coords.pop().unwrap()
    }
//@@ end
//@@ fn advance self=Chain file=src/monotone/segment.rs
    fn advance(&mut self, next: SweepPoint<T>) /*@ ensures final(self).coords@ == old(self).coords@.push(next), final(self).interior == old(self).interior, final(self).other == old(self).other, final(self).done == old(self).done, @*/ {
        self.coords.push(next);
    }
//@@ end
//@@ fn finish self=Chain file=src/monotone/segment.rs
    fn finish(&mut self) /*@ requires !old(self).done, ensures *final(self) == (Chain { done: true, ..*old(self) }), @*/ {
        rt_assert(!self.done);
        self.done = true;
    }
//@@ end
//@@ fn done self=Chain file=src/monotone/segment.rs
    fn done(&self) -> (ret: bool) /*@ ensures ret == self.done, @*/ {
        self.done
    }
//@@ end
//@@ fn interior self=Chain file=src/monotone/segment.rs
    fn interior(&self) -> (ret: &WindingOrder) /*@ ensures *ret == self.interior, @*/ {
        &self.interior
    }
//@@ end
//@@ fn other self=Chain file=src/monotone/segment.rs
    fn other(&self) -> (ret: usize) /*@ ensures ret == self.other, @*/ {
        self.other
    }
//@@ end
}
