// ---- assumed: the geometry dependency --------------------------------------------------------
// Scalars stand for the real number they hold; comparing them compares those (finite values only).
mod num {
    use super::*;

    pub trait GeoNum: Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {
        spec fn v(self) -> real;
    }

    pub broadcast axiom fn num_eq<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.eq_spec(&b) == (a.v() == b.v()),
        ;

    pub broadcast axiom fn num_cmp<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.partial_cmp_spec(&b) == Some(cmpr(a.v(), b.v())),
        ;

    pub broadcast axiom fn num_obeys_eq<T: GeoNum>()
        ensures
            #[trigger] <T as PartialEqSpec<T>>::obeys_eq_spec(),
        ;

    pub broadcast axiom fn num_obeys_cmp<T: GeoNum>()
        ensures
            #[trigger] <T as PartialOrdSpec<T>>::obeys_partial_cmp_spec(),
        ;

    pub open spec fn cmpr(a: real, b: real) -> Ordering {
        if a < b {
            Ordering::Less
        } else if a > b {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }

    // machine arithmetic is taken as arithmetic of the reals
    pub broadcast axiom fn num_add<T: GeoNum>(a: T, b: T)
        ensures
            (#[trigger] a.add_spec(b)).v() == a.v() + b.v(),
    ;

    pub broadcast axiom fn num_add_req<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.add_req(b),
    ;

    pub broadcast axiom fn num_add_obeys<T: GeoNum>()
        ensures
            #[trigger] <T as AddSpec<T>>::obeys_add_spec(),
    ;

    pub broadcast axiom fn num_sub<T: GeoNum>(a: T, b: T)
        ensures
            (#[trigger] a.sub_spec(b)).v() == a.v() - b.v(),
    ;

    pub broadcast axiom fn num_sub_req<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.sub_req(b),
    ;

    pub broadcast axiom fn num_sub_obeys<T: GeoNum>()
        ensures
            #[trigger] <T as SubSpec<T>>::obeys_sub_spec(),
    ;

    pub broadcast axiom fn num_mul<T: GeoNum>(a: T, b: T)
        ensures
            (#[trigger] a.mul_spec(b)).v() == a.v() * b.v(),
    ;

    pub broadcast axiom fn num_mul_req<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.mul_req(b),
    ;

    pub broadcast axiom fn num_mul_obeys<T: GeoNum>()
        ensures
            #[trigger] <T as MulSpec<T>>::obeys_mul_spec(),
    ;

    pub broadcast axiom fn num_div<T: GeoNum>(a: T, b: T)
        ensures
            b.v() != 0real ==> (#[trigger] a.div_spec(b)).v() == a.v() / b.v(),
    ;

    pub broadcast axiom fn num_div_req<T: GeoNum>(a: T, b: T)
        ensures
            #[trigger] a.div_req(b) == (b.v() != 0real),
    ;

    pub broadcast axiom fn num_div_obeys<T: GeoNum>()
        ensures
            #[trigger] <T as DivSpec<T>>::obeys_div_spec(),
    ;

    pub broadcast group arith {
        num_add, num_add_req, num_add_obeys, num_sub, num_sub_req, num_sub_obeys, num_mul, num_mul_req, num_mul_obeys, num_div, num_div_req, num_div_obeys,
    }

    pub broadcast group order {
        num_eq, num_cmp, num_obeys_eq, num_obeys_cmp,
    }
}

use num::{cmpr, GeoNum};


#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
struct Coordinate<T: GeoNum> {
    x: T,
    y: T,
}

impl<T: GeoNum> Coordinate<T> {
    // assumed: geo_types::Coordinate::x_y
    fn x_y(&self) -> (r: (T, T))
        ensures
            r == (self.x, self.y),
    {
        (self.x, self.y)
    }
}

// assumed: derived equality of geo_types::Coordinate
impl<T: GeoNum> PartialEqSpecImpl for Coordinate<T> {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        self.x.v() == o.x.v() && self.y.v() == o.y.v()
    }
}

impl<T: GeoNum> PartialEq for Coordinate<T> {
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x && self.y == o.y
    }
}

impl<T: GeoNum> FromSpecImpl<(T, T)> for Coordinate<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(c: (T, T)) -> Self {
        Coordinate { x: c.0, y: c.1 }
    }
}

impl<T: GeoNum> From<(T, T)> for Coordinate<T> {
    fn from(c: (T, T)) -> Self {
        Coordinate { x: c.0, y: c.1 }
    }
}

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
struct Line<T: GeoNum> {
    start: Coordinate<T>,
    end: Coordinate<T>,
}

impl<T: GeoNum> Line<T> {
    // assumed: geo_types::Line::new
    fn new(a: Coordinate<T>, b: Coordinate<T>) -> (r: Line<T>)
        ensures
            r == (Line { start: a, end: b }),
    {
        Line { start: a, end: b }
    }
}

#[derive(PartialEq, Eq, Clone, Copy)]
enum Orientation {
    CounterClockwise,
    Clockwise,
    Collinear,
}

impl PartialEqSpecImpl for Orientation {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        *self == *o
    }
}

// a point of the plane
spec fn at<T: GeoNum>(c: Coordinate<T>) -> (real, real) {
    (c.x.v(), c.y.v())
}

#[verifier::opaque]
spec fn cross(ux: real, uy: real, vx: real, vy: real) -> real {
    ux * vy - uy * vx
}

// twice the signed area of the triangle
spec fn area(a: (real, real), b: (real, real), c: (real, real)) -> real {
    cross(b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1)
}

spec fn turn(r: real) -> Orientation {
    if r > 0real {
        Orientation::CounterClockwise
    } else if r < 0real {
        Orientation::Clockwise
    } else {
        Orientation::Collinear
    }
}

// assumed: the orientation predicate of the scalar's kernel is exact
#[verifier::external_body]
fn orient2d<T: GeoNum>(a: Coordinate<T>, b: Coordinate<T>, c: Coordinate<T>) -> (r: Orientation)
    ensures
        r == turn(area(at(a), at(b), at(c))),
{
    unimplemented!()
}

// lexicographic order of the plane
spec fn lexr(a: (real, real), b: (real, real)) -> Ordering {
    if a.0 == b.0 {
        cmpr(a.1, b.1)
    } else {
        cmpr(a.0, b.0)
    }
}

spec fn along(t: real, a: (real, real), b: (real, real)) -> (real, real) {
    (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
}

// p lies on the segment from a to b
spec fn on_seg(p: (real, real), a: (real, real), b: (real, real)) -> bool {
    exists|t: real| 0real <= t <= 1real && p == #[trigger] along(t, a, b)
}

// the height of the line through p and q at x
spec fn height(p: (real, real), q: (real, real), x: real) -> real {
    p.1 + (q.1 - p.1) * (x - p.0) / (q.0 - p.0)
}

spec fn meets(a: (real, real), b: (real, real), c: (real, real), d: (real, real)) -> bool {
    exists|p: (real, real)| #[trigger] on_seg(p, a, b) && on_seg(p, c, d)
}

// a bound on the finite values of the scalar type
uninterp spec fn big<T: GeoNum>() -> real;

spec fn fit<T: GeoNum>(y: real) -> bool {
    -big::<T>() < y < big::<T>()
}

spec fn whole(k: int) -> real {
    k as real
}

trait GeoFloat: GeoNum {
    spec fn pinf(self) -> bool;

    // assumed: num_traits
    fn max(self, o: Self) -> (r: Self)
        ensures
            r == if self.v() < o.v() { o } else { self },
    ;

    fn min(self, o: Self) -> (r: Self)
        ensures
            r == if o.v() < self.v() { o } else { self },
    ;

    // assumed: the float infinities exceed every finite value (`fit`)
    fn infinity() -> (r: Self)
        ensures
            r.pinf(),
            r.v() == big::<Self>(),
    ;

    fn neg_infinity() -> (r: Self)
        ensures
            r.v() == -big::<Self>(),
    ;

    // assumed: num_traits on values in range
    fn zero() -> (r: Self)
        ensures
            r.v() == 0real,
    ;

    fn one() -> (r: Self)
        ensures
            r.v() == 1real,
    ;

    fn floor(self) -> (r: Self)
        ensures
            exists|k: int| #[trigger] whole(k) == r.v() && whole(k) <= self.v() < whole(k + 1),
    ;

    fn to_usize(self) -> (r: Option<usize>)
        ensures
            forall|k: usize| #[trigger] whole(k as int) == self.v() ==> r == Some(k),
    ;

    fn from(n: usize) -> (r: Option<Self>)
        ensures
            r matches Some(x) && x.v() == whole(n as int),
    ;

    // assumed: float_next_after steps to the next value of the type
    fn next_after(self, to: Self) -> (r: Self)
        ensures
            to.pinf() ==> r.v() > self.v() && forall|z: Self| #[trigger] z.v() > self.v() ==> z.v() >= r.v(),
    ;
}

// the crate's alias for GeoFloat + NextAfter
trait Float: GeoFloat {
}

enum LineIntersection<T: GeoNum> {
    SinglePoint { intersection: Coordinate<T>, is_proper: bool },
    Collinear { intersection: Line<T> },
}

// assumed: geo::algorithm::line_intersection::line_intersection
#[verifier::external_body]
fn line_intersection<T: GeoFloat>(p: Line<T>, q: Line<T>) -> (r: Option<LineIntersection<T>>)
    ensures
        isect_spec(p, q, r),
{
    unimplemented!()
}

spec fn isect_spec<T: GeoFloat>(p: Line<T>, q: Line<T>, r: Option<LineIntersection<T>>) -> bool {
    let (a, b, c, d) = (at(p.start), at(p.end), at(q.start), at(q.end));
    match r {
        None => !meets(a, b, c, d),
        Some(LineIntersection::SinglePoint { intersection, is_proper }) => {
            // exactly one point in common; exact unless it is a proper crossing, and never left of a later left end
            &&& meets(a, b, c, d)
            &&& forall|s: (real, real), t: (real, real)|
                #[trigger] on_seg(s, a, b) && on_seg(s, c, d) && #[trigger] on_seg(t, a, b) && on_seg(t, c, d) ==> s == t
            &&& !is_proper ==> on_seg(at(intersection), a, b) && on_seg(at(intersection), c, d)
            &&& at(intersection).0 >= minr(a.0, b.0) && at(intersection).0 >= minr(c.0, d.0)
        },
        Some(LineIntersection::Collinear { intersection }) => {
            let (e, f) = (at(intersection.start), at(intersection.end));
            &&& e != f
            &&& forall|s: (real, real)| #[trigger] on_seg(s, e, f) <==> on_seg(s, a, b) && on_seg(s, c, d)
        },
    }
}

spec fn minr(a: real, b: real) -> real {
    if a < b {
        a
    } else {
        b
    }
}
