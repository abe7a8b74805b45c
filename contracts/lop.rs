//@@ include normal.rs

// ---- C07: intersections ----
spec fn common<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> bool {
    exists|p: (real, real)| #[trigger] member(p, a) && member(p, b)
}

spec fn one_common<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> bool {
    forall|s: (real, real), t: (real, real)| #[trigger] member(s, a) && member(s, b) && #[trigger] member(t, a) && member(t, b) ==> s == t
}

// nothing iff no common point; a point iff exactly one; else exactly the common part, as an ordered line
spec fn isect_ok<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: Option<LineOrPoint<T>>) -> bool {
    match r {
        None => !common(a, b),
        Some(LineOrPoint::Point(p)) => {
            &&& common(a, b)
            &&& one_common(a, b)
            &&& pt(p).0 >= pt(fst(a)).0 && pt(p).0 >= pt(fst(b)).0
            &&& a is Point ==> member(pt(p), a) && member(pt(p), b)
        },
        Some(LineOrPoint::Line(e, f)) => {
            &&& lex(e, f) == Ordering::Less
            &&& forall|s: (real, real)| #[trigger] on_seg(s, pt(e), pt(f)) <==> member(s, a) && member(s, b)
        },
    }
}

proof fn lemma_scaled(t: real, dx: real, dy: real)
    requires
        0real <= t <= 1real,
        dx > 0real || dx == 0real && dy > 0real,
    ensures
        cross(t * dx, t * dy, dx, dy) == 0real,
        t * dx > 0real || t * dx == 0real && t * dy >= 0real,
        t * dx < dx || t * dx == dx && t * dy <= dy,
{
    reveal(cross);
    assert((t * dx) * dy - (t * dy) * dx == 0real) by (nonlinear_arith);
    if dx > 0real {
        assert(0real <= t * dx <= dx) by (nonlinear_arith)
            requires
                0real <= t <= 1real,
                dx > 0real,
        ;
        assert(t * dx == 0real ==> t == 0real) by (nonlinear_arith)
            requires
                dx > 0real,
        ;
        assert(t * dx == dx ==> t == 1real) by (nonlinear_arith)
            requires
                dx > 0real,
        ;
        assert(t == 0real ==> t * dy == 0real) by (nonlinear_arith);
        assert(t == 1real ==> t * dy == dy) by (nonlinear_arith);
    } else {
        assert(t * dx == 0real) by (nonlinear_arith)
            requires
                dx == 0real,
        ;
        assert(0real <= t * dy <= dy) by (nonlinear_arith)
            requires
                0real <= t <= 1real,
                dy > 0real,
        ;
    }
}

// a parameter for a collinear vector between 0 and (dx, dy)
proof fn lemma_param(px: real, py: real, dx: real, dy: real) -> (t: real)
    requires
        cross(px, py, dx, dy) == 0real,
        dx > 0real || dx == 0real && dy > 0real,
        px > 0real || px == 0real && py >= 0real,
        px < dx || px == dx && py <= dy,
    ensures
        0real <= t <= 1real,
        px == t * dx,
        py == t * dy,
{
    reveal(cross);
    if dx > 0real {
        let t = px / dx;
        assert(t * dx == px) by (nonlinear_arith)
            requires
                t == px / dx,
                dx > 0real,
        ;
        assert(0real <= t <= 1real) by (nonlinear_arith)
            requires
                t == px / dx,
                dx > 0real,
                0real <= px <= dx,
        ;
        assert(t * dy == py) by (nonlinear_arith)
            requires
                t * dx == px,
                dx > 0real,
                px * dy - py * dx == 0real,
        ;
        t
    } else {
        let t = py / dy;
        assert(t * dy == py) by (nonlinear_arith)
            requires
                t == py / dy,
                dy > 0real,
        ;
        assert(0real <= t <= 1real) by (nonlinear_arith)
            requires
                t == py / dy,
                dy > 0real,
                0real <= py <= dy,
        ;
        assert(t * dx == 0real) by (nonlinear_arith)
            requires
                dx == 0real,
        ;
        t
    }
}

// a point is on a segment iff it is collinear with the ends and between them in the sweep order
proof fn lemma_on_seg(p: (real, real), a: (real, real), b: (real, real))
    requires
        lexr(a, b) == Ordering::Less,
    ensures
        on_seg(p, a, b) <==> area(a, p, b) == 0real && lexr(a, p) != Ordering::Greater && lexr(p, b) != Ordering::Greater,
{
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    if on_seg(p, a, b) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] along(t, a, b);
        lemma_scaled(t, dx, dy);
        assert(p.0 - a.0 == t * dx && p.1 - a.1 == t * dy);
    }
    if area(a, p, b) == 0real && lexr(a, p) != Ordering::Greater && lexr(p, b) != Ordering::Greater {
        let t = lemma_param(p.0 - a.0, p.1 - a.1, dx, dy);
        assert(p == along(t, a, b));
    }
}

proof fn lemma_on_seg_sym(p: (real, real), a: (real, real), b: (real, real))
    ensures
        on_seg(p, a, b) ==> on_seg(p, b, a),
{
    if on_seg(p, a, b) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] along(t, a, b);
        let u = 1real - t;
        assert(b.0 + u * (a.0 - b.0) == a.0 + t * (b.0 - a.0)) by (nonlinear_arith)
            requires
                u == 1real - t,
        ;
        assert(b.1 + u * (a.1 - b.1) == a.1 + t * (b.1 - a.1)) by (nonlinear_arith)
            requires
                u == 1real - t,
        ;
        assert(p == along(u, b, a));
    }
}

proof fn lemma_on_point(p: (real, real), a: (real, real))
    ensures
        on_seg(p, a, a) <==> p == a,
{
    assert forall|t: real| #[trigger] along(t, a, a) == a by {
        assert(t * 0real == 0real) by (nonlinear_arith);
    }
    assert(along(0real, a, a) == a);
}

// the dependency's contract, in terms of the two arguments
proof fn lemma_isect_bridge<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>)
    ensures
        forall|p: Line<T>, q: Line<T>, r: Option<LineIntersection<T>>|
            #[trigger] isect_spec(p, q, r) && a is Line && b is Line && lop_wf(a) && lop_wf(b) && p.start == fst(a).0 && p.end == snd(a).0 && q.start == fst(b).0
                && q.end == snd(b).0 ==> isect_ok(
                a,
                b,
                match r {
                    None => None,
                    Some(LineIntersection::SinglePoint { intersection, .. }) => Some(LineOrPoint::Point(SweepPoint(intersection))),
                    Some(LineIntersection::Collinear { intersection }) => Some(of_line(intersection)),
                },
            ),
{
    assert forall|p: Line<T>, q: Line<T>, r: Option<LineIntersection<T>>|
        #[trigger] isect_spec(p, q, r) && a is Line && b is Line && lop_wf(a) && lop_wf(b) && p.start == fst(a).0 && p.end == snd(a).0 && q.start == fst(b).0
            && q.end == snd(b).0 implies isect_ok(
        a,
        b,
        match r {
            None => None,
            Some(LineIntersection::SinglePoint { intersection, .. }) => Some(LineOrPoint::Point(SweepPoint(intersection))),
            Some(LineIntersection::Collinear { intersection }) => Some(of_line(intersection)),
        },
    ) by {
        assert(forall|s: (real, real)| #[trigger] member(s, a) == on_seg(s, at(p.start), at(p.end)));
        assert(forall|s: (real, real)| #[trigger] member(s, b) == on_seg(s, at(q.start), at(q.end)));
        if meets(at(p.start), at(p.end), at(q.start), at(q.end)) {
            let w = choose|w: (real, real)| #[trigger] on_seg(w, at(p.start), at(p.end)) && on_seg(w, at(q.start), at(q.end));
            assert(member(w, a) && member(w, b));
        }
        match r {
            Some(LineIntersection::Collinear { intersection }) => {
                let (e, f) = (at(intersection.start), at(intersection.end));
                lemma_normal(intersection);
                assert forall|s: (real, real)| on_seg(s, e, f) == on_seg(s, f, e) by {
                    lemma_on_seg_sym(s, e, f);
                    lemma_on_seg_sym(s, f, e);
                }
            },
            _ => {},
        }
    }
}

impl<T: GeoFloat> LineOrPoint<T> {
//@@ fn intersect_line self=LineOrPoint
    fn intersect_line(&self, other: &Self) -> (ret: Option<Self>) /*@
        requires
            other is Line,
            lop_wf(*self),
            lop_wf(*other),
        ensures
            isect_ok(*self, *other, ret),
    @*/ {
        rt_assert(other.is_line());
        let line = other.line();
        match *self {
            LineOrPoint::Point(p) => {
                /*@ proof {
                    lemma_on_seg(pt(p), pt(fst(*other)), pt(snd(*other)));
                    assert forall|s: (real, real)| #[trigger] member(s, *self) implies s == pt(p) by {
                        lemma_on_point(s, pt(p));
                    }
                    lemma_on_point(pt(p), pt(p));
                    assert(member(pt(p), *self));
                    assert(member(pt(p), *other) ==> common(*self, *other));
                } @*/
                if orient2d(line.start, p.coord(), line.end)
                    == Orientation::Collinear
                {
                    let ls = line.start.into();
                    let le = line.end.into();
                    if p >= ls && p <= le {
                        Some(*self)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            LineOrPoint::Line(p, q) => {
                /*@ proof { lemma_isect_bridge::<T>(*self, *other); } @*/
                match line_intersection ( Line::new(p.coord(), q.coord()), line ) { Some ( l ) => Some ( match l {
                    LineIntersection::SinglePoint { intersection, .. } => intersection.into(),
                    LineIntersection::Collinear { intersection } => intersection.into(),
                } ) , None => None }
            }
        }
    }
//@@ end
}

// the later of the two left ends
spec fn later<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> (real, real) {
    if lex(fst(a), fst(b)) == Ordering::Less {
        pt(fst(b))
    } else {
        pt(fst(a))
    }
}

// as isect_ok, but a point directly below the later left end is moved to the next x
spec fn ordered_ok<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: Option<LineOrPoint<T>>) -> bool {
    exists|u: Option<LineOrPoint<T>>| #[trigger] isect_ok(a, b, u) && moved(a, b, u, r)
}

spec fn moved<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>, u: Option<LineOrPoint<T>>, r: Option<LineOrPoint<T>>) -> bool {
    match u {
        Some(LineOrPoint::Point(p)) => {
            &&& r matches Some(LineOrPoint::Point(q)) && {
                // never before a left end
                &&& lex(fst(a), q) != Ordering::Greater && lex(fst(b), q) != Ordering::Greater
                &&& q.0.y == p.0.y
                &&& if pt(p).0 == later(a, b).0 && pt(p).1 < later(a, b).1 {
                    q.0.x.v() > p.0.x.v() && forall|z: T| #[trigger] z.v() > p.0.x.v() ==> z.v() >= q.0.x.v()
                } else {
                    q == p
                }
            }
        },
        _ => r == u,
    }
}

impl<T: Float> LineOrPoint<T> {
//@@ fn intersect_line_ordered self=LineOrPoint
    fn intersect_line_ordered(&self, other: &Self) -> (ret: Option<Self>) /*@
        requires
            other is Line,
            lop_wf(*self),
            lop_wf(*other),
        ensures
            ordered_ok(*self, *other, ret),
    @*/ {
        match self.intersect_line(other) {
            Some(LineOrPoint::Point(mut pt)) => {
                let (mut x, y) = pt.coord().x_y();
                let c = self.first().max(other.first()).coord();
                if x == c.x && y < c.y {
                    x = x.next_after(T::infinity());
                }
                pt = Coordinate { x, y }.into();
                rt_assert(
                    pt >= self.first());
                rt_assert(
                    pt >= other.first());
                Some(LineOrPoint::Point(pt))
            },
            e => e,
        }
    }
//@@ end
}

// ---- C06: the vertical order ----
spec fn side_of(a: (real, real), b: (real, real), c: (real, real)) -> Ordering {
    // the line from a to b against c: below (Less) iff c is to its left
    rev(cmpr(area(a, b, c), 0real))
}

spec fn then(a: Ordering, b: Ordering) -> Ordering {
    if a == Ordering::Equal {
        b
    } else {
        a
    }
}

spec fn omap(a: Option<Ordering>) -> Option<Ordering> {
    match a {
        None => None,
        Some(o) => Some(rev(o)),
    }
}

// a begins first
spec fn line_cmp<T: GeoNum>(p1: SweepPoint<T>, q1: SweepPoint<T>, p2: SweepPoint<T>, q2: SweepPoint<T>) -> Ordering {
    then(side_of(pt(p1), pt(q1), pt(p2)), side_of(pt(p1), pt(q1), pt(q2)))
}

// the comparison, on lines in the stated position
spec fn lop_cmp<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> Option<Ordering> {
    match (a, b) {
        (LineOrPoint::Point(p), LineOrPoint::Point(q)) => if pt(p) == pt(q) {
            Some(Ordering::Equal)
        } else {
            None
        },
        (LineOrPoint::Line(p, q), LineOrPoint::Point(r)) => if lex(p, r) == Ordering::Greater || lex(r, q) == Ordering::Greater {
            None
        } else {
            Some(then(side_of(pt(p), pt(q), pt(r)), Ordering::Greater))
        },
        (LineOrPoint::Point(r), LineOrPoint::Line(p, q)) => if lex(p, r) == Ordering::Greater || lex(r, q) == Ordering::Greater {
            None
        } else {
            Some(rev(then(side_of(pt(p), pt(q), pt(r)), Ordering::Greater)))
        },
        (LineOrPoint::Line(p1, q1), LineOrPoint::Line(p2, q2)) => if lex(p1, p2) == Ordering::Greater {
            Some(rev(line_cmp(p2, q2, p1, q1)))
        } else {
            Some(line_cmp(p1, q1, p2, q2))
        },
    }
}

spec fn placed<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> bool {
    &&& lop_wf(a) && lop_wf(b)
    &&& a is Line && b is Line ==> lex(fst(a), snd(b)) == Ordering::Less && lex(fst(b), snd(a)) == Ordering::Less
}

// the two trait impls as inherent functions (same bodies)
impl<T: GeoNum> LineOrPoint<T> {
//@@ fn eq self=LineOrPoint trait=PartialEq
    fn eq(&self, other: &Self) -> (ret: bool) /*@
        ensures
            placed(*self, *other) ==> ret == (lop_cmp(*self, *other) == Some(Ordering::Equal)),
    @*/ {
        self.partial_cmp(other) == Some(Ordering::Equal)
    }
//@@ end
}

// the comparison turns its arguments around at most once
spec fn cmp_rank<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> nat {
    match (a, b) {
        (LineOrPoint::Point(_), LineOrPoint::Line(_, _)) => 1,
        (LineOrPoint::Line(p, _), LineOrPoint::Line(q, _)) => if lex(p, q) == Ordering::Greater {
            1
        } else {
            0
        },
        _ => 0,
    }
}

impl<T: GeoNum> LineOrPoint<T> {
//@@ fn partial_cmp self=LineOrPoint trait=PartialOrd
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) /*@
        ensures
            placed(*self, *other) ==> ret == lop_cmp(*self, *other),
        decreases cmp_rank(*self, *other),
    @*/ {
        match (self, other) {
            (LineOrPoint::Point(p), LineOrPoint::Point(q)) => {
                if p == q {
                    Some(Ordering::Equal)
                } else {
                    None
                }
            }
            (LineOrPoint::Point(_), LineOrPoint::Line(_, _)) => {
                match other . partial_cmp ( self ) { Some ( o ) => Some ( Ordering::reverse ( o ) ) , None => None }
            }
            (LineOrPoint::Line(p, q), LineOrPoint::Point(r)) => {
                if r > q || p > r {
                    return None;
                }
                Some(
                    orientation_as_ordering(orient2d(p.coord(), q.coord(), r.coord()))
                        .then(Ordering::Greater),
                )
            }
            (LineOrPoint::Line(p1, q1), LineOrPoint::Line(p2, q2)) => {
                if p1 > p2 {
                    return match other . partial_cmp ( self ) { Some ( o ) => Some ( Ordering::reverse ( o ) ) , None => None };
                }
                if p1 >= q2 || p2 >= q2 {
                    return None;
                }
                Some(
                    orientation_as_ordering(orient2d(p1.coord(), q1.coord(), p2.coord()))
                        . then ( {
                            orientation_as_ordering(orient2d(
                                p1.coord(),
                                q1.coord(),
                                q2.coord(),
                            ))
                        } ),
                )
            }
        }
    }
//@@ end
}

//@@ fn orientation_as_ordering
fn orientation_as_ordering(orientation: Orientation) -> (ret: Ordering) /*@
    ensures
        ret == match orientation {
            Orientation::CounterClockwise => Ordering::Less,
            Orientation::Clockwise => Ordering::Greater,
            Orientation::Collinear => Ordering::Equal,
        },
@*/ {
    match orientation {
        Orientation::CounterClockwise => Ordering::Less,
        Orientation::Clockwise => Ordering::Greater,
        Orientation::Collinear => Ordering::Equal,
    }
}
//@@ end

// antisymmetric, and equal exactly on collinear lines
proof fn lemma_order<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>)
    requires
        placed(a, b),
    ensures
        lop_cmp(a, b) == omap(lop_cmp(b, a)),
        a is Line && b is Line ==> lop_cmp(a, b) is Some && (lop_cmp(a, b) == Some(Ordering::Equal) <==> area(pt(fst(a)), pt(snd(a)), pt(fst(b)))
            == 0real && area(pt(fst(a)), pt(snd(a)), pt(snd(b))) == 0real),
{
    if a is Line && b is Line {
        let (p, q, r, s) = (pt(fst(a)), pt(snd(a)), pt(fst(b)), pt(snd(b)));
        if area(p, q, r) == 0real && area(p, q, s) == 0real {
            lemma_collinear(p, q, r, s);
        }
        if area(r, s, p) == 0real && area(r, s, q) == 0real {
            lemma_collinear(r, s, p, q);
        }
        if p == r {
            lemma_cross_null(q.0 - p.0, q.1 - p.1);
            lemma_cross_null(s.0 - p.0, s.1 - p.1);
            lemma_cross_anti(q.0 - p.0, q.1 - p.1, s.0 - p.0, s.1 - p.1);
        }
    }
}

proof fn lemma_cross_anti(x: real, y: real, rx: real, ry: real)
    ensures
        cross(x, y, rx, ry) == -cross(rx, ry, x, y),
{
    reveal(cross);
    assert(x * ry - y * rx == -(rx * y - ry * x)) by (nonlinear_arith);
}

proof fn lemma_cross_null(x: real, y: real)
    ensures
        cross(x, y, 0real, 0real) == 0real,
{
    reveal(cross);
    assert(x * 0real - y * 0real == 0real) by (nonlinear_arith);
}

proof fn lemma_cross_sub(x: real, y: real, rx: real, ry: real, sx: real, sy: real)
    ensures
        cross(x - rx, y - ry, sx, sy) == cross(x, y, sx, sy) - cross(rx, ry, sx, sy),
{
    reveal(cross);
    assert((x - rx) * sy == x * sy - rx * sy) by (nonlinear_arith);
    assert((y - ry) * sx == y * sx - ry * sx) by (nonlinear_arith);
}

proof fn lemma_cross_self(x: real, y: real)
    ensures
        cross(x, y, x, y) == 0real,
{
    reveal(cross);
    assert(x * y - y * x == 0real) by (nonlinear_arith);
}

proof fn lemma_cross_neg(x: real, y: real, rx: real, ry: real)
    ensures
        cross(x, y, -rx, -ry) == -cross(x, y, rx, ry),
{
    reveal(cross);
    assert(x * (-ry) == -(x * ry)) by (nonlinear_arith);
    assert(y * (-rx) == -(y * rx)) by (nonlinear_arith);
}

// the triangle seen from its other corner
proof fn lemma_cross_base(x: real, y: real, rx: real, ry: real, sx: real, sy: real)
    ensures
        cross(sx - rx, sy - ry, x - rx, y - ry) == cross(rx, ry, sx, sy) + cross(x, y, rx, ry) - cross(x, y, sx, sy),
{
    // (s - r) x (x - r) = -(x - r) x (s - r) = -(x x (s - r)) + r x (s - r)
    lemma_cross_anti(sx - rx, sy - ry, x - rx, y - ry);
    lemma_cross_sub(x, y, rx, ry, sx - rx, sy - ry);
    lemma_cross_anti(x, y, sx - rx, sy - ry);
    lemma_cross_sub(sx, sy, rx, ry, x, y);
    lemma_cross_anti(x, y, sx, sy);
    lemma_cross_anti(x, y, rx, ry);
    lemma_cross_anti(rx, ry, sx - rx, sy - ry);
    lemma_cross_sub(sx, sy, rx, ry, rx, ry);
    lemma_cross_self(rx, ry);
    lemma_cross_anti(rx, ry, sx, sy);
}

// vectors collinear with a third that is not null are collinear
proof fn lemma_parallel(x: real, y: real, rx: real, ry: real, sx: real, sy: real)
    requires
        cross(x, y, rx, ry) == 0real,
        cross(x, y, sx, sy) == 0real,
        x != 0real || y != 0real,
    ensures
        cross(rx, ry, sx, sy) == 0real,
{
    reveal(cross);
    let k = rx * sy - ry * sx;
    assert(x * k == 0real && y * k == 0real) by (nonlinear_arith)
        requires
            x * ry - y * rx == 0real,
            x * sy - y * sx == 0real,
            k == rx * sy - ry * sx,
    ;
    assert(k == 0real) by (nonlinear_arith)
        requires
            x * k == 0real,
            y * k == 0real,
            x != 0real || y != 0real,
    ;
}

proof fn lemma_collinear(p: (real, real), q: (real, real), r: (real, real), s: (real, real))
    requires
        p != q,
        area(p, q, r) == 0real,
        area(p, q, s) == 0real,
    ensures
        area(r, s, p) == 0real,
        area(r, s, q) == 0real,
{
    let (x, y) = (q.0 - p.0, q.1 - p.1);
    let (rx, ry) = (r.0 - p.0, r.1 - p.1);
    let (sx, sy) = (s.0 - p.0, s.1 - p.1);
    lemma_parallel(x, y, rx, ry, sx, sy);
    lemma_cross_base(x, y, rx, ry, sx, sy);
    lemma_cross_base(0real, 0real, rx, ry, sx, sy);
    lemma_cross_null(rx, ry);
    lemma_cross_null(sx, sy);
    lemma_cross_anti(0real, 0real, rx, ry);
    lemma_cross_anti(0real, 0real, sx, sy);
    assert(s.0 - r.0 == sx - rx && s.1 - r.1 == sy - ry);
    assert(p.0 - r.0 == 0real - rx && p.1 - r.1 == 0real - ry);
    assert(q.0 - r.0 == x - rx && q.1 - r.1 == y - ry);
}

// C06: what the orientation tests decide is the height at the later left end and then at the earlier right end
proof fn lemma_height(p: (real, real), q: (real, real), c: (real, real))
    requires
        p.0 < q.0,
    ensures
        side_of(p, q, c) == cmpr(height(p, q, c.0), c.1),
{
    reveal(cross);
    let (dx, dy, cx, cy) = (q.0 - p.0, q.1 - p.1, c.0 - p.0, c.1 - p.1);
    let h = dy * cx / dx;
    assert(h * dx == dy * cx) by (nonlinear_arith)
        requires
            h == dy * cx / dx,
            dx > 0real,
    ;
    assert(dx * cy - dy * cx == dx * (cy - h)) by (nonlinear_arith)
        requires
            h * dx == dy * cx,
    ;
    assert(dx * (cy - h) > 0real <==> cy > h) by (nonlinear_arith)
        requires
            dx > 0real,
    ;
    assert(dx * (cy - h) < 0real <==> cy < h) by (nonlinear_arith)
        requires
            dx > 0real,
    ;
}

// two lines that touch at the later left end r: the side of the other end s is the order of the heights further on
proof fn lemma_height_after(p: (real, real), q: (real, real), r: (real, real), s: (real, real), x: real)
    requires
        p.0 < q.0,
        r.0 < s.0,
        area(p, q, r) == 0real,
        r.0 < x,
    ensures
        side_of(p, q, s) == cmpr(height(p, q, x), height(r, s, x)),
{
    lemma_height(p, q, r);
    lemma_height(p, q, s);
    let m = (q.1 - p.1) / (q.0 - p.0);
    let n = (s.1 - r.1) / (s.0 - r.0);
    lemma_slope(p, q, x);
    lemma_slope(p, q, r.0);
    lemma_slope(p, q, s.0);
    lemma_slope(r, s, x);
    lemma_slope(r, s, s.0);
    assert(height(r, s, s.0) == s.1) by {
        lemma_height(r, s, s);
        lemma_cross_self(s.0 - r.0, s.1 - r.1);
    }
    assert(height(p, q, x) == r.1 + m * (x - r.0)) by {
        lemma_shift(m, x, r.0, p.0);
    }
    assert(height(p, q, s.0) == r.1 + m * (s.0 - r.0)) by {
        lemma_shift(m, s.0, r.0, p.0);
    }
    lemma_scale(m, n, x - r.0);
    lemma_scale(m, n, s.0 - r.0);
}

proof fn lemma_slope(p: (real, real), q: (real, real), x: real)
    requires
        p.0 < q.0,
    ensures
        height(p, q, x) == p.1 + ((q.1 - p.1) / (q.0 - p.0)) * (x - p.0),
{
    let (dx, dy, c) = (q.0 - p.0, q.1 - p.1, x - p.0);
    assert(dy * c / dx == (dy / dx) * c) by (nonlinear_arith)
        requires
            dx > 0real,
    ;
}

proof fn lemma_shift(m: real, x: real, r: real, p: real)
    ensures
        m * (x - p) == m * (x - r) + m * (r - p),
{
    assert(m * (x - p) == m * (x - r) + m * (r - p)) by (nonlinear_arith);
}

proof fn lemma_scale(m: real, n: real, d: real)
    requires
        d > 0real,
    ensures
        cmpr(m * d, n * d) == cmpr(m, n),
{
    assert(m < n ==> m * d < n * d) by (nonlinear_arith)
        requires
            d > 0real,
    ;
    assert(m > n ==> m * d > n * d) by (nonlinear_arith)
        requires
            d > 0real,
    ;
}
