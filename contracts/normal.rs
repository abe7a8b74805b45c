// ---- line_or_point.rs ------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ enum LineOrPoint derives=Clone,Copy
enum LineOrPoint<T: GeoNum> {
    Point(SweepPoint<T>),
    Line(SweepPoint<T>, SweepPoint<T>),
}
//@@ end

// end points in sweep order
spec fn lop_wf<T: GeoNum>(l: LineOrPoint<T>) -> bool {
    match l {
        LineOrPoint::Point(_) => true,
        LineOrPoint::Line(p, q) => lex(p, q) == Ordering::Less,
    }
}

spec fn fst<T: GeoNum>(l: LineOrPoint<T>) -> SweepPoint<T> {
    match l {
        LineOrPoint::Point(p) => p,
        LineOrPoint::Line(p, _) => p,
    }
}

spec fn snd<T: GeoNum>(l: LineOrPoint<T>) -> SweepPoint<T> {
    match l {
        LineOrPoint::Point(p) => p,
        LineOrPoint::Line(_, q) => q,
    }
}

spec fn of_line<T: GeoNum>(l: Line<T>) -> LineOrPoint<T> {
    match lexr(at(l.start), at(l.end)) {
        Ordering::Less => LineOrPoint::Line(SweepPoint(l.start), SweepPoint(l.end)),
        Ordering::Equal => LineOrPoint::Point(SweepPoint(l.start)),
        Ordering::Greater => LineOrPoint::Line(SweepPoint(l.end), SweepPoint(l.start)),
    }
}

// the points of a line or point
spec fn member<T: GeoNum>(p: (real, real), l: LineOrPoint<T>) -> bool {
    on_seg(p, pt(fst(l)), pt(snd(l)))
}

impl<T: GeoNum> FromSpecImpl<Line<T>> for LineOrPoint<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(l: Line<T>) -> Self {
        of_line(l)
    }
}

impl<T: GeoNum> FromSpecImpl<Coordinate<T>> for LineOrPoint<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(c: Coordinate<T>) -> Self {
        LineOrPoint::Point(SweepPoint(c))
    }
}

// C05: normalising keeps the two ends, sorts them, and makes a point exactly of equal ends
proof fn lemma_normal<T: GeoNum>(l: Line<T>)
    ensures
        lop_wf(of_line(l)),
        of_line(l) is Point <==> at(l.start) == at(l.end),
        at(l.start) == at(l.end) || (fst(of_line(l)).0 == l.start && snd(of_line(l)).0 == l.end) || (fst(of_line(l)).0 == l.end && snd(of_line(l)).0
            == l.start),
        at(l.start) == at(l.end) ==> fst(of_line(l)).0 == l.start && snd(of_line(l)).0 == l.start,
{
}

impl<T: GeoNum> From<Line<T>> for LineOrPoint<T> {
//@@ fn from self=LineOrPoint trait=From<Line<T>>
    fn from(l: Line<T>) -> (ret: Self) {
        let start: SweepPoint<T> = l.start.into();
        let end = l.end.into();
        match start.cmp(&end) {
            Ordering::Less => LineOrPoint::Line(start, end),
            Ordering::Equal => LineOrPoint::Point(start),
            Ordering::Greater => LineOrPoint::Line(end, start),
        }
    }
//@@ end
}

impl<T: GeoNum> From<Coordinate<T>> for LineOrPoint<T> {
//@@ fn from self=LineOrPoint trait=From<Coordinate<T>>
    fn from(c: Coordinate<T>) -> (ret: Self) {
        LineOrPoint::Point(c.into())
    }
//@@ end
}

impl<T: GeoNum> LineOrPoint<T> {
//@@ fn is_line self=LineOrPoint
    fn is_line(&self) -> (ret: bool) /*@ ensures ret == (self is Line), @*/ {
        (match self { LineOrPoint::Line(_, _) => true, _ => false })
    }
//@@ end

//@@ fn line self=LineOrPoint
    fn line(&self) -> (ret: Line<T>) /*@ ensures ret == (Line { start: fst(*self).0, end: snd(*self).0 }), @*/ {
        match self {
            LineOrPoint::Line(p, q) => Line::new(p.coord(), q.coord()),
            LineOrPoint::Point(p) => Line::new(p.coord(), p.coord()),
        }
    }
//@@ end

//@@ fn first self=LineOrPoint
    fn first(&self) -> (ret: SweepPoint<T>) /*@ ensures ret == fst(*self), @*/ {
        *match self {
            LineOrPoint::Point(p) => p,
            LineOrPoint::Line(p, _) => p,
        }
    }
//@@ end

//@@ fn second self=LineOrPoint
    fn second(&self) -> (ret: SweepPoint<T>) /*@ ensures ret == snd(*self), @*/ {
        *match self {
            LineOrPoint::Point(p) => p,
            LineOrPoint::Line(_, p) => p,
        }
    }
//@@ end
}
