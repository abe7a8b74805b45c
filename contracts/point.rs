// ---- events.rs -------------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct SweepPoint derives=PartialEq,Clone,Copy
struct SweepPoint<T: GeoNum>(Coordinate<T>);
//@@ end

// the derived equality of SweepPoint is that of its coordinate
impl<T: GeoNum> PartialEqSpecImpl for SweepPoint<T> {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        pt(*self) == pt(*o)
    }
}

impl<T: GeoNum> PartialEq for SweepPoint<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

impl<T: GeoNum> Eq for SweepPoint<T> {
}

spec fn pt<T: GeoNum>(p: SweepPoint<T>) -> (real, real) {
    at(p.0)
}

// the sweep order: x first, then y
spec fn lex<T: GeoNum>(a: SweepPoint<T>, b: SweepPoint<T>) -> Ordering {
    lexr(pt(a), pt(b))
}

impl<T: GeoNum> PartialOrdSpecImpl for SweepPoint<T> {
    closed spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    closed spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        Some(lex(*self, *o))
    }
}

impl<T: GeoNum> PartialOrd for SweepPoint<T> {
//@@ fn partial_cmp self=SweepPoint trait=PartialOrd
    fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>) {
        match self.0.x.partial_cmp(&other.0.x) {
            Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),
            o => o,
        }
    }
//@@ end
}

impl<T: GeoNum> OrdSpecImpl for SweepPoint<T> {
    closed spec fn obeys_cmp_spec() -> bool {
        true
    }

    closed spec fn cmp_spec(&self, o: &Self) -> Ordering {
        lex(*self, *o)
    }
}

impl<T: GeoNum> Ord for SweepPoint<T> {
//@@ fn cmp self=SweepPoint trait=Ord
    fn cmp(&self, other: &Self) -> (ret: Ordering) {
        self.partial_cmp(other).unwrap()
    }
//@@ end
}

impl<T: GeoNum> SweepPoint<T> {
//@@ fn coord self=SweepPoint
    fn coord(&self) -> (ret: Coordinate<T>) /*@ ensures ret == self.0, @*/ {
        self.0
    }
//@@ end
}

impl<T: GeoNum> FromSpecImpl<Coordinate<T>> for SweepPoint<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(c: Coordinate<T>) -> Self {
        SweepPoint(c)
    }
}

impl<T: GeoNum> From<Coordinate<T>> for SweepPoint<T> {
//@@ fn from self=SweepPoint trait=From<Coordinate<T>>
    fn from(pt: Coordinate<T>) -> (ret: Self) {
        SweepPoint(pt)
    }
//@@ end
}

impl<T: GeoNum> FromSpecImpl<(T, T)> for SweepPoint<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(c: (T, T)) -> Self {
        SweepPoint(Coordinate { x: c.0, y: c.1 })
    }
}

impl<T: GeoNum> From<(T, T)> for SweepPoint<T> {
//@@ fn from self=SweepPoint trait=From<(T,T)>
    fn from(coords: (T, T)) -> (ret: Self) {
        Coordinate::from(coords).into()
    }
//@@ end
}

// C04: the order is total and lexicographic
proof fn lemma_lex_total<T: GeoNum>(a: SweepPoint<T>, b: SweepPoint<T>, c: SweepPoint<T>)
    ensures
        lex(a, b) == rev(lex(b, a)),
        lex(a, b) == Ordering::Equal <==> pt(a) == pt(b),
        lex(a, b) == Ordering::Less <==> pt(a).0 < pt(b).0 || pt(a).0 == pt(b).0 && pt(a).1 < pt(b).1,
        lex(a, b) != Ordering::Greater && lex(b, c) != Ordering::Greater ==> lex(a, c) != Ordering::Greater,
        lex(a, b) == Ordering::Less && lex(b, c) != Ordering::Greater ==> lex(a, c) == Ordering::Less,
        lex(a, b) != Ordering::Greater && lex(b, c) == Ordering::Less ==> lex(a, c) == Ordering::Less,
{
}

// the operators agree with cmp
fn probe_operators<T: GeoNum>(a: SweepPoint<T>, b: SweepPoint<T>) {
    let (lt, le, gt, ge, eq, ne, c, p) = (a < b, a <= b, a > b, a >= b, a == b, a != b, a.cmp(&b), a.partial_cmp(&b));
    assert(lt == (lex(a, b) == Ordering::Less));
    assert(le == (lex(a, b) != Ordering::Greater));
    assert(gt == (lex(a, b) == Ordering::Greater));
    assert(ge == (lex(a, b) != Ordering::Less));
    assert(eq == (lex(a, b) == Ordering::Equal));
    assert(ne == !eq);
    assert(c == lex(a, b));
    assert(p == Some(c));
}
