//! Exact integer geometry used as the oracle.
pub type P = (i64, i64);
/// Segment with lexicographically ordered end points (may be a point).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Seg(pub P, pub P);
impl Seg {
    pub fn norm(a: P, b: P) -> Seg {
        if a <= b { Seg(a, b) } else { Seg(b, a) }
    }
    pub fn is_point(&self) -> bool { self.0 == self.1 }
}
pub fn orient(a: P, b: P, c: P) -> i64 {
    let d = (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128;
    d.signum() as i64
}
pub fn on_seg(s: Seg, p: P) -> bool {
    if s.is_point() { return s.0 == p; }
    orient(s.0, s.1, p) == 0 && s.0 <= p && p <= s.1
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Isect {
    None,
    Pt(P),
    Overlap(Seg),
    /// proper crossing at a point which is not an integer point
    Frac(i128, i128, i128), // x num, y num, common positive den
}
/// Exact intersection of two segments.
pub fn isect(a: Seg, b: Seg) -> Isect {
    if a.is_point() { return if on_seg(b, a.0) { Isect::Pt(a.0) } else { Isect::None }; }
    if b.is_point() { return if on_seg(a, b.0) { Isect::Pt(b.0) } else { Isect::None }; }
    let (o1, o2) = (orient(a.0, a.1, b.0), orient(a.0, a.1, b.1));
    if o1 == 0 && o2 == 0 {
        let lo = a.0.max(b.0);
        let hi = a.1.min(b.1);
        return if lo < hi { Isect::Overlap(Seg(lo, hi)) } else if lo == hi { Isect::Pt(lo) } else { Isect::None };
    }
    let (o3, o4) = (orient(b.0, b.1, a.0), orient(b.0, b.1, a.1));
    if o1 == 0 && on_seg(a, b.0) { return Isect::Pt(b.0); }
    if o2 == 0 && on_seg(a, b.1) { return Isect::Pt(b.1); }
    if o3 == 0 && on_seg(b, a.0) { return Isect::Pt(a.0); }
    if o4 == 0 && on_seg(b, a.1) { return Isect::Pt(a.1); }
    if o1 * o2 < 0 && o3 * o4 < 0 {
        let (dx1, dy1) = ((a.1 .0 - a.0 .0) as i128, (a.1 .1 - a.0 .1) as i128);
        let (dx2, dy2) = ((b.1 .0 - b.0 .0) as i128, (b.1 .1 - b.0 .1) as i128);
        let mut den = dx1 * dy2 - dy1 * dx2;
        let mut tn = (b.0 .0 - a.0 .0) as i128 * dy2 - (b.0 .1 - a.0 .1) as i128 * dx2;
        if den < 0 { den = -den; tn = -tn; }
        let xn = a.0 .0 as i128 * den + tn * dx1;
        let yn = a.0 .1 as i128 * den + tn * dy1;
        if xn % den == 0 && yn % den == 0 {
            return Isect::Pt(((xn / den) as i64, (yn / den) as i64));
        }
        return Isect::Frac(xn, yn, den);
    }
    Isect::None
}
