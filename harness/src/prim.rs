//! Points in sweep order, normalised segments, their vertical order and their intersections.
use crate::common::*;
use crate::ensure;
use crate::geomx::*;
use float_next_after::NextAfter;
use geo::{Coordinate, GeoNum, Line};
use geo_crossings::{LineOrPoint, SweepPoint};
use std::cmp::Ordering;
use std::fmt::Debug;

pub trait Num: GeoNum + Debug + 'static {
    fn of(v: i64) -> Self;
}
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t { fn of(v: i64) -> $t { v as $t } })* } }
num!(f64, f32, i64, i32);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty { F64, F32, I64, I32 }
pub const TYS: [Ty; 4] = [Ty::F64, Ty::F32, Ty::I64, Ty::I32];
macro_rules! by_ty { ($t:expr, $f:ident($($a:expr),*)) => { match $t { Ty::F64 => $f::<f64>($($a),*), Ty::F32 => $f::<f32>($($a),*), Ty::I64 => $f::<i64>($($a),*), Ty::I32 => $f::<i32>($($a),*) } } }

fn sp<T: Num>(p: P) -> SweepPoint<T> {
    // both conversions
    let a: SweepPoint<T> = (T::of(p.0), T::of(p.1)).into();
    a
}
fn co<T: Num>(p: P) -> Coordinate<T> {
    Coordinate { x: T::of(p.0), y: T::of(p.1) }
}

// ------------------------------------------------------------ C04: order of points
#[derive(Clone, Debug)]
pub struct Pts {
    pub ty: Ty,
    pub v: Vec<P>,
}
pub fn check_order(i: &Pts) -> Res {
    by_ty!(i.ty, order_t(&i.v))
}
fn rel<X: PartialOrd + Ord>(a: &X, b: &X, w: Ordering, what: &str) -> Res {
    ensure!(a.cmp(b) == w, "{what}: cmp gives {:?}, expected {:?}", a.cmp(b), w);
    ensure!(a.partial_cmp(b) == Some(w), "{what}: partial_cmp gives {:?}, expected {:?}", a.partial_cmp(b), w);
    ensure!((a == b) == (w == Ordering::Equal) && (a != b) == (w != Ordering::Equal), "{what}: == gives {}", a == b);
    ensure!((a < b) == (w == Ordering::Less) && (a > b) == (w == Ordering::Greater) && (a <= b) == (w != Ordering::Greater) && (a >= b) == (w != Ordering::Less), "{what}: comparison operators disagree with {:?}", w);
    Ok(())
}
fn order_t<T: Num>(v: &[P]) -> Res {
    for a in v {
        let p: SweepPoint<T> = co::<T>(*a).into();
        ensure!(p.coord() == co(*a), "coord() of {:?} is {:?}", a, p.coord());
        ensure!(sp::<T>(*a) == p, "the two conversions of {:?} differ", a);
        for b in v {
            rel(&p, &sp::<T>(*b), a.cmp(b), &format!("{:?} against {:?}", a, b))?;
        }
    }
    let mut s: Vec<SweepPoint<T>> = v.iter().map(|p| sp(*p)).collect();
    s.sort();
    let mut w = v.to_vec();
    w.sort();
    ensure!(s.iter().map(|p| p.coord()).eq(w.iter().map(|p| co(*p))), "sorted points {:?}, expected {:?}", s, w);
    Ok(())
}
/// finite floats of every magnitude
pub fn check_order_float(v: &Vec<(u64, u64)>) -> Res {
    let f = |b: u64| f64::from_bits(b);
    for a in v {
        for b in v {
            let ((ax, ay), (bx, by)) = ((f(a.0), f(a.1)), (f(b.0), f(b.1)));
            let w = if ax < bx { Ordering::Less } else if ax > bx { Ordering::Greater } else if ay < by { Ordering::Less } else if ay > by { Ordering::Greater } else { Ordering::Equal };
            let (p, q): (SweepPoint<f64>, SweepPoint<f64>) = ((ax, ay).into(), Coordinate { x: bx, y: by }.into());
            rel(&p, &q, w, &format!("({:?}, {:?}) against ({:?}, {:?})", ax, ay, bx, by))?;
            ensure!(p.coord().x.to_bits() == a.0 && p.coord().y.to_bits() == a.1, "coord() altered ({:?}, {:?})", ax, ay);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C05: normalisation
#[derive(Clone, Debug)]
pub struct Segs {
    pub ty: Ty,
    pub v: Vec<(P, P)>,
}
fn lop<T: Num>(s: (P, P)) -> LineOrPoint<T> {
    Line::new(co::<T>(s.0), co::<T>(s.1)).into()
}
pub fn check_normal(i: &Segs) -> Res {
    by_ty!(i.ty, normal_t(&i.v))
}
fn normal_t<T: Num>(v: &[(P, P)]) -> Res {
    for s in v {
        let l = lop::<T>(*s);
        let (lo, hi) = (s.0.min(s.1), s.0.max(s.1));
        ensure!(l.is_line() == (lo != hi), "is_line() of {:?} is {}", s, l.is_line());
        ensure!(l.line() == Line::new(co::<T>(lo), co::<T>(hi)), "line() of {:?} is {:?}", s, l.line());
        ensure!(l.second().coord() == co(hi), "second() of {:?} is {:?}", s, l.second());
        match l {
            LineOrPoint::Point(p) => ensure!(lo == hi && p.coord() == co(lo), "{:?} became the point {:?}", s, p),
            LineOrPoint::Line(p, q) => ensure!(lo != hi && p.coord() == co(lo) && q.coord() == co(hi) && p < q, "{:?} became the line {:?} {:?}", s, p, q),
        }
        let again: LineOrPoint<T> = l.line().into();
        ensure!(again.line() == l.line() && again.is_line() == l.is_line(), "normalising {:?} twice differs", l);
        let p: LineOrPoint<T> = co::<T>(s.0).into();
        ensure!(!p.is_line() && p.line() == Line::new(co::<T>(s.0), co::<T>(s.0)) && p.second().coord() == co(s.0), "point {:?} became {:?}", s.0, p);
    }
    Ok(())
}

// ------------------------------------------------------------ C06: vertical order
pub fn check_vertical(i: &Segs) -> Res {
    by_ty!(i.ty, vertical_t(&i.v))
}
/// the order of two segments by height over a common position of the sweep; None if there is none
fn height_order(a: Seg, b: Seg) -> Option<Ordering> {
    let o = |s: Seg, p: P| match orient(s.0, s.1, p) { x if x > 0 => Ordering::Less, x if x < 0 => Ordering::Greater, _ => Ordering::Equal };
    match (a.is_point(), b.is_point()) {
        (true, true) => if a == b { Some(Ordering::Equal) } else { None },
        (true, false) => height_order(b, a).map(Ordering::reverse),
        // a point is a tiny vertical segment: on the line counts as below the upper half of it
        (false, true) => if b.0 < a.0 || b.0 > a.1 { None } else { Some(o(a, b.0).then(Ordering::Greater)) },
        _ => {
            // both left ends before both right ends
            if a.0.max(b.0) >= a.1.min(b.1) { return None; }
            // at the later left end, then at the earlier right end
            let at = |p: P| { let (x, y) = (o(a, p), o(b, p).reverse()); x.then(y) };
            Some(at(a.0.max(b.0)).then(at(a.1.min(b.1))))
        }
    }
}
fn vertical_t<T: Num>(v: &[(P, P)]) -> Res {
    for s in v {
        for t in v {
            let (a, b) = (Seg::norm(s.0, s.1), Seg::norm(t.0, t.1));
            let w = height_order(a, b);
            let (x, y) = (lop::<T>(*s), lop::<T>(*t));
            let defined = !(w.is_none() && x.is_line() && y.is_line());
            // two segments crossing between the two positions have no order
            if x.is_line() && y.is_line() && matches!(isect(a, b), Isect::Pt(_) | Isect::Frac(..)) && crosses_inside(a, b) { continue; }
            if defined {
                ensure!(x.partial_cmp(&y) == w, "order of {:?} and {:?} is {:?}, expected {:?}", a, b, x.partial_cmp(&y), w);
                ensure!((x == y) == (w == Some(Ordering::Equal)), "== of {:?} and {:?} is {}", a, b, x == y);
                ensure!((x < y) == (w == Some(Ordering::Less)) && (x > y) == (w == Some(Ordering::Greater)), "operators on {:?} and {:?} disagree with {:?}", a, b, w);
            }
        }
    }
    Ok(())
}
fn crosses_inside(a: Seg, b: Seg) -> bool {
    orient(a.0, a.1, b.0) * orient(a.0, a.1, b.1) < 0 && orient(b.0, b.1, a.0) * orient(b.0, b.1, a.1) < 0
}

// ------------------------------------------------------------ C07: intersection
fn lp<T: Num>(l: &LineOrPoint<T>) -> (Coordinate<T>, Coordinate<T>) {
    let l = l.line();
    (l.start, l.end)
}
pub fn check_isect(v: &Vec<(P, P)>) -> Res {
    isect_t::<f64>(v, f64::INFINITY, |x| x)?;
    if v.iter().all(|s| [s.0 .0, s.0 .1, s.1 .0, s.1 .1].iter().all(|c| c.abs() < 1 << 20)) { isect_t::<f32>(v, f32::INFINITY, |x| x as f64)?; }
    Ok(())
}
fn isect_t<T: Num + geo_crossings::Float>(v: &[(P, P)], _inf: T, to: fn(T) -> f64) -> Res where T: NextAfter<T> {
    for s in v {
        for t in v {
            let (a, b) = (Seg::norm(s.0, s.1), Seg::norm(t.0, t.1));
            let (x, y) = (lop::<T>(*s), lop::<T>(*t));
            if b.is_point() {
                ensure!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.intersect_line(&y))).is_err(), "intersect_line accepted a point as the line: {:?}", b);
                continue;
            }
            let got = x.intersect_line(&y);
            let want = isect(a, b);
            let ok = match (want, &got) {
                (Isect::None, None) => true,
                (Isect::Pt(p), Some(g)) => !g.is_line() && (lp(g).0 == co(p) || (crosses_inside(a, b) && close(lp(g).0, a, b, to))),
                (Isect::Overlap(o), Some(g)) => g.is_line() && lp(g) == (co(o.0), co(o.1)),
                (Isect::Frac(..), Some(g)) => !g.is_line() && close(lp(g).0, a, b, to),
                _ => false,
            };
            ensure!(ok, "intersection of {:?} and {:?} is {:?}, expected {:?}", a, b, got, want);
            let ord = x.intersect_line_ordered(&y);
            ordered(a, b, &got, &ord)?;
        }
    }
    Ok(())
}
/// near both segments (the position along nearly parallel ones is ill-conditioned)
fn close<T: Num>(g: Coordinate<T>, a: Seg, b: Seg, to: fn(T) -> f64) -> bool {
    let g = (to(g.x), to(g.y));
    [a, b].iter().all(|s| {
        let (p, q) = ((s.0 .0 as f64, s.0 .1 as f64), (s.1 .0 as f64, s.1 .1 as f64));
        let d = (q.0 - p.0, q.1 - p.1);
        let l2 = d.0 * d.0 + d.1 * d.1;
        let t = if l2 == 0. { 0. } else { (((g.0 - p.0) * d.0 + (g.1 - p.1) * d.1) / l2).clamp(0., 1.) };
        let e = (g.0 - p.0 - t * d.0).hypot(g.1 - p.1 - t * d.1);
        let scale = [a.0, a.1, b.0, b.1].iter().fold(1f64, |m, c| m.max(c.0.abs() as f64).max(c.1.abs() as f64));
        e <= scale * if std::mem::size_of::<T>() == 4 { 1e-5 } else { 1e-12 }
    })
}
/// the ordered variant: the same kind; never before either left end
fn ordered<T: Num + geo_crossings::Float>(a: Seg, b: Seg, got: &Option<LineOrPoint<T>>, ord: &Option<LineOrPoint<T>>) -> Res {
    match (got, ord) {
        (None, None) => Ok(()),
        (Some(g), Some(o)) => {
            ensure!(g.is_line() == o.is_line(), "ordered intersection of {:?} and {:?} is {:?}, plain is {:?}", a, b, o, g);
            if g.is_line() || g.line().start >= max_left::<T>(a, b) {
                ensure!(lp(g) == lp(o), "ordered intersection of {:?} and {:?} is {:?}, plain is {:?}", a, b, o, g);
            } else if g.line().start.x >= co::<T>(a.0.max(b.0)).x {
                let q: SweepPoint<T> = o.line().start.into();
                ensure!(q > sp(a.0) && q > sp(b.0), "ordered intersection {:?} of {:?} and {:?} is before a left end", o, a, b);
                ensure!(o.line().start.y == g.line().start.y && o.line().start.x == g.line().start.x.next_after(T::infinity()), "ordered intersection {:?} moved from {:?} too far", o, g);
            }
            Ok(())
        }
        _ => fail(format!("ordered intersection of {:?} and {:?} is {:?}, plain is {:?}", a, b, ord, got)),
    }
}
fn max_left<T: Num>(a: Seg, b: Seg) -> Lx<T> { Lx(sp(a.0.max(b.0))) }
struct Lx<T: GeoNum>(SweepPoint<T>);
impl<T: Num> PartialEq<Lx<T>> for Coordinate<T> { fn eq(&self, o: &Lx<T>) -> bool { SweepPoint::from(*self) == o.0 } }
impl<T: Num> PartialOrd<Lx<T>> for Coordinate<T> { fn partial_cmp(&self, o: &Lx<T>) -> Option<Ordering> { SweepPoint::from(*self).partial_cmp(&o.0) } }
/// segments whose ends are a few units in the last place apart
pub fn check_thin(v: &Vec<(P, P)>) -> Res {
    let (s, t) = (v[0], v[1]);
    let (a, b) = (Seg::norm(s.0, s.1), Seg::norm(t.0, t.1));
    let (x, y) = (lop::<f64>(s), lop::<f64>(t));
    if b.is_point() { return Ok(()); }
    let got = x.intersect_line(&y);
    ensure!(got.is_some() == (isect(a, b) != Isect::None), "intersection of {:?} and {:?} is {:?}, expected {:?}", a, b, got, isect(a, b));
    // outside of the guarantee: the computed point lies left of a left end by rounding
    if let Some(g) = &got { if !g.is_line() && g.line().start.x < a.0.max(b.0).0 as f64 { return Ok(()); } }
    let ord = x.intersect_line_ordered(&y);
    ordered(a, b, &got, &ord)
}

// ------------------------------------------------------------ generators
fn small_segs() -> Vec<(P, P)> {
    let mut pts = vec![];
    for x in 0..3 { for y in 0..3 { pts.push((x, y)); } }
    let mut v = vec![];
    for a in &pts { for b in &pts { v.push((*a, *b)); } }
    v
}
fn one(i: &Segs) -> Vec<Segs> { drop_one(&i.v).into_iter().map(|v| Segs { ty: i.ty, v }).collect() }
fn coord(g: &mut Rng, ty: Ty) -> i64 {
    let m = match ty { Ty::F64 => 1 << 25, Ty::F32 => 1 << 12, Ty::I64 => 1 << 28, Ty::I32 => 1 << 13 };
    match g.below(4) { 0 => g.range(-m, m), 1 => g.range(-3, 3), 2 => m - g.range(0, 3), _ => g.range(-20, 20) }
}
fn point(g: &mut Rng, ty: Ty, near: &[P]) -> P {
    if !near.is_empty() && g.chance(1, 3) {
        let q = near[g.below(near.len() as u64) as usize];
        return match g.below(4) { 0 => q, 1 => (q.0, coord(g, ty)), 2 => (q.0 + g.range(-1, 1), q.1 + g.range(-1, 1)), _ => (coord(g, ty), q.1) };
    }
    (coord(g, ty), coord(g, ty))
}
pub fn gen_segs(g: &mut Rng, ty: Ty, n: usize) -> Vec<(P, P)> {
    let (mut v, mut near): (Vec<(P, P)>, Vec<P>) = (vec![], vec![]);
    for _ in 0..n {
        let a = point(g, ty, &near);
        let b = match g.below(8) {
            0 => a,
            // a multiple of an earlier direction: parallel, collinear and touching segments
            1 | 2 if !v.is_empty() => { let s = v[g.below(v.len() as u64) as usize]; let k = g.range(-2, 3); (a.0 + k * (s.1 .0 - s.0 .0) / 2, a.1 + k * (s.1 .1 - s.0 .1) / 2) }
            _ => point(g, ty, &near),
        };
        let m = 1i64 << 29;
        let b = (b.0.clamp(-m, m), b.1.clamp(-m, m));
        let b = if ty == Ty::F32 || ty == Ty::I32 { (b.0.clamp(-8192, 8192), b.1.clamp(-8192, 8192)) } else { b };
        near.push(a);
        near.push(b);
        v.push((a, b));
    }
    v
}
fn extreme(g: &mut Rng, ty: Ty) -> i64 {
    let (lo, hi) = if ty == Ty::I32 { (i32::MIN as i64, i32::MAX as i64) } else { (i64::MIN, i64::MAX) };
    match g.below(6) { 0 => lo, 1 => hi, 2 => lo + 1, 3 => hi / 2 + g.range(0, 2), 4 => lo / 2 - g.range(0, 2), _ => g.range(-2, 2) }
}
fn float_bits(g: &mut Rng) -> u64 {
    let special = [0.0f64, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 1.0 + f64::EPSILON];
    loop {
        let f = match g.below(3) { 0 => special[g.below(special.len() as u64) as usize], 1 => f64::from_bits(g.next()), _ => g.range(-3, 3) as f64 };
        if f.is_finite() { return f.to_bits(); }
    }
}
pub fn run(ctx: &mut Ctx, what: &str) {
    match what {
        "order" => {
            let mut g = ctx.rng(41);
            ctx.family("finite floats", 200_000, 0.4, |_| { let mut xs: Vec<u64> = (0..4).map(|_| float_bits(&mut g)).collect(); xs.push(xs[0]); Some((0..6).map(|_| (xs[g.below(5) as usize], xs[g.below(5) as usize])).collect::<Vec<_>>()) }, |i| check_order_float(i), drop_one);
            let mut g = ctx.rng(46);
            ctx.family("integers of the whole range", 100_000, 0.4, |n| { let ty = if n % 2 == 0 { Ty::I64 } else { Ty::I32 }; let mut x = || extreme(&mut g, ty); Some(Pts { ty, v: (0..6).map(|_| (x(), x())).collect() }) }, |i| check_order(i), |i| drop_one(&i.v).into_iter().map(|v| Pts { ty: i.ty, v }).collect());
            let mut g = ctx.rng(42);
            ctx.family("integral points of four scalar types", 400_000, 1.0, |n| { let ty = TYS[(n % 4) as usize]; let mut v = vec![]; for _ in 0..7 { let p = point(&mut g, ty, &v); v.push(p); } Some(Pts { ty, v }) }, |i| check_order(i), |i| drop_one(&i.v).into_iter().map(|v| Pts { ty: i.ty, v }).collect());
        }
        "normal" | "vertical" => {
            if what == "normal" {
                let mut g = ctx.rng(46);
                ctx.family("integers of the whole range", 100_000, 0.3, |n| { let ty = if n % 2 == 0 { Ty::I64 } else { Ty::I32 }; let mut x = || extreme(&mut g, ty); Some(Segs { ty, v: (0..4).map(|_| ((x(), x()), (x(), x()))).collect() }) }, |i| check_normal(i), one);
            }
            let check = if what == "normal" { check_normal } else { check_vertical };
            let all = small_segs();
            let m = all.len() as u64;
            ctx.exhaustive("all pairs on a 3x3 grid x scalar type", m * m * 4, 0.5, |n| { let q = n / 4; Some(Segs { ty: TYS[(n % 4) as usize], v: vec![all[(q / m) as usize], all[(q % m) as usize]] }) }, |i| check(i), one);
            let mut g = ctx.rng(43);
            ctx.family("random segments of four scalar types", 2_000_000, 1.0, |n| { let ty = TYS[(n % 4) as usize]; Some(Segs { ty, v: gen_segs(&mut g, ty, 5) }) }, |i| check(i), one);
        }
        _ => {
            let all = small_segs();
            let m = all.len() as u64;
            ctx.exhaustive("all pairs on a 3x3 grid", m * m, 0.5, |n| Some(vec![all[(n / m) as usize], all[(n % m) as usize]].into_iter().map(|s: (P, P)| ((s.0 .0 * 12, s.0 .1 * 12), (s.1 .0 * 12, s.1 .1 * 12))).collect::<Vec<_>>()), |i| check_isect(i), drop_one);
            let mut g = ctx.rng(44);
            ctx.family("random segments", 1_000_000, 0.5, |_| Some(gen_segs(&mut g, Ty::F32, 4)), |i| check_isect(i), drop_one);
            let mut g = ctx.rng(45);
            ctx.family("ends one unit in the last place apart", 4_000_000, 1.0, |_| {
                let b = 1i64 << 52;
                let mut p = |w: i64| (b + g.range(0, 2), g.range(0, w));
                let w = 3;
                Some(vec![(p(w), p(w)), (p(w), p(w))])
            }, |i| check_thin(i), |_| vec![]);
        }
    }
}
