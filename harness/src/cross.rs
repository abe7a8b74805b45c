//! Bounded stand-ins and replay search for the line-crossing sweep.
use crate::common::*;
use crate::ensure;
use crate::geomx::*;
use geo::{line_intersection::LineIntersection, Coordinate, Line};
use geo_crossings::{Crossable, CrossingsIter, Intersections, LineOrPoint};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ix {
    pub ix: usize,
    pub line: Line<f64>,
}
impl Crossable for Ix {
    type Scalar = f64;
    fn line(&self) -> Line<f64> {
        self.line
    }
}

/// Input: raw segments (start, end), both in integer coordinates.
pub type Segs = Vec<(P, P)>;

pub fn to_line(s: &(P, P)) -> Line<f64> {
    Line::from([(s.0 .0 as f64, s.0 .1 as f64), (s.1 .0 as f64, s.1 .1 as f64)])
}
pub fn ip(c: Coordinate<f64>) -> Option<P> {
    if c.x.fract() == 0. && c.y.fract() == 0. && c.x.abs() < 1e15 && c.y.abs() < 1e15 {
        Some((c.x as i64, c.y as i64))
    } else {
        None
    }
}
pub fn ep(c: Coordinate<f64>) -> Result<P, Fail> {
    ip(c).ok_or_else(|| Fail { msg: format!("non-integral point {:?} on an input with integral intersections", c), known: None })
}
pub fn lop_pts(l: &LineOrPoint<f64>) -> (Coordinate<f64>, Coordinate<f64>) {
    let l = l.line();
    (l.start, l.end)
}
pub fn mk(input: &Segs) -> Vec<Ix> {
    input.iter().enumerate().map(|(ix, s)| Ix { ix, line: to_line(s) }).collect()
}

/// All pairwise intersections are integral?
pub fn integral(input: &Segs) -> bool {
    for i in 0..input.len() {
        for j in 0..i {
            if let Isect::Frac(..) = isect(Seg::norm(input[i].0, input[i].1), Seg::norm(input[j].0, input[j].1)) {
                return false;
            }
        }
    }
    true
}

/// Exact event points of an (integral) input.
pub fn event_points(segs: &[Seg]) -> BTreeSet<P> {
    let mut pts = BTreeSet::new();
    for (i, s) in segs.iter().enumerate() {
        pts.insert(s.0);
        pts.insert(s.1);
        for t in &segs[..i] {
            match isect(*s, *t) {
                Isect::Pt(p) => {
                    pts.insert(p);
                }
                Isect::Overlap(o) => {
                    pts.insert(o.0);
                    pts.insert(o.1);
                }
                _ => {}
            }
        }
    }
    pts
}

pub const K_FIRST: &str = "first-segment-cleared-by-split";

/// Collects a vector, for some lengths through an iterator that does not know
/// how many items it has (a hint from 0 to usize::MAX).
fn collect<C, B: FromIterator<C>>(v: Vec<C>) -> B {
    if v.len() % 4 == 3 {
        let mut v = v.into_iter();
        (0..usize::MAX).map_while(|_| v.next()).collect()
    } else {
        v.into_iter().collect()
    }
}

/// Full oracle of `CrossingsIter`.
pub fn check_crossings(input: &Segs, pieces: bool) -> Res {
    let segs: Vec<Seg> = input.iter().map(|s| Seg::norm(s.0, s.1)).collect();
    let want = event_points(&segs);
    // points that lie on each segment, in order
    let on: Vec<Vec<P>> = segs.iter().map(|s| want.iter().copied().filter(|p| on_seg(*s, *p)).collect()).collect();
    let mut it: CrossingsIter<Ix> = collect(mk(input));
    let mut want_iter = want.iter();
    let mut known = None;
    while let Some(c) = it.next() {
        let p = ep(c)?;
        let w = want_iter.next();
        ensure!(w == Some(&p), "yielded point {:?}, expected {:?}", p, w);
        if !pieces { continue; }
        let mut ends: BTreeMap<usize, usize> = BTreeMap::new();
        let mut starts: BTreeMap<usize, usize> = BTreeMap::new();
        let mut points: BTreeMap<usize, usize> = BTreeMap::new();
        let recs = it.intersections();
        for (k, r) in recs.iter().enumerate() {
            let ix = r.crossable.ix;
            ensure!(r.crossable.line == to_line(&input[ix]), "crossable altered");
            let (a, b) = lop_pts(&r.line);
            let (a, b) = (ep(a)?, ep(b)?);
            let s = segs[ix];
            ensure!(on_seg(s, a) && on_seg(s, b), "piece {:?} of {:?} is not part of it", (a, b), s);
            ensure!(r.line.is_line() == (a != b), "variant of {:?} does not match its end points", r.line);
            if s.is_point() {
                ensure!(a == p && b == p && !r.at_left, "bad record {:?} for a point at {:?}", r, p);
                ensure!(r.first_segment, "point without first_segment at {:?}: {:?}", p, r);
                *points.entry(ix).or_default() += 1;
                continue;
            }
            ensure!(a < b, "piece of {:?} is not a forward line: {:?}", s, (a, b));
            if r.at_left {
                ensure!(a == p, "at_left piece {:?} does not start at {:?}", r, p);
                *starts.entry(ix).or_default() += 1;
                // maximal guarantee at the left: piece has no intersection before the next event... may be split later
            } else {
                ensure!(b == p, "ending piece {:?} does not end at {:?}", r, p);
                let pos = on[ix].iter().position(|q| *q == p).unwrap();
                ensure!(pos > 0 && on[ix][pos - 1] == a, "ending piece {:?} at {:?}: contains an intersection in its interior or misses a part, points on the line {:?}", r, p, on[ix]);
                *ends.entry(ix).or_default() += 1;
            }
            let want_first = a == s.0;
            if r.first_segment != want_first {
                let m = Fail { msg: format!("first_segment = {} for piece {:?} of {:?}", r.first_segment, (a, b), s), known: if want_first && b != s.1 { Some(K_FIRST) } else { None } };
                if m.known.is_none() { return Err(m); }
                known.get_or_insert(m);
            }
            if r.has_overlap {
                ensure!(k + 1 < recs.len(), "has_overlap on the last record at {:?}", p);
                let n = &recs[k + 1];
                ensure!(lop_pts(&n.line) == lop_pts(&r.line) && n.at_left == r.at_left, "has_overlap but the next record differs: {:?} / {:?}", r, n);
            }
        }
        for (ix, s) in segs.iter().enumerate() {
            let here = on_seg(*s, p);
            let want_pt = here && s.is_point();
            let want_end = here && !s.is_point() && p > s.0;
            let want_start = here && !s.is_point() && p < s.1;
            let got = (points.get(&ix).copied().unwrap_or(0), ends.get(&ix).copied().unwrap_or(0), starts.get(&ix).copied().unwrap_or(0));
            ensure!(got == (want_pt as usize, want_end as usize, want_start as usize), "at {:?}: records (point, ending, starting) of input {} {:?} are {:?}", p, ix, s, got);
        }
        // overlapping pieces that end here: all pairs of inputs overlapping just before p
    }
    ensure!(want_iter.next().is_none(), "sweep ended early, missing points");
    ensure!(it.next().is_none(), "iterator yields again after the end");
    match known { Some(k) => Err(k), None => Ok(()) }
}

pub const K_MISS: &str = "pair-lost-at-split-first-segment";

/// Oracle of `Intersections`.
pub fn check_intersections(input: &Segs, allow: bool) -> Res {
    let segs: Vec<Seg> = input.iter().map(|s| Seg::norm(s.0, s.1)).collect();
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let it: Intersections<Ix> = collect(mk(input));
    for (a, b, i) in it {
        let (x, y) = (a.ix.min(b.ix), a.ix.max(b.ix));
        ensure!(a.ix != b.ix, "pair of an input with itself: {}", a.ix);
        ensure!(a.line == to_line(&input[a.ix]) && b.line == to_line(&input[b.ix]), "crossable altered");
        *seen.entry((x, y)).or_default() += 1;
        let want = isect(segs[x], segs[y]);
        let got = match i {
            LineIntersection::SinglePoint { intersection, .. } => Isect::Pt(ep(intersection)?),
            LineIntersection::Collinear { intersection } => {
                let s = Seg::norm(ep(intersection.start)?, ep(intersection.end)?);
                if s.is_point() { Isect::Pt(s.0) } else { Isect::Overlap(s) }
            }
        };
        ensure!(got == want, "intersection of {:?} and {:?} reported as {:?}, is {:?}", segs[x], segs[y], got, want);
    }
    let mut known = None;
    let flags = if allow { split_first(input) } else { Default::default() };
    for i in 0..segs.len() {
        for j in i + 1..segs.len() {
            let n = seen.get(&(i, j)).copied().unwrap_or(0);
            let want = isect(segs[i], segs[j]);
            match want {
                Isect::None => ensure!(n == 0, "unreachable"),
                _ if n >= 1 => {}
                _ => {
                    let at = match want { Isect::Pt(p) => p, Isect::Overlap(s) => s.0, _ => unreachable!() };
                    // recorded finding: the pair meets where one of the two
                    // starts, and that one was split while it was being added
                    let k = [i, j].iter().any(|q| segs[*q].0 == at && flags.contains(q));
                    let m = Fail { msg: format!("intersecting pair {:?} {:?} ({:?}) not reported", segs[i], segs[j], want), known: if k { Some(K_MISS) } else { None } };
                    if m.known.is_none() { return Err(m); }
                    known.get_or_insert(m);
                }
            }
        }
    }
    match known { Some(k) => Err(k), None => Ok(()) }
}

/// Inputs whose first piece is reported, at its start, with `first_segment`
/// cleared (the recorded finding).
fn split_first(input: &Segs) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut it: CrossingsIter<Ix> = mk(input).into_iter().collect();
    while let Some(c) = it.next() {
        for r in it.intersections() {
            let s = &input[r.crossable.ix];
            let s = Seg::norm(s.0, s.1);
            if !s.is_point() && r.at_left && !r.first_segment && ip(c) == Some(s.0) {
                out.insert(r.crossable.ix);
            }
        }
    }
    out
}

// ------------------------------------------------------------ generators
pub fn all_segs(n: i64, scale: i64) -> Vec<(P, P)> {
    let mut pts = vec![];
    for x in 0..n { for y in 0..n { pts.push((x * scale, y * scale)); } }
    let mut v = vec![];
    for i in 0..pts.len() { for j in i..pts.len() { v.push((pts[i], pts[j])); } }
    v
}
fn flip(rng: &mut Rng, s: (P, P)) -> (P, P) { if rng.chance(1, 2) { (s.1, s.0) } else { s } }

pub fn gen_45(rng: &mut Rng, n: usize, k: i64) -> Segs {
    (0..n).map(|_| {
        let a = (2 * rng.range(0, k), 2 * rng.range(0, k));
        let (dx, dy) = [(1, 0), (0, 1), (1, 1), (1, -1), (1, 0), (0, 1)][rng.below(6) as usize];
        let l = if rng.chance(1, 12) { 0 } else { 2 * rng.range(1, k) };
        flip(rng, (a, (a.0 + dx * l, a.1 + dy * l)))
    }).collect()
}
pub fn gen_any(rng: &mut Rng, n: usize, k: i64, scale: i64) -> Option<Segs> {
    // grow a set keeping all intersections integral
    let mut v: Segs = vec![];
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        if tries > 60 * n { return None; }
        let mut p = || (scale * rng.range(0, k), scale * rng.range(0, k));
        let s = (p(), p());
        v.push(s);
        if !integral(&v) { v.pop(); }
    }
    Some(v)
}

pub fn run_families(ctx: &mut Ctx, check: &dyn Fn(&Segs) -> Res) {
    let quick = std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough");
    let all = all_segs(3, 840);
    let m = all.len() as u64;
    ctx.exhaustive("pairs-3x3-exhaustive", m * m, 1.0, |i| Some(vec![all[(i / m) as usize], all[(i % m) as usize]]), |s| check(s), drop_one);
    let mut rng = ctx.rng(1);
    if quick {
        ctx.family("triples-3x3-sampled", 40_000, 0.3, |_| Some((0..3).map(|_| all[rng.below(m) as usize]).collect()), |s| check(s), drop_one);
    } else {
        ctx.exhaustive("triples-3x3-exhaustive", m * m * m, 0.5, |i| Some(vec![all[(i / m / m) as usize], all[(i / m % m) as usize], all[(i % m) as usize]]), |s| check(s), drop_one);
    }
    let mut rng = ctx.rng(2);
    ctx.family("axis-and-diagonal", 2_000_000, 0.35, |i| { let n = 2 + (i % 11) as usize; let k = 2 + (i % 5) as i64; Some(gen_45(&mut rng, n, k)) }, |s| check(s), drop_one);
    let mut rng = ctx.rng(3);
    ctx.family("general-slopes-integral", 2_000_000, 0.6, |i| { let n = 3 + (i % 8) as usize; loop { if let Some(s) = gen_any(&mut rng, n, 3 + (i % 3) as i64, 60 * 7) { return Some(s); } } }, |s| check(s), drop_one);
    let mut rng = ctx.rng(4);
    ctx.family("large-axis-and-diagonal", 100_000, 1.0, |i| { let n = 20 + (i % 60) as usize; Some(gen_45(&mut rng, n, 8 + (i % 30) as i64)) }, |s| check(s), drop_one);
}
