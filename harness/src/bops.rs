//! Bounded stand-ins and replay search for the polygon boolean operations.
use crate::common::*;
use crate::cross::{ep, integral};
use crate::ensure;
use crate::geomx::*;
use geo::{Coordinate, LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::BooleanOp;
use std::collections::BTreeSet;

pub type RingI = Vec<P>; // open: closing edge implied
pub type PolyI = Vec<RingI>; // exterior, holes...
#[derive(Clone, Debug)]
pub struct In {
    pub a: Vec<PolyI>,
    pub b: Vec<PolyI>,
}

fn ls(r: &RingI) -> LineString<f64> {
    let mut v: Vec<Coordinate<f64>> = r.iter().map(|p| Coordinate { x: p.0 as f64, y: p.1 as f64 }).collect();
    if let Some(f) = v.first().copied() { v.push(f); }
    LineString(v)
}
pub fn to_mp(ps: &[PolyI]) -> MultiPolygon<f64> {
    MultiPolygon(ps.iter().map(|p| Polygon::new(ls(&p[0]), p[1..].iter().map(ls).collect())).collect())
}
pub fn edges(ps: &[PolyI]) -> Vec<Seg> {
    let mut v = vec![];
    for p in ps { for r in p {
        if r.len() < 3 { continue; }
        for i in 0..r.len() { let s = Seg::norm(r[i], r[(i + 1) % r.len()]); if !s.is_point() { v.push(s); } }
    } }
    v
}
/// point given in quarter units (coordinates multiplied by 4)
fn evenodd(es: &[Seg], q: P) -> Option<bool> {
    let mut c = false;
    for e in es {
        let a = (e.0 .0 * 4, e.0 .1 * 4);
        let b = (e.1 .0 * 4, e.1 .1 * 4);
        if on_seg(Seg::norm(a, b), q) { return None; }
        if (a.1 > q.1) != (b.1 > q.1) {
            // crossing to the right of q?
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if orient(lo, hi, q) > 0 { c = !c; }
        }
    }
    Some(c)
}
pub fn area2(r: &[P]) -> i128 {
    let mut s = 0i128;
    for i in 0..r.len() { let (p, q) = (r[i], r[(i + 1) % r.len()]); s += p.0 as i128 * q.1 as i128 - p.1 as i128 * q.0 as i128; }
    s
}
fn op_of(t: OpType, x: bool, y: bool) -> bool {
    match t { OpType::Intersection => x && y, OpType::Union => x || y, OpType::Difference => x && !y, OpType::Xor => x != y }
}
pub const OPS: [OpType; 4] = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor];

/// Rings of a result in integer coordinates (closed, closing point dropped).
pub fn ring_i(l: &LineString<f64>) -> Result<RingI, Fail> {
    let v: Vec<P> = l.0.iter().map(|c| ep(*c)).collect::<Result<_, _>>()?;
    if v.len() < 4 || v.first() != v.last() { return fail(format!("result ring is not a closed ring: {:?}", v)); }
    let v = v[..v.len() - 1].to_vec();
    let uniq: BTreeSet<P> = v.iter().copied().collect();
    ensure!(uniq.len() == v.len(), "result ring visits a vertex twice: {:?}", v);
    Ok(v)
}

fn get_ring(l: &LineString<f64>, strict: bool) -> Result<RingI, Fail> {
    if strict { return ring_i(l); }
    let mut v: Vec<P> = l.0.iter().map(|c| ep(*c)).collect::<Result<_, _>>()?;
    if v.first() == v.last() { v.pop(); }
    Ok(v)
}
pub fn samples(input: &In, extra: u64, rng: &mut Rng) -> Vec<P> {
    let es: Vec<Seg> = edges(&input.a).into_iter().chain(edges(&input.b)).collect();
    let (mut x0, mut x1, mut y0, mut y1) = (i64::MAX, i64::MIN, i64::MAX, i64::MIN);
    for e in &es { for p in [e.0, e.1] { x0 = x0.min(p.0); x1 = x1.max(p.0); y0 = y0.min(p.1); y1 = y1.max(p.1); } }
    if es.is_empty() { return vec![(0, 0)]; }
    let mut v = vec![];
    if x1 - x0 <= 24 && y1 - y0 <= 24 {
        // four points of every cell of side 2: constant on arrangements of
        // axis-parallel and diagonal edges through even points
        let mut x = x0 - 2;
        while x <= x1 { let mut y = y0 - 2; while y <= y1 {
            for (dx, dy) in [(4, 2), (4, 6), (2, 4), (6, 4)] { v.push((4 * x + dx, 4 * y + dy)); }
            y += 2; } x += 2; }
    }
    for _ in 0..extra { v.push((rng.range(4 * x0 - 4, 4 * x1 + 4), rng.range(4 * y0 - 4, 4 * y1 + 4))); }
    // near the vertices
    for e in &es { for p in [e.0, e.1] { for d in [(1, 2), (-1, 2), (2, -1), (-2, -1)] { v.push((4 * p.0 + d.0, 4 * p.1 + d.1)); } } }
    v
}

pub fn check_bops(input: &In, rings: bool) -> Res {
    let (ea, eb) = (edges(&input.a), edges(&input.b));
    let mut rng = Rng::new(7);
    let pts = samples(input, 80, &mut rng);
    let (ma, mb) = (to_mp(&input.a), to_mp(&input.b));
    let mut areas = vec![];
    for t in OPS {
        let r = guard_op(t, || if input.a.len() == 1 && input.b.len() == 1 {
            // polygon entry points
            match t { OpType::Intersection => ma.0[0].intersection(&mb.0[0]), OpType::Union => ma.0[0].union(&mb.0[0]), OpType::Xor => ma.0[0].xor(&mb.0[0]), OpType::Difference => ma.0[0].difference(&mb.0[0]) }
        } else {
            match t { OpType::Intersection => ma.intersection(&mb), OpType::Union => ma.union(&mb), OpType::Xor => ma.xor(&mb), OpType::Difference => ma.difference(&mb) }
        })?;
        let mut polys: Vec<(Vec<Seg>, Vec<Vec<Seg>>)> = vec![];
        let mut area = 0i128;
        for p in &r.0 {
            let ext = get_ring(p.exterior(), rings)?;
            ensure!(!rings || area2(&ext) != 0, "{:?}: degenerate exterior ring {:?}", t, ext);
            area += area2(&ext).abs();
            let mut hs = vec![];
            for h in p.interiors() {
                let h = get_ring(h, rings)?;
                ensure!(!rings || area2(&h) != 0, "{:?}: degenerate hole {:?}", t, h);
                area -= area2(&h).abs();
                hs.push(edges(&[vec![h]]));
            }
            polys.push((edges(&[vec![ext]]), hs));
        }
        for q in &pts {
            let (Some(x), Some(y)) = (evenodd(&ea, *q), evenodd(&eb, *q)) else { continue };
            let want = op_of(t, x, y);
            let mut n = 0;
            for (e, hs) in &polys {
                let Some(inside) = evenodd(e, *q) else { if rings { return fail(format!("{:?}: result boundary through a point off all input edges: {:?}/4", t, q)) } else { continue } };
                let mut holes = 0;
                for h in hs {
                    let Some(i) = evenodd(h, *q) else { if rings { return fail(format!("{:?}: result boundary through a point off all input edges: {:?}/4", t, q)) } else { continue } };
                    holes += i as u32;
                }
                if rings {
                    ensure!(holes == 0 || inside, "{:?}: point {:?}/4 is in a hole but outside the exterior that owns the hole", t, q);
                    ensure!(holes <= 1, "{:?}: point {:?}/4 is in two holes of one polygon", t, q);
                }
                n += (inside && holes == 0) as u32;
            }
            ensure!(rings || n == want as u32, "{:?}: point {:?}/4 (in A: {}, in B: {}) is covered by {} polygons of the result", t, q, x, y, n);
            ensure!(!rings || n <= 1, "{:?}: point {:?}/4 is covered by {} polygons of the result", t, q, n);
        }
        if !rings { areas.push(area); continue; }
        // every result edge lies on input edges
        for (e, hs) in &polys { for s in e.iter().chain(hs.iter().flatten()) {
            ensure!(covered(*s, &ea, &eb), "{:?}: result edge {:?} does not run along input edges", t, s);
        } }
        areas.push(area);
    }
    ensure!(rings || areas[3] == areas[1] - areas[0], "area(xor) != area(union) - area(intersection): {:?}", areas);
    Ok(())
}
fn covered(s: Seg, ea: &[Seg], eb: &[Seg]) -> bool {
    let mut at = s.0;
    loop {
        if at >= s.1 { return true; }
        let mut best = at;
        for e in ea.iter().chain(eb) {
            if orient(s.0, s.1, e.0) == 0 && orient(s.0, s.1, e.1) == 0 && e.0 <= at && e.1 > best { best = e.1; }
        }
        if best == at { return false; }
        at = best;
    }
}
fn guard_op<T>(t: OpType, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let mut out = None;
    guarded(|| { out = Some(f()); Ok(()) }).map_err(|e| Fail { msg: format!("{:?}: {}", t, e.msg), known: None })?;
    Ok(out.unwrap())
}

// ------------------------------------------------------------ generators
fn rect(x: i64, y: i64, w: i64, h: i64) -> RingI { vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)] }
fn diamond(x: i64, y: i64, r: i64) -> RingI { vec![(x - r, y), (x, y - r), (x + r, y), (x, y + r)] }
fn tri45(rng: &mut Rng, x: i64, y: i64, s: i64) -> RingI {
    let d = [(1, 1), (1, -1), (-1, 1), (-1, -1)][rng.below(4) as usize];
    vec![(x, y), (x + d.0 * s, y), (x, y + d.1 * s)]
}
fn rev(rng: &mut Rng, mut r: RingI) -> RingI {
    if rng.chance(1, 2) { r.reverse(); }
    let k = rng.below(r.len() as u64) as usize;
    r.rotate_left(k);
    if rng.chance(1, 8) { let at = rng.below(r.len() as u64) as usize; r.insert(at, r[at]); } // a vertex repeated
    r
}
/// random rectilinear histogram-like simple polygon
fn stairs(rng: &mut Rng, k: i64) -> RingI {
    let n = 2 + rng.below(3) as i64;
    let mut xs: Vec<i64> = (0..=n).map(|_| 2 * rng.range(0, k)).collect();
    xs.sort(); xs.dedup();
    if xs.len() < 2 { return rect(0, 0, 2, 2); }
    let base = 2 * rng.range(0, k / 2);
    let mut r = vec![(xs[0], base)];
    r.push((*xs.last().unwrap(), base));
    for i in (1..xs.len()).rev() {
        let h = base + 2 * rng.range(1, k);
        r.push((xs[i], h));
        r.push((xs[i - 1], h));
    }
    r.dedup();
    r
}
const NSHAPES: u64 = 10;
fn shape(rng: &mut Rng, k: i64) -> PolyI {
    let x = 2 * rng.range(0, k); let y = 2 * rng.range(0, k);
    match rng.below(NSHAPES) {
        0 | 1 => vec![rect(x, y, 2 * rng.range(1, k), 2 * rng.range(1, k))],
        2 => vec![diamond(x, y, 2 * rng.range(1, k))],
        3 => { let s = 2 * rng.range(1, k); vec![tri45(rng, x, y, s)] }
        4 => vec![stairs(rng, k)],
        5 => { // rect with a hole (possibly touching)
            let (w, h) = (2 * rng.range(3, k + 2), 2 * rng.range(3, k + 2));
            let hx = 2 * rng.range(1, w / 2 - 2); let hy = 2 * rng.range(1, h / 2 - 2);
            vec![rect(x, y, w, h), rect(x + hx, y + hy, 2 * rng.range(1, (w - hx) / 2 - 1), 2 * rng.range(1, (h - hy) / 2 - 1))]
        }
        6 => { // two holes
            vec![rect(x, y, 14, 6), rect(x + 2, y + 2, 2, 2), rect(x + 6, y + 2, 2 * rng.range(1, 3), 2)]
        }
        8 => { // a triangular hole, possibly touching the boundary in a corner, in a rectangle or a diamond
            let s = 2 * rng.range(1, 2);
            if rng.chance(1, 2) { vec![rect(x, y, 12, 12), tri45(rng, x + 6, y + 6, s + 2)] } else { vec![diamond(x, y, 10), tri45(rng, x + 1, y + 1, s)] }
        }
        7 => { // diamond with diamond hole
            let r = 2 * rng.range(2, k + 1);
            vec![diamond(x, y, r), diamond(x, y, 2 * rng.range(1, r / 2 - 1))]
        }
        _ => { // arbitrary closed walk: axis or diagonal (self-touching allowed)
            let n = 3 + rng.below(4);
            let mut r = vec![(x, y)];
            for _ in 0..n {
                let l = *r.last().unwrap();
                let d = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)][rng.below(8) as usize];
                let s = 2 * rng.range(1, k);
                r.push((l.0 + d.0 * s, l.1 + d.1 * s));
            }
            // close with an axis path
            let l = *r.last().unwrap();
            if l.0 != x && l.1 != y { r.push((x, l.1)); }
            if r.last() == r.first() { r.pop(); }
            if r.len() < 3 { return vec![rect(x, y, 2, 2)]; }
            vec![r]
        }
    }
}
pub fn gen45(rng: &mut Rng, k: i64, na: u64, nb: u64) -> In {
    let mut side = |n: u64| -> Vec<PolyI> { (0..n).map(|_| { let s = shape(rng, k); s.into_iter().map(|r| rev(rng, r)).collect() }).collect() };
    let a = side(na);
    let b = side(nb);
    In { a, b }
}
pub fn gen_general(rng: &mut Rng, k: i64) -> Option<In> {
    let scale = 420;
    for _ in 0..400 {
        let mut tri = |n: usize| -> PolyI { vec![(0..n).map(|_| (scale * rng.range(0, k), scale * rng.range(0, k))).collect()] };
        let i = In { a: vec![tri(3)], b: vec![tri(3)] };
        let es: Vec<(P, P)> = edges(&i.a).into_iter().chain(edges(&i.b)).map(|s| (s.0, s.1)).collect();
        if integral(&es) && i.a[0][0].iter().collect::<BTreeSet<_>>().len() == 3 && i.b[0][0].iter().collect::<BTreeSet<_>>().len() == 3 { return Some(i); }
    }
    None
}
pub fn shrink(i: &In) -> Vec<In> {
    let mut out = vec![];
    for s in 0..2 {
        let v = if s == 0 { &i.a } else { &i.b };
        let put = |w: Vec<PolyI>| if s == 0 { In { a: w, b: i.b.clone() } } else { In { a: i.a.clone(), b: w } };
        if v.len() > 1 { for k in 0..v.len() { let mut w = v.clone(); w.remove(k); out.push(put(w)); } }
        for k in 0..v.len() {
            for h in 1..v[k].len() { let mut w = v.clone(); w[k].remove(h); out.push(put(w)); }
            for h in 0..v[k].len() { if v[k][h].len() > 3 { for q in 0..v[k][h].len() { let mut w = v.clone(); w[k][h].remove(q); out.push(put(w)); } } }
        }
    }
    out.retain(|j| j.a.iter().chain(&j.b).flatten().all(|r| r.len() >= 3 && all45(r)));
    out
}
fn all45(r: &RingI) -> bool {
    (0..r.len()).all(|i| { let (p, q) = (r[i], r[(i + 1) % r.len()]); let (dx, dy) = (q.0 - p.0, q.1 - p.1); dx == 0 || dy == 0 || dx.abs() == dy.abs() })
}
pub fn run_families(ctx: &mut Ctx, check: &dyn Fn(&In) -> Res) {
    let mut rng = ctx.rng(11);
    ctx.family("pair-of-polygons-45", 2_000_000, 0.45, |i| Some(gen45(&mut rng, 2 + (i % 3) as i64, 1, 1)), |s| check(s), shrink0);
    let mut rng = ctx.rng(12);
    ctx.family("multi-polygons-45", 2_000_000, 0.6, |i| Some(gen45(&mut rng, 2 + (i % 5) as i64, 1 + i % 3, 1 + i / 3 % 4)), |s| check(s), shrink0);
    let mut rng = ctx.rng(13);
    ctx.family("triangles-general-slopes", 2_000_000, 1.0, |i| gen_general(&mut rng, 3 + (i % 3) as i64), |s| check(s), |_| vec![]);
}
/// drop whole polygons or holes only
pub fn shrink0(i: &In) -> Vec<In> {
    let n = |j: &In| j.a.iter().chain(&j.b).flatten().map(|r| r.len()).sum::<usize>();
    let rings = |j: &In| j.a.iter().chain(&j.b).map(|r| r.len()).sum::<usize>();
    let _ = n;
    shrink(i).into_iter().filter(|j| rings(j) < rings(i)).collect()
}
