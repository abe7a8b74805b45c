//! Bounded stand-ins and replay search for the monotone decomposition, the
//! monotone polygon conversions, the scan-line cursor and the rasteriser.
use crate::bops::{area2, edges, PolyI, RingI};
use crate::common::*;
use crate::cross::ep;
use crate::ensure;
use crate::geomx::*;
use geo::prelude::BoundingRect;
use geo::{Coordinate, LineString, Polygon};
use geo_crossings::monotone::{MonoPoly, Trapz};
use geo_crossings::monotone_chains;
use std::collections::BTreeSet;

fn ls_closed(r: &[P]) -> LineString<f64> {
    let mut v: Vec<Coordinate<f64>> = r.iter().map(|p| Coordinate { x: p.0 as f64, y: p.1 as f64 }).collect();
    let f = v[0];
    v.push(f);
    LineString(v)
}
fn ls_open(r: &[P]) -> LineString<f64> {
    LineString(r.iter().map(|p| Coordinate { x: p.0 as f64, y: p.1 as f64 }).collect())
}
pub fn to_poly(p: &PolyI) -> Polygon<f64> {
    Polygon::new(ls_closed(&p[0]), p[1..].iter().map(|r| ls_closed(r)).collect())
}
fn pts(l: &LineString<f64>) -> Result<Vec<P>, Fail> {
    l.0.iter().map(|c| ep(*c)).collect()
}
/// even-odd in quarter units; None on an edge
fn inside(es: &[Seg], q: P) -> Option<bool> {
    let mut c = false;
    for e in es {
        let (a, b) = ((e.0 .0 * 4, e.0 .1 * 4), (e.1 .0 * 4, e.1 .1 * 4));
        if on_seg(Seg(a, b), q) { return None; }
        if (a.1 > q.1) != (b.1 > q.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if orient(lo, hi, q) > 0 { c = !c; }
        }
    }
    Some(c)
}

/// Is the polygon valid: simple disjoint rings, holes inside the exterior.
pub fn valid(p: &PolyI) -> bool {
    let mut segs: Vec<(usize, usize, usize, Seg)> = vec![];
    let mut seen = BTreeSet::new();
    for (ri, r) in p.iter().enumerate() {
        if r.len() < 3 || area2(r) == 0 { return false; }
        for i in 0..r.len() {
            if !seen.insert(r[i]) { return false; }
            segs.push((ri, i, r.len(), Seg::norm(r[i], r[(i + 1) % r.len()])));
        }
    }
    for a in 0..segs.len() {
        for b in 0..a {
            let (ra, ia, n, sa) = segs[a];
            let (rb, ib, _, sb) = segs[b];
            match isect(sa, sb) {
                Isect::None => {}
                Isect::Pt(q) => {
                    let adj = ra == rb && ((ia + 1) % n == ib || (ib + 1) % n == ia);
                    if !adj || !(q == sa.0 || q == sa.1) || !(q == sb.0 || q == sb.1) { return false; }
                }
                _ => return false,
            }
        }
    }
    let ext = edges(&[vec![p[0].clone()]]);
    for (i, h) in p.iter().enumerate().skip(1) {
        let q = (h[0].0 * 4, h[0].1 * 4);
        if inside(&ext, q) != Some(true) { return false; }
        for (j, g) in p.iter().enumerate().skip(1) {
            if i != j && inside(&edges(&[vec![g.clone()]]), q) == Some(true) { return false; }
        }
    }
    true
}

pub fn check_decomposition(p: &PolyI) -> Res {
    let es = edges(std::slice::from_ref(p));
    let verts: BTreeSet<P> = p.iter().flatten().copied().collect();
    let pieces = monotone_chains(&to_poly(p));
    // repeated vertices change nothing; neither does another scalar type
    let key = p.iter().flatten().map(|q| 3 * q.0 + 5 * q.1).sum::<i64>() + p.len() as i64;
    let same = |what: &str, got: Vec<(Vec<P>, Vec<P>)>| -> Res {
        let want: Vec<(Vec<P>, Vec<P>)> = pieces.iter().map(|m| Ok((pts(m.top())?, pts(m.bot())?))).collect::<Result<_, Fail>>()?;
        ensure!(sorted(&got) == sorted(&want), "{what} the pieces are {:?}, not {:?}", got, want);
        Ok(())
    };
    match key.rem_euclid(5) {
        0 => {
            let dup: PolyI = p.iter().map(|r| r.iter().enumerate().flat_map(|(i, q)| vec![*q; if (i as i64 + key).rem_euclid(3) == 0 { 2 } else { 1 }]).collect()).collect();
            let got = monotone_chains(&to_poly(&dup));
            let mut area = 0i128;
            for m in &got { let (t, b) = (pts(m.top())?, pts(m.bot())?); check_chains(&t, &b)?; let mut r = t.clone(); r.extend(b.iter().rev().skip(1)); r.pop(); area -= area2(&r); }
            ensure!(area == want_area(p), "with repeated vertices the pieces add up to {} (doubled), the polygon has {}: {:?}", area, want_area(p), dup);
        }
        1 => same("with f32 coordinates", monotone_chains(&poly_t(p, |v| v as f32)).iter().map(|m| (m.top().0.iter().map(|c| (c.x as i64, c.y as i64)).collect(), m.bot().0.iter().map(|c| (c.x as i64, c.y as i64)).collect())).collect())?,
        2 => same("with i64 coordinates", monotone_chains(&poly_t(p, |v| v)).iter().map(|m| (m.top().0.iter().map(|c| (c.x, c.y)).collect(), m.bot().0.iter().map(|c| (c.x, c.y)).collect())).collect())?,
        _ => {}
    }
    let want: i128 = area2(&p[0]).abs() - p[1..].iter().map(|h| area2(h).abs()).sum::<i128>();
    let mut got = 0i128;
    let mut rings = vec![];
    for m in pieces {
        let (t, b) = (pts(m.top())?, pts(m.bot())?);
        check_chains(&t, &b)?;
        ensure!(t.iter().chain(&b).all(|q| verts.contains(q)), "piece uses a point that is no vertex of the polygon: {:?} / {:?}", t, b);
        let ring = into_ring(m, &t, &b)?;
        // top is above bottom: ring (top then reversed bottom) is clockwise
        let a = area2(&ring);
        ensure!(a < 0, "piece with top below bottom or empty: {:?} / {:?}", t, b);
        got += -a;
        rings.push(edges(&[vec![ring]]));
    }
    ensure!(got == want, "areas of the pieces add up to {} (doubled), polygon has {}", got, want);
    let (mut x0, mut x1, mut y0, mut y1) = (i64::MAX, i64::MIN, i64::MAX, i64::MIN);
    for q in &p[0] { x0 = x0.min(q.0); x1 = x1.max(q.0); y0 = y0.min(q.1); y1 = y1.max(q.1); }
    let mut rng = Rng::new(5);
    for k in 0..60 {
        let q = if k < 30 { (rng.range(4 * x0 - 4, 4 * x1 + 4), rng.range(4 * y0 - 4, 4 * y1 + 4)) } else {
            let all: Vec<P> = verts.iter().copied().collect();
            let v = all[rng.below(all.len() as u64) as usize];
            (4 * v.0 + rng.range(-3, 3), 4 * v.1 + rng.range(-3, 3))
        };
        let Some(w) = inside(&es, q) else { continue };
        let mut n = 0;
        let mut edge = false;
        for r in &rings { match inside(r, q) { None => edge = true, Some(i) => n += i as u32 } }
        if !edge { ensure!(n == w as u32, "point {:?}/4 (inside polygon: {}) is in {} pieces", q, w, n); }
    }
    Ok(())
}
fn want_area(p: &PolyI) -> i128 {
    area2(&p[0]).abs() - p[1..].iter().map(|h| area2(h).abs()).sum::<i128>()
}
fn sorted<X: Ord + Clone>(v: &[X]) -> Vec<X> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn poly_t<T: geo::GeoNum>(p: &PolyI, of: fn(i64) -> T) -> Polygon<T> {
    let ring = |r: &RingI| -> LineString<T> { r.iter().chain(r.first()).map(|q| Coordinate { x: of(q.0), y: of(q.1) }).collect() };
    Polygon::new(ring(&p[0]), p[1..].iter().map(ring).collect())
}
fn check_chains(t: &[P], b: &[P]) -> Res {
    ensure!(t.len() >= 2 && b.len() >= 2 && t[0] == b[0] && t.last() == b.last(), "chains of a piece do not share their ends: {:?} / {:?}", t, b);
    ensure!(t.windows(2).all(|w| w[0] < w[1]) && b.windows(2).all(|w| w[0] < w[1]), "chain not strictly increasing: {:?} / {:?}", t, b);
    Ok(())
}
fn into_ring(m: MonoPoly<f64>, t: &[P], b: &[P]) -> Result<RingI, Fail> {
    let c = m.clone();
    let (lt, lb) = c.into_ls_pair();
    ensure!(pts(&lt)? == t && pts(&lb)? == b, "into_ls_pair does not return the chains");
    let poly = m.into_polygon();
    ensure!(poly.interiors().is_empty(), "into_polygon made holes");
    let r = pts(poly.exterior())?;
    let mut want: Vec<P> = t.to_vec();
    want.extend(b.iter().rev().skip(1));
    ensure!(r == want, "into_polygon: ring {:?}, expected {:?}", r, want);
    let mut r = r;
    r.pop();
    Ok(r)
}

/// A random monotone polygon in integer coordinates: top chain, bottom chain.
#[derive(Clone, Debug)]
pub struct MonoIn {
    pub t: Vec<P>,
    pub b: Vec<P>,
    pub cuts: Vec<i64>, // scan positions in quarter units
    pub win: (i64, i64),
    pub height: usize,
}
fn mono(m: &MonoIn) -> MonoPoly<f64> {
    MonoPoly::new(ls_open(&m.t), ls_open(&m.b))
}
pub fn check_monopoly(m: &MonoIn) -> Res {
    let p = mono(m);
    ensure!(pts(p.top())? == m.t && pts(p.bot())? == m.b, "MonoPoly::new altered the chains");
    let r = p.bounding_rect();
    let ys = || m.t.iter().chain(&m.b).map(|q| q.1);
    let want = (m.t[0].0 as f64, ys().min().unwrap() as f64, m.t.last().unwrap().0 as f64, ys().max().unwrap() as f64);
    ensure!((r.min().x, r.min().y, r.max().x, r.max().y) == want, "bounding_rect {:?}, expected {:?}", r, want);
    into_ring(p, &m.t, &m.b)?;
    // malformed chains are refused
    for bad in malformed(m) {
        let r = std::panic::catch_unwind(|| MonoPoly::new(ls_open(&bad.0), ls_open(&bad.1)));
        ensure!(r.is_err(), "MonoPoly::new accepted malformed chains {:?}", bad);
    }
    Ok(())
}
fn malformed(m: &MonoIn) -> Vec<(Vec<P>, Vec<P>)> {
    let mut v = vec![];
    let mut t = m.t.clone(); t[0].1 += 1; v.push((t, m.b.clone()));
    let mut b = m.b.clone(); let n = b.len(); b[n - 1].1 += 1; v.push((m.t.clone(), b));
    if m.t.len() > 2 { let mut t = m.t.clone(); t[1].0 = t[0].0 - 1; v.push((t, m.b.clone())); let mut t = m.t.clone(); t[1] = t[0]; v.push((t, m.b.clone())); }
    if m.b.len() > 2 { let mut b = m.b.clone(); let n = b.len(); b[n - 2].0 = b[n - 1].0 + 1; v.push((m.t.clone(), b)); }
    v
}
/// y range of a chain over vertical line x (in f64): (low, high)
fn chain_at(c: &[P], x: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for w in c.windows(2) {
        let (a, b) = (w[0], w[1]);
        if (a.0 as f64) <= x && x <= b.0 as f64 {
            if a.0 == b.0 { lo = lo.min(a.1.min(b.1) as f64); hi = hi.max(a.1.max(b.1) as f64); }
            else {
                let y = a.1 as f64 + (x - a.0 as f64) / (b.0 - a.0) as f64 * (b.1 - a.1) as f64;
                lo = lo.min(y); hi = hi.max(y);
            }
        }
    }
    (lo, hi)
}
/// y of a chain just right / left of x
fn chain_side(c: &[P], x: f64, right: bool) -> f64 {
    for w in c.windows(2) {
        let (a, b) = ((w[0].0 as f64, w[0].1 as f64), (w[1].0 as f64, w[1].1 as f64));
        if a.0 == b.0 { continue; }
        let ok = if right { a.0 <= x && x < b.0 } else { a.0 < x && x <= b.0 };
        if ok { return a.1 + (x - a.0) / (b.0 - a.0) * (b.1 - a.1); }
    }
    f64::NAN
}
const EPS: f64 = 1e-9;
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= EPS * (1. + a.abs().max(b.abs())) }

pub fn check_scanner(m: &MonoIn) -> Res {
    let p = mono(m);
    let (x0, x1) = (m.t[0].0 as f64, m.t.last().unwrap().0 as f64);
    for mode in 0..2 {
        let mut cuts: Vec<f64> = m.cuts.iter().map(|c| *c as f64 / 4.).collect();
        cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let first = cuts[0];
        let mut sc = p.scan_lines(first);
        let mut at = first.max(x0).min(x1);
        ensure!(near(sc.curr().x, at), "scan_lines({}) starts at {}, expected {}", first, sc.curr().x, at);
        for c in cuts[1..].iter().chain([x1, x1 + 1.].iter()) {
            let mut v: Vec<Trapz<f64>> = vec![];
            if mode == 0 { v.extend(sc.advance_to(*c)); } else { sc.advance_upto(*c, |t| v.push(t)); }
            let end = c.max(at).min(x1);
            let mut x = at;
            for t in &v {
                ensure!(t.left.x == x, "trapezoids not contiguous: {:?} after x = {}", t, x);
                ensure!(t.left.x < t.right.x, "degenerate trapezoid {:?}", t);
                ensure!(t.left.top >= t.left.bot && t.right.top >= t.right.bot, "top below bottom in {:?}", t);
                for (q, right) in [(t.left, true), (t.right, false)] {
                    let (ht, hb) = (chain_side(&m.t, q.x, right), chain_side(&m.b, q.x, right));
                    ensure!(near(q.top, ht) && near(q.bot, hb), "{:?} off the chains at x = {}: expected top {} bot {}", t, q.x, ht, hb);
                }
                let mid = (t.left.x + t.right.x) / 2.;
                let (lo, _) = chain_at(&m.t, mid);
                let (lb, _) = chain_at(&m.b, mid);
                ensure!(near(lo, (t.left.top + t.right.top) / 2.) && near(lb, (t.left.bot + t.right.bot) / 2.), "{:?} is not straight along the chains", t);
                let a = t.area();
                ensure!(near(a, ((t.left.top - t.left.bot) + (t.right.top - t.right.bot)) / 2. * (t.right.x - t.left.x)), "area of {:?} = {}", t, a);
                x = t.right.x;
            }
            ensure!(near(x, end), "scanned to {} instead of {} (advance to {})", x, end, c);
            ensure!(sc.curr().x == x || v.is_empty(), "curr() = {:?} after {}", sc.curr(), x);
            at = x;
        }
    }
    Ok(())
}
fn clip_area(ring: &[(f64, f64)], x0: f64, x1: f64, y0: f64, y1: f64) -> f64 {
    let mut v = ring.to_vec();
    for k in 0..4 {
        let ins = |p: (f64, f64)| match k { 0 => p.0 >= x0, 1 => p.0 <= x1, 2 => p.1 >= y0, _ => p.1 <= y1 };
        let cut = |p: (f64, f64), q: (f64, f64)| -> (f64, f64) { match k {
            0 | 1 => { let x = if k == 0 { x0 } else { x1 }; let t = (x - p.0) / (q.0 - p.0); (x, p.1 + t * (q.1 - p.1)) }
            _ => { let y = if k == 2 { y0 } else { y1 }; let t = (y - p.1) / (q.1 - p.1); (p.0 + t * (q.0 - p.0), y) } } };
        let mut o = vec![];
        for i in 0..v.len() { let (p, q) = (v[i], v[(i + 1) % v.len()]); if ins(p) { o.push(p); } if ins(p) != ins(q) { o.push(cut(p, q)); } }
        v = o;
        if v.is_empty() { return 0.; }
    }
    let mut s = 0.;
    for i in 0..v.len() { let (p, q) = (v[i], v[(i + 1) % v.len()]); s += p.0 * q.1 - p.1 * q.0; }
    (s / 2.).abs()
}
pub fn check_raster(m: &MonoIn) -> Res {
    let p = mono(m);
    let (x0, x1) = (m.t[0].0 as f64, m.t.last().unwrap().0 as f64);
    let mut ring: Vec<(f64, f64)> = m.t.iter().map(|q| (q.0 as f64, q.1 as f64)).collect();
    ring.extend(m.b.iter().rev().skip(1).map(|q| (q.0 as f64, q.1 as f64)));
    ring.pop();
    let mut cuts: Vec<f64> = m.cuts.iter().map(|c| *c as f64 / 4.).collect();
    cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    cuts.dedup();
    let (lo, hi) = (m.win.0 as f64, m.win.1 as f64);
    let h = (hi - lo) / m.height as f64;
    let (mut s1, mut s2, mut s3) = (p.scan_lines(cuts[0]), p.scan_lines(cuts[0]), p.scan_lines(cuts[0]));
    for w in cuts.windows(2) {
        let (l, r) = (w[0], w[1]);
        let mut v: Vec<Trapz<f64>> = vec![];
        {
            // trapezoids of this column from an independent cursor
            let mut sc = p.scan_lines(l);
            v.extend(sc.advance_to(r));
        }
        let f = |g: &dyn Fn(&Trapz<f64>) -> f64, mx: bool| v.iter().map(|t| g(t)).fold(if mx { f64::NEG_INFINITY } else { f64::INFINITY }, |a, b| if mx { a.max(b) } else { a.min(b) });
        let top_max = f(&|t| t.left.top.max(t.right.top), true);
        let top_min = f(&|t| t.left.top.min(t.right.top), false);
        let bot_min = f(&|t| t.left.bot.min(t.right.bot), false);
        let bot_max = f(&|t| t.left.bot.max(t.right.bot), true);
        let none = top_max <= bot_min || top_max <= lo || bot_min >= hi;
        let b = s1.cross_bounds(r, lo, hi, m.height);
        let u = s2.cross_ubounds(r, lo, hi, m.height);
        if none {
            ensure!(b.is_none(), "cross_bounds {:?} for an empty column", b);
            ensure!(u == (m.height, 0), "cross_ubounds {:?} for an empty column", u);
        } else {
            let Some((j0, j1, bm, tm)) = b else { return fail(format!("cross_bounds None although the column [{}, {}] is crossed", l, r)) };
            ensure!(u == (j0, j1), "cross_ubounds {:?} differs from cross_bounds {:?}", u, (j0, j1));
            ensure!(j0 <= j1 && j1 < m.height, "rows {}..={} out of range (height {})", j0, j1, m.height);
            ensure!(near(bm, bot_max) && near(tm, top_min), "cross_bounds inner bounds {:?}, expected {:?}", (bm, tm), (bot_max, top_min));
            let (cl, ch) = (bot_min.max(lo), top_max.min(hi));
            // rows are those crossed by [cl, ch], up to rounding at a row boundary
            let (e0, e1) = ((cl - lo) / h, (ch - lo) / h);
            ensure!((j0 as f64) <= e0 + EPS && e0 - EPS <= j0 as f64 + 1., "first row {} for offset {}", j0, e0);
            ensure!(((j1 as f64) <= e1 + EPS && e1 - EPS <= j1 as f64 + 1.) || (j1 == m.height - 1 && e1 >= j1 as f64), "last row {} for offset {}", j1, e1);
            if (e0 - e0.round()).abs() < EPS && (e0.round() as usize) < m.height && e0 == e0.round() && h.fract() == 0. { ensure!(j0 == e0 as usize, "first row {} for offset {}", j0, e0); }
            // the rows cover everything inside the window
            ensure!(lo + j0 as f64 * h <= cl + EPS && lo + (j1 + 1) as f64 * h >= ch - EPS, "rows {}..={} do not cover [{}, {}]", j0, j1, cl, ch);
        }
        let mut arr = vec![0.0; m.height];
        let base: Vec<f64> = (0..m.height).map(|j| j as f64 * 0.5).collect();
        arr.copy_from_slice(&base);
        s3.cross_area(r, lo, hi, &mut arr);
        for j in 0..m.height {
            let want = clip_area(&ring, l.max(x0), r.min(x1).max(l.max(x0)), lo + j as f64 * h, lo + (j + 1) as f64 * h);
            let want = if l.max(x0) >= r.min(x1) { 0. } else { want };
            ensure!((arr[j] - base[j] - want).abs() < 1e-7 * (1. + want), "cross_area row {} of column [{}, {}]: added {}, expected {}", j, l, r, arr[j] - base[j], want);
        }
        ensure!(s1.curr() == s3.curr() && s2.curr() == s3.curr(), "cursors diverge");
    }
    Ok(())
}

// ------------------------------------------------------------ generators
pub fn gen_mono(rng: &mut Rng, k: i64) -> Option<MonoIn> {
    let w = rng.range(1, k);
    let start = (0, rng.range(-2, 2));
    let end = (w * rng.range(1, 3), rng.range(-2, 2));
    let mut chain = |up: bool| -> Vec<P> {
        let n = rng.below(5);
        let mut v: Vec<P> = (0..n).map(|_| (rng.range(0, end.0), start.1 + if up { rng.range(-1, k) } else { -rng.range(-1, k) })).collect();
        v.sort(); v.dedup();
        v.retain(|q| *q > start && *q < end);
        let mut r = vec![start];
        r.extend(v);
        r.push(end);
        r
    };
    let (t, b) = (chain(true), chain(false));
    // valid: ring simple, clockwise
    let mut ring = t.clone();
    ring.extend(b.iter().rev().skip(1));
    ring.pop();
    if ring.len() < 3 || !valid(&vec![ring.clone()]) || area2(&ring) >= 0 { return None; }
    let cuts = (0..2 + rng.below(6)).map(|_| rng.range(-6, 4 * end.0 + 6)).collect();
    let lo = rng.range(-k - 2, 1);
    Some(MonoIn { t, b, cuts, win: (lo, lo + rng.range(1, 2 * k + 3)), height: 1 + rng.below(9) as usize })
}
/// random simple polygon on a grid (2-opt untangling), optional holes
pub fn gen_poly(rng: &mut Rng, n: usize, k: i64, holes: usize, axis: bool) -> Option<PolyI> {
    let mut r: RingI;
    if axis {
        // rectilinear: boundary of a random polyomino grown on a grid
        let cells = grow(rng, n.max(2), k);
        r = outline(&cells)?;
        if rng.chance(1, 3) { for q in r.iter_mut() { q.0 += q.1; } } // shear: no vertical edges
        else if rng.chance(1, 3) { for q in r.iter_mut() { *q = (q.1, q.0); } }
        for q in r.iter_mut() { *q = (q.0 * 12, q.1 * 12); }
    } else {
        let mut s = BTreeSet::new();
        for _ in 0..n { s.insert((rng.range(0, k) * 12, rng.range(0, k) * 12)); }
        r = s.into_iter().collect();
        for i in (1..r.len()).rev() { let j = rng.below(i as u64 + 1) as usize; r.swap(i, j); }
        untangle(&mut r)?;
    }
    if rng.chance(1, 2) { r.reverse(); }
    if !r.is_empty() { let q = rng.below(r.len() as u64) as usize; r.rotate_left(q); }
    let mut p = vec![r];
    if !valid(&p) { return None; }
    let (x1, y1) = p[0].iter().fold((i64::MIN, i64::MIN), |a, q| (a.0.max(q.0), a.1.max(q.1)));
    let (x0, y0) = p[0].iter().fold((i64::MAX, i64::MAX), |a, q| (a.0.min(q.0), a.1.min(q.1)));
    for _ in 0..holes {
        for _ in 0..12 {
            let c = (rng.range(x0, x1), rng.range(y0, y1));
            let m = 3 + rng.below(3);
            let s: BTreeSet<P> = (0..m).map(|_| (c.0 + rng.range(-5, 5), c.1 + rng.range(-5, 5))).collect();
            let mut h: RingI = s.into_iter().collect();
            if h.len() < 3 || untangle(&mut h).is_none() { continue; }
            if rng.chance(1, 2) { h.reverse(); }
            p.push(h);
            if valid(&p) { break; }
            p.pop();
        }
    }
    Some(p)
}
fn untangle(r: &mut RingI) -> Option<()> {
    let n = r.len();
    if n < 3 { return None; }
    for _ in 0..400 {
        let mut done = true;
        'f: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 { continue; }
                let (a, b) = (Seg::norm(r[i], r[i + 1]), Seg::norm(r[j], r[(j + 1) % n]));
                if isect(a, b) != Isect::None {
                    r[i + 1..=j].reverse();
                    done = false;
                    break 'f;
                }
            }
        }
        if done { return Some(()); }
    }
    None
}
fn grow(rng: &mut Rng, n: usize, k: i64) -> BTreeSet<P> {
    let mut c = BTreeSet::new();
    c.insert((0, 0));
    let mut t = 0;
    while c.len() < n && t < 100 * n {
        t += 1;
        let v: Vec<P> = c.iter().copied().collect();
        let q = v[rng.below(v.len() as u64) as usize];
        let d = [(1, 0), (-1, 0), (0, 1), (0, -1)][rng.below(4) as usize];
        let w = (q.0 + d.0, q.1 + d.1);
        if w.0.abs() <= k && w.1.abs() <= k { c.insert(w); }
    }
    c
}
/// outline of a polyomino if it is one simple ring
fn outline(c: &BTreeSet<P>) -> Option<RingI> {
    let mut next = std::collections::BTreeMap::new();
    for q in c {
        let (x, y) = *q;
        for (d, a, b) in [((0, -1), (x, y), (x + 1, y)), ((1, 0), (x + 1, y), (x + 1, y + 1)), ((0, 1), (x + 1, y + 1), (x, y + 1)), ((-1, 0), (x, y + 1), (x, y))] {
            if !c.contains(&(x + d.0, y + d.1)) && next.insert(a, b).is_some() { return None; }
        }
    }
    let s = *next.keys().next()?;
    let mut r = vec![s];
    let mut q = next[&s];
    while q != s { r.push(q); q = next[&q]; }
    if r.len() != next.len() { return None; }
    Some(r)
}
fn shrink_poly(p: &PolyI) -> Vec<PolyI> {
    let mut out = vec![];
    for h in 1..p.len() { let mut q = p.clone(); q.remove(h); out.push(q); }
    for h in 0..p.len() { for i in 0..p[h].len() { let mut q = p.clone(); q[h].remove(i); out.push(q); } }
    out.retain(|q| valid(q));
    out
}
fn shrink_mono(m: &MonoIn) -> Vec<MonoIn> {
    let mut out = vec![];
    for i in 0..m.cuts.len() { if m.cuts.len() > 2 { let mut q = m.clone(); q.cuts.remove(i); out.push(q); } }
    for i in 1..m.t.len() - 1 { let mut q = m.clone(); q.t.remove(i); out.push(q); }
    for i in 1..m.b.len() - 1 { let mut q = m.clone(); q.b.remove(i); out.push(q); }
    out.retain(|m| { let mut r = m.t.clone(); r.extend(m.b.iter().rev().skip(1)); r.pop(); r.len() >= 3 && valid(&vec![r.clone()]) && area2(&r) < 0 });
    out
}
pub fn run_poly(ctx: &mut Ctx, check: &dyn Fn(&PolyI) -> Res) {
    for (name, salt, share, axis, holes) in [("random-simple", 21, 0.3, false, 0), ("random-simple-with-holes", 22, 0.5, false, 3), ("rectilinear-and-sheared", 23, 0.5, true, 0), ("rectilinear-with-holes", 24, 1.0, true, 2)] {
        let mut rng = ctx.rng(salt);
        ctx.family(name, 1_000_000, share, |i| { loop { if let Some(p) = gen_poly(&mut rng, 3 + (i % 14) as usize, 2 + (i % 6) as i64, holes, axis) { return Some(p); } } }, |s| check(s), shrink_poly);
    }
}
pub fn run_mono(ctx: &mut Ctx, check: &dyn Fn(&MonoIn) -> Res) {
    let mut rng = ctx.rng(31);
    ctx.family("random-monotone", 3_000_000, 1.0, |i| { loop { if let Some(p) = gen_mono(&mut rng, 2 + (i % 6) as i64) { return Some(p); } } }, |s| check(s), shrink_mono);
}
