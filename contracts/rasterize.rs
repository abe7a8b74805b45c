//@@ global `for $x in $s . advance_to ( $*b ) { $*c }` => `loop { match $s . advance_to ( $*b ) { Some ( $x ) => { $*c } None => break , } }`
// ---- specifications: areas and rows ----
spec fn tarea<T: GeoNum>(t: Trapz<T>) -> real {
    ((t.left.top.v() - t.left.bot.v()) + (t.right.top.v() - t.right.bot.v())) / 2real * (t.right.x.v() - t.left.x.v())
}

spec fn total<T: GeoNum>(u: Seq<Trapz<T>>) -> real
    decreases u.len(),
{
    if u.len() == 0 {
        0real
    } else {
        total(u.drop_last()) + tarea(u.last())
    }
}

proof fn lemma_total<T: GeoNum>(u: Seq<Trapz<T>>, w: Seq<Trapz<T>>)
    requires
        u.len() == w.len(),
        forall|i: int| 0 <= i < u.len() ==> trapz(#[trigger] u[i]) == trapz(w[i]),
    ensures
        total(u) == total(w),
    decreases u.len(),
{
    if u.len() > 0 {
        let (u1, w1) = (u.drop_last(), w.drop_last());
        assert forall|i: int| 0 <= i < u1.len() implies trapz(#[trigger] u1[i]) == trapz(w1[i]) by {
            assert(u[i] == u1[i] && w[i] == w1[i]);
        }
        lemma_total(u1, w1);
        assert(trapz(u[u.len() - 1]) == trapz(w[u.len() - 1]));
    }
}

// row boundary j of a window from lo with rows of height s
#[verifier::opaque]
spec fn row(lo: real, s: real, j: int) -> real {
    lo + whole(j) * s
}

// y is in row j of n, counting what is outside the window to its first and last row
spec fn in_row(y: real, lo: real, s: real, n: int, j: int) -> bool {
    &&& 0 <= j < n
    &&& j == 0 || row(lo, s, j) <= y
    &&& j == n - 1 || y < row(lo, s, j + 1)
}

spec fn maxr(a: real, b: real) -> real {
    if a < b {
        b
    } else {
        a
    }
}

proof fn lemma_row(y: real, lo: real, s: real, q: real, n: int, f: int)
    requires
        s > 0real,
        q * s == y - lo,
        n >= 1,
        whole(f) <= minr(maxr(q, 0real), whole(n)) < whole(f + 1),
    ensures
        0 <= f <= n,
        in_row(y, lo, s, n, if f < n - 1 { f } else { n - 1 }),
{
    reveal(row);
    let j = if f < n - 1 { f } else { n - 1 };
    let c = minr(maxr(q, 0real), whole(n));
    if j > 0 {
        assert(whole(j) <= whole(f) && whole(f) <= c);
        assert(whole(j) * s <= q * s) by (nonlinear_arith)
            requires
                whole(j) <= q,
                s > 0real,
        ;
    }
    if j < n - 1 {
        assert(whole(j + 1) <= whole(n - 1));
        assert(q * s < whole(j + 1) * s) by (nonlinear_arith)
            requires
                q < whole(j + 1),
                s > 0real,
        ;
    }
}

proof fn lemma_rows(lo: real, s: real, i: int, j: int)
    requires
        s > 0real,
    ensures
        i < j ==> row(lo, s, i) < row(lo, s, j),
        row(lo, s, 0) == lo,
{
    reveal(row);
    assert(i < j ==> whole(i) * s < whole(j) * s) by (nonlinear_arith)
        requires
            s > 0real,
            i < j ==> whole(i) < whole(j),
    ;
    assert(whole(0) * s == 0real) by (nonlinear_arith)
        requires
            whole(0) == 0real,
    ;
}

// the rows end where the window ends
proof fn lemma_window(lo: real, hi: real, n: int)
    requires
        lo < hi,
        n >= 1,
    ensures
        (hi - lo) / whole(n) > 0real,
        row(lo, (hi - lo) / whole(n), n) == hi,
{
    reveal(row);
    let (d, m) = (hi - lo, whole(n));
    assert(m >= 1real);
    assert(d / m > 0real) by (nonlinear_arith)
        requires
            d > 0real,
            m >= 1real,
    ;
    assert(m * (d / m) == d) by (nonlinear_arith)
        requires
            m >= 1real,
    ;
}

// ---- a trapezoid seen from the side ----
#[verifier::opaque]
spec fn flip_top(l: (real, real, real), r: (real, real, real)) -> Seq<(real, real)> {
    (if l.2 <= r.2 { seq![(l.2, l.0), (r.2, r.0)] } else { seq![(r.2, r.0)] })
        + (if r.1 > r.2 { seq![(r.1, r.0)] } else { seq![] })
        + (if l.1 > r.1 { seq![(l.1, l.0)] } else { seq![] })
}

#[verifier::opaque]
spec fn flip_bot(l: (real, real, real), r: (real, real, real)) -> Seq<(real, real)> {
    (if l.2 <= r.2 { seq![(l.2, l.0)] } else { seq![(r.2, r.0), (l.2, l.0)] })
        + (if l.1 > l.2 { seq![(l.1, l.0)] } else { seq![] })
        + (if l.1 <= r.1 { seq![(r.1, r.0)] } else { seq![] })
}

spec fn flipped<T: GeoNum>(t: Trapz<T>, m: MonoPoly<T>) -> bool {
    &&& pts(m.top) == flip_top(trip(t.left), trip(t.right))
    &&& pts(m.bot) == flip_bot(trip(t.left), trip(t.right))
}

// a trapezoid with a width whose upper side is not below its lower side
spec fn upright<T: GeoNum>(t: Trapz<T>) -> bool {
    t.left.x.v() < t.right.x.v() && t.left.bot.v() <= t.left.top.v() && t.right.bot.v() <= t.right.top.v()
}

spec fn low<T: GeoNum>(t: Trapz<T>) -> real {
    minr(t.left.bot.v(), t.right.bot.v())
}

spec fn high<T: GeoNum>(t: Trapz<T>) -> real {
    maxr(t.left.top.v(), t.right.top.v())
}

// a is the area of the part of t in the rows from lo to hi: cut along its flipped sides
spec fn is_cell<T: GeoNum>(t: Trapz<T>, lo: real, hi: real, a: real) -> bool {
    if hi <= low(t) || lo >= high(t) {
        a == 0real
    } else {
        exists|m: MonoPoly<T>, u: Seq<Trapz<T>>| #[trigger] cut(t, lo, hi, m, u) && a == total(u)
    }
}

spec fn cut<T: GeoNum>(t: Trapz<T>, lo: real, hi: real, m: MonoPoly<T>, u: Seq<Trapz<T>>) -> bool {
    flipped(t, m) && swept(m, u, maxr(lo, low(t)), minr(hi, high(t)), hi)
}

spec fn cell<T: GeoNum>(t: Trapz<T>, lo: real, hi: real) -> real {
    choose|a: real| is_cell(t, lo, hi, a)
}

spec fn cells<T: GeoNum>(w: Seq<Trapz<T>>, lo: real, hi: real) -> real
    decreases w.len(),
{
    if w.len() == 0 {
        0real
    } else {
        cells(w.drop_last(), lo, hi) + cell(w.last(), lo, hi)
    }
}

proof fn lemma_flip<T: GeoNum>(t: Trapz<T>)
    requires
        upright(t),
    ensures
        chains(flip_top(trip(t.left), trip(t.right)), flip_bot(trip(t.left), trip(t.right))),
        flip_top(trip(t.left), trip(t.right))[0].0 == low(t),
        flip_top(trip(t.left), trip(t.right)).last().0 == high(t),
{
    reveal(flip_top);
    reveal(flip_bot);
}

proof fn lemma_cell<T: GeoNum>(t: Trapz<T>, lo: real, hi: real, a: real)
    requires
        upright(t),
        is_cell(t, lo, hi, a),
    ensures
        cell(t, lo, hi) == a,
{
    let b = cell(t, lo, hi);
    if !(hi <= low(t) || lo >= high(t)) {
        let (m, u) = choose|m: MonoPoly<T>, u: Seq<Trapz<T>>| #[trigger] cut(t, lo, hi, m, u) && a == total(u);
        let (m2, u2) = choose|m: MonoPoly<T>, u: Seq<Trapz<T>>| #[trigger] cut(t, lo, hi, m, u) && b == total(u);
        lemma_flip(t);
        assert forall|i: int| 0 <= i < u2.len() implies between(m, #[trigger] u2[i], hi) by {
            let (k, l) = choose|k: int, l: int| #[trigger] along_both(m2, k, l, u2[i], hi);
            assert(along_both(m, k, l, u2[i], hi));
        }
        lemma_same(m, u, u2, maxr(lo, low(t)), minr(hi, high(t)), hi);
        lemma_total(u, u2);
    }
}

// ---- the polygon ----
spec fn piece_at(c: Seq<(real, real)>, i: int, x: real) -> bool {
    0 <= i && i + 1 < c.len() && c[i].0 < c[i + 1].0 && c[i].0 <= x <= c[i + 1].0
}

// the upper chain is nowhere below the lower chain
spec fn above<T: GeoNum>(m: MonoPoly<T>) -> bool {
    forall|i: int, j: int, x: real| #[trigger] piece_at(pts(m.top), i, x) && #[trigger] piece_at(pts(m.bot), j, x) ==> height(pts(m.bot)[j], pts(m.bot)[j + 1], x) <= height(pts(m.top)[i], pts(m.top)[i + 1], x)
}

proof fn lemma_upright<T: GeoNum>(m: MonoPoly<T>, t: Trapz<T>, until: real)
    requires
        above(m),
        between(m, t, until),
    ensures
        upright(t),
{
    let (i, j) = choose|i: int, j: int| #[trigger] along_both(m, i, j, t, until);
    assert(piece_at(pts(m.top), i, t.left.x.v()) && piece_at(pts(m.bot), j, t.left.x.v()));
    assert(piece_at(pts(m.top), i, t.right.x.v()) && piece_at(pts(m.bot), j, t.right.x.v()));
}

// two edges that both rise (or both fall), the first below the second: at the same height the first is further along
proof fn lemma_further(a0: real, a1: real, b0: real, b1: real, f: real, g: real, y: real)
    requires
        a0 < a1,
        b0 < b1,
        a0 <= b0,
        a1 <= b1,
        0real <= f <= 1real,
        0real <= g <= 1real,
        y == a0 + f * (a1 - a0),
        y == b0 + g * (b1 - b0),
    ensures
        g <= f,
{
    let (p, q) = (a1 - a0, b1 - b0);
    assert(g <= f) by (nonlinear_arith)
        requires
            p > 0real,
            q > 0real,
            a0 <= b0,
            a0 + p <= b0 + q,
            0real <= f <= 1real,
            0real <= g <= 1real,
            a0 + f * p == b0 + g * q,
    ;
}

// ---- the bounds of a column ----
spec fn side<T: GeoNum>(t: Trapz<T>, top: bool, right: bool) -> real {
    let e = if right { t.right } else { t.left };
    if top { e.top.v() } else { e.bot.v() }
}

// r is the greatest (or least) height of the upper (or lower) sides, or nothing was seen
#[verifier::opaque]
spec fn ext<T: GeoNum>(w: Seq<Trapz<T>>, top: bool, max: bool, r: real) -> bool {
    if w.len() == 0 {
        r == if max { -big::<T>() } else { big::<T>() }
    } else {
        &&& forall|k: int, right: bool| 0 <= k < w.len() ==> if max { #[trigger] side(w[k], top, right) <= r } else { side(w[k], top, right) >= r }
        &&& exists|k: int, right: bool| 0 <= k < w.len() && #[trigger] side(w[k], top, right) == r
    }
}

spec fn tame<T: GeoNum>(t: Trapz<T>) -> bool {
    fit::<T>(t.left.top.v()) && fit::<T>(t.left.bot.v()) && fit::<T>(t.right.top.v()) && fit::<T>(t.right.bot.v())
}

// every height of the polygon is a finite value
spec fn bounded<T: GeoNum>(m: MonoPoly<T>) -> bool {
    &&& forall|i: int| 0 <= i < pts(m.top).len() ==> fit::<T>((#[trigger] pts(m.top)[i]).1)
    &&& forall|i: int| 0 <= i < pts(m.bot).len() ==> fit::<T>((#[trigger] pts(m.bot)[i]).1)
}

proof fn lemma_ext_none<T: GeoNum>(w: Seq<Trapz<T>>, top: bool, max: bool)
    requires
        w.len() == 0,
    ensures
        ext(w, top, max, if max { -big::<T>() } else { big::<T>() }),
{
    reveal(ext);
}

proof fn lemma_ext_seen<T: GeoNum>(w: Seq<Trapz<T>>, top: bool, max: bool, r: real)
    requires
        w.len() == 0,
        ext(w, top, max, r),
    ensures
        r == if max { -big::<T>() } else { big::<T>() },
{
    reveal(ext);
}

proof fn lemma_tame<T: GeoNum>(m: MonoPoly<T>, t: Trapz<T>, until: real)
    requires
        bounded(m),
        between(m, t, until),
    ensures
        tame(t),
{
    let (i, j) = choose|i: int, j: int| #[trigger] along_both(m, i, j, t, until);
    let (a, b) = (pts(m.top), pts(m.bot));
    lemma_interpolate(a[i], a[i + 1], t.left.x.v());
    lemma_interpolate(a[i], a[i + 1], t.right.x.v());
    lemma_interpolate(b[j], b[j + 1], t.left.x.v());
    lemma_interpolate(b[j], b[j + 1], t.right.x.v());
}

proof fn lemma_ext<T: GeoNum>(w: Seq<Trapz<T>>, t: Trapz<T>, top: bool, max: bool, r: real)
    requires
        ext(w, top, max, r),
        tame(t),
    ensures
        ext(w.push(t), top, max, if max { maxr(maxr(r, side(t, top, false)), side(t, top, true)) } else { minr(minr(r, side(t, top, false)), side(t, top, true)) }),
{
    reveal(ext);
    let v = w.push(t);
    let n = w.len() as int;
    let q = if max { maxr(maxr(r, side(t, top, false)), side(t, top, true)) } else { minr(minr(r, side(t, top, false)), side(t, top, true)) };
    assert(v[n] == t);
    assert forall|k: int, right: bool| 0 <= k < v.len() implies if max { #[trigger] side(v[k], top, right) <= q } else { side(v[k], top, right) >= q } by {
        if k < n {
            assert(v[k] == w[k]);
            assert(if max { side(w[k], top, right) <= r } else { side(w[k], top, right) >= r });
        }
    }
    if q == side(t, top, false) {
        assert(side(v[n], top, false) == q);
    } else if q == side(t, top, true) {
        assert(side(v[n], top, true) == q);
    } else {
        let (k, right) = choose|k: int, right: bool| 0 <= k < w.len() && #[trigger] side(w[k], top, right) == r;
        assert(v[k] == w[k]);
        assert(side(v[k], top, right) == q);
    }
}

// the column crosses the window
spec fn crosses<T: GeoNum>(w: Seq<Trapz<T>>, tm: real, bm: real, lo: real, hi: real) -> bool {
    w.len() > 0 && bm < tm && lo < tm && bm < hi
}

spec fn column_bounds<T: GeoNum>(w: Seq<Trapz<T>>, lo: real, hi: real, n: int, r: Option<(usize, usize, T, T)>) -> bool {
    exists|tm: real, bm: real| #[trigger] ext(w, true, true, tm) && #[trigger] ext(w, false, false, bm) && match r {
        None => !crosses(w, tm, bm, lo, hi),
        Some((j0, j1, bx, tn)) => {
            &&& crosses(w, tm, bm, lo, hi)
            &&& rows_of(tm, bm, lo, hi, n, j0 as int, j1 as int)
            &&& ext(w, false, true, bx.v()) && ext(w, true, false, tn.v())
        },
    }
}

spec fn rows_of(tm: real, bm: real, lo: real, hi: real, n: int, j0: int, j1: int) -> bool {
    let s = (hi - lo) / whole(n);
    in_row(maxr(bm, lo), lo, s, n, j0) && in_row(minr(tm, hi), lo, s, n, j1)
}

spec fn column_rows<T: GeoNum>(w: Seq<Trapz<T>>, lo: real, hi: real, n: int, j0: int, j1: int) -> bool {
    exists|tm: real, bm: real| #[trigger] ext(w, true, true, tm) && #[trigger] ext(w, false, false, bm) && if crosses(w, tm, bm, lo, hi) {
        rows_of(tm, bm, lo, hi, n, j0, j1)
    } else {
        j0 == n && j1 == 0
    }
}

// the rows that a column crosses are a range
proof fn lemma_range(l: real, h: real, lo: real, s: real, n: int, j0: int, j1: int)
    requires
        s > 0real,
        l <= h,
        in_row(l, lo, s, n, j0),
        in_row(h, lo, s, n, j1),
    ensures
        j0 <= j1,
{
    if j1 < j0 {
        lemma_rows(lo, s, j1 + 1, j0);
    }
}

proof fn lemma_inverse(d: real, m: real)
    requires
        d > 0real,
        m >= 1real,
    ensures
        (m / d) * (d / m) == 1real,
{
    let (a, b) = (m / d, d / m);
    assert(a * d == m) by (nonlinear_arith)
        requires
            a == m / d,
            d > 0real,
    ;
    assert(b * m == d) by (nonlinear_arith)
        requires
            b == d / m,
            m >= 1real,
    ;
    assert(a * b == 1real) by (nonlinear_arith)
        requires
            a * d == m,
            b * m == d,
            m >= 1real,
    ;
}

proof fn lemma_scaled(y: real, inv: real, s: real)
    requires
        inv * s == 1real,
    ensures
        (y * inv) * s == y,
{
    assert((y * inv) * s == y) by (nonlinear_arith)
        requires
            inv * s == 1real,
    ;
}

// what was added to each row: the areas of the trapezoids inside it
spec fn added<T: GeoNum>(a: Seq<T>, b: Seq<T>, w: Seq<Trapz<T>>, lo: real, hi: real) -> bool {
    let s = (hi - lo) / whole(a.len() as int);
    &&& b.len() == a.len()
    &&& forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).v() == a[k].v() + cells(w, row(lo, s, k), row(lo, s, k + 1))
}

spec fn clamped(y: real, lo: real, hi: real) -> real {
    minr(maxr(y, lo), hi)
}

proof fn lemma_quotient(y: real, s: real)
    requires
        s > 0real,
    ensures
        (y / s) * s == y,
{
    assert((y / s) * s == y) by (nonlinear_arith)
        requires
            s > 0real,
    ;
}

// a trapezoid that misses a row adds nothing to it
proof fn lemma_missed<T: GeoNum>(t: Trapz<T>, lo: real, hi: real)
    requires
        upright(t),
        hi <= low(t) || lo >= high(t),
    ensures
        cell(t, lo, hi) == 0real,
{
    assert(is_cell(t, lo, hi, 0real));
    lemma_cell(t, lo, hi, 0real);
}

proof fn lemma_cells_push<T: GeoNum>(w: Seq<Trapz<T>>, t: Trapz<T>, lo: real, hi: real)
    ensures
        cells(w.push(t), lo, hi) == cells(w, lo, hi) + cell(t, lo, hi),
{
    assert(w.push(t).drop_last() =~= w);
}

proof fn lemma_added_none<T: GeoNum>(a: Seq<T>, b: Seq<T>, w: Seq<Trapz<T>>, t: Trapz<T>, lo: real, hi: real, s: real, n: int)
    requires
        added(a, b, w, lo, hi),
        upright(t),
        n == a.len() && s == (hi - lo) / whole(n) && s > 0real && row(lo, s, n) == hi,
        low(t) >= hi || high(t) <= lo,
    ensures
        added(a, b, w.push(t), lo, hi),
{
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] b[k]).v() == a[k].v() + cells(w.push(t), row(lo, s, k), row(lo, s, k + 1)) by {
        lemma_rows(lo, s, k + 1, n);
        lemma_rows(lo, s, 0, k);
        lemma_missed(t, row(lo, s, k), row(lo, s, k + 1));
        lemma_cells_push(w, t, row(lo, s, k), row(lo, s, k + 1));
    }
}

proof fn lemma_added<T: GeoNum>(a0: Seq<T>, a1: Seq<T>, b: Seq<T>, w: Seq<Trapz<T>>, t: Trapz<T>, lo: real, hi: real, s: real, n: int, j0: int, j1: int)
    requires
        added(a0, a1, w, lo, hi),
        upright(t),
        n == a0.len() && s == (hi - lo) / whole(n) && s > 0real && row(lo, s, n) == hi,
        in_row(maxr(low(t), lo), lo, s, n, j0) || in_row(low(t), lo, s, n, j0),
        in_row(minr(high(t), hi), lo, s, n, j1) || in_row(high(t), lo, s, n, j1),
        lo < high(t),
        b.len() == n,
        forall|k: int| 0 <= k < n ==> (#[trigger] b[k]).v() == a1[k].v() + if j0 <= k <= j1 { cell(t, row(lo, s, k), row(lo, s, k + 1)) } else { 0real },
    ensures
        added(a0, b, w.push(t), lo, hi),
{
    assert forall|k: int| 0 <= k < n implies (#[trigger] b[k]).v() == a0[k].v() + cells(w.push(t), row(lo, s, k), row(lo, s, k + 1)) by {
        assert(a1[k].v() == a0[k].v() + cells(w, row(lo, s, k), row(lo, s, k + 1)));
        lemma_cells_push(w, t, row(lo, s, k), row(lo, s, k + 1));
        if k < j0 {
            lemma_rows(lo, s, k + 1, j0);
            lemma_rows(lo, s, 0, j0);
            lemma_missed(t, row(lo, s, k), row(lo, s, k + 1));
        }
        if k > j1 {
            lemma_rows(lo, s, j1 + 1, k);
            lemma_rows(lo, s, k, n);
            lemma_missed(t, row(lo, s, k), row(lo, s, k + 1));
        }
    }
}

// where the rows of a trapezoid start
proof fn lemma_start<T: GeoNum>(m: MonoPoly<T>, x: real, l: real, h: real, lo: real, hi: real, s: real, n: int, j: int)
    requires
        s > 0real,
        x == clamped(lo, l, h),
        l <= h,
        in_row(l, lo, s, n, j),
    ensures
        x == clamped(row(lo, s, j), l, h),
{
    lemma_rows(lo, s, 0, j);
}

// what one row got, and where the cursor stands then
proof fn lemma_onward<'a, T: GeoFloat>(s1: Scanner<'a, T>, s2: Scanner<'a, T>, u: Seq<Trapz<T>>, t: Trapz<T>, lo: real, s: real, j: int, jt: real)
    requires
        cursor(s1),
        cursor(s2),
        s1.poly == s2.poly,
        upright(t),
        s > 0real,
        flipped(t, *s1.poly),
        s1.curr.x.v() == clamped(row(lo, s, j), low(t), high(t)),
        jt == row(lo, s, j + 1),
        swept(*s1.poly, u, s1.curr.x.v(), s2.curr.x.v(), jt),
        s2.curr.x.v() >= jt || at_end(s2),
        s2.curr.x.v() <= jt || s2.curr.x.v() == s1.curr.x.v(),
    ensures
        s2.curr.x.v() == clamped(row(lo, s, j + 1), low(t), high(t)),
        total(u) == cell(t, row(lo, s, j), row(lo, s, j + 1)),
{
    let (y, z) = (row(lo, s, j), row(lo, s, j + 1));
    lemma_rows(lo, s, j, j + 1);
    lemma_flip(t);
    if u.len() > 0 {
        lemma_rightward(*s1.poly, u, s1.curr.x.v(), s2.curr.x.v(), jt);
    }
    lemma_target(s1, s2, jt);
    if z <= low(t) || y >= high(t) {
        assert(u.len() == 0);
        assert(is_cell(t, y, z, total(u)));
    } else {
        assert(cut(t, y, z, *s1.poly, u));
    }
    lemma_cell(t, y, z, total(u));
}

// the flipped trapezoid has its sides in order
proof fn lemma_flip_sides<T: GeoNum>(t: Trapz<T>, m: MonoPoly<T>, u: Trapz<T>, until: real)
    requires
        upright(t),
        flipped(t, m),
        between(m, u, until),
    ensures
        upright(u),
{
    let (i, j) = choose|i: int, j: int| #[trigger] along_both(m, i, j, u, until);
    lemma_flip_order(t, m, i, j, u.left.x.v());
    lemma_flip_order(t, m, i, j, u.right.x.v());
}

proof fn lemma_flip_order<T: GeoNum>(t: Trapz<T>, m: MonoPoly<T>, i: int, j: int, y: real)
    requires
        upright(t),
        flipped(t, m),
        piece_at(pts(m.top), i, y),
        piece_at(pts(m.bot), j, y),
    ensures
        height(pts(m.bot)[j], pts(m.bot)[j + 1], y) <= height(pts(m.top)[i], pts(m.top)[i + 1], y),
{
    let (a, b) = (pts(m.top), pts(m.bot));
    lemma_interpolate(a[i], a[i + 1], y);
    lemma_interpolate(b[j], b[j + 1], y);
    let (p, q) = (t.left, t.right);
    let f = (y - a[i].0) / (a[i + 1].0 - a[i].0);
    let g = (y - b[j].0) / (b[j + 1].0 - b[j].0);
    let w = q.x.v() - p.x.v();
    assert(0real <= f <= 1real && 0real <= g <= 1real && y == a[i].0 + f * (a[i + 1].0 - a[i].0) && y == b[j].0 + g * (b[j + 1].0 - b[j].0)) by {
        lemma_fraction(a[i].0, a[i + 1].0, y);
        lemma_fraction(b[j].0, b[j + 1].0, y);
    }
    reveal(flip_top);
    reveal(flip_bot);
    let bot = (b[j].1, b[j + 1].1);
    let top = (a[i].1, a[i + 1].1);
    if top.0 != top.1 && bot.0 != bot.1 {
        if top.0 < top.1 {
            assert(a[i] == (p.bot.v(), p.x.v()) && a[i + 1] == (q.bot.v(), q.x.v()));
            assert(b[j] == (p.top.v(), p.x.v()) && b[j + 1] == (q.top.v(), q.x.v()));
            lemma_further(a[i].0, a[i + 1].0, b[j].0, b[j + 1].0, f, g, y);
            assert(g * w <= f * w) by (nonlinear_arith)
                requires
                    g <= f,
                    w > 0real,
            ;
        } else {
            assert(a[i] == (q.top.v(), q.x.v()) && a[i + 1] == (p.top.v(), p.x.v()));
            assert(b[j] == (q.bot.v(), q.x.v()) && b[j + 1] == (p.bot.v(), p.x.v()));
            lemma_further(b[j].0, b[j + 1].0, a[i].0, a[i + 1].0, g, f, y);
            assert(f * w <= g * w) by (nonlinear_arith)
                requires
                    f <= g,
                    w > 0real,
            ;
            assert(f * (0real - w) == 0real - f * w && g * (0real - w) == 0real - g * w) by (nonlinear_arith);
        }
    }
}

proof fn lemma_fraction(c: real, d: real, y: real)
    requires
        c < d,
        c <= y <= d,
    ensures
        0real <= (y - c) / (d - c) <= 1real,
        y == c + (y - c) / (d - c) * (d - c),
{
    let (e, z) = (d - c, y - c);
    let f = z / e;
    assert(f * e == z) by (nonlinear_arith)
        requires
            f == z / e,
            e > 0real,
    ;
    assert(0real <= f <= 1real) by (nonlinear_arith)
        requires
            f * e == z,
            e > 0real,
            0real <= z <= e,
    ;
}

impl<T: GeoFloat> Trapz<T> {
//@@ fn area self=Trapz
    fn area(&self) -> (ret: T) /*@
        requires
            self.left.bot.v() <= self.left.top.v(),
            self.right.bot.v() <= self.right.top.v(),
        ensures
            ret.v() == tarea(*self),
    @*/ {
        let t1 = &self.left;
        let t2 = &self.right;
        let a = t1.top - t1.bot;
        let b = t2.top - t2.bot;
        rt_assert(a >= T::zero() && b >= T::zero());
        let h = t2.x - t1.x;
        let two = T::one() + T::one();
        (a + b) / two * h
    }
//@@ end
}

impl<'a, T: GeoFloat> Scanner<'a, T> {
//@@ fn cross_ubounds self=Scanner
//@@ sub `| y : T | {` => `| y : T | -> ( j : usize ) {`
    fn cross_ubounds(
        &mut self,
        right: T,
        cross_min: T,
        cross_max: T,
        height: usize,
    ) -> (ret: (usize, usize)) /*@
        requires
            cursor(*old(self)),
            above(*old(self).poly),
            bounded(*old(self).poly),
            fit::<T>(cross_min.v()) && fit::<T>(cross_max.v()) && cross_min.v() < cross_max.v(),
            height >= 1,
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            final(self).curr.x.v() >= right.v() || at_end(*final(self)),
            final(self).curr.x.v() <= right.v() || final(self).curr.x.v() == old(self).curr.x.v(),
            exists|w: Seq<Trapz<T>>| #[trigger] swept(*old(self).poly, w, old(self).curr.x.v(), final(self).curr.x.v(), right.v()) && column_rows(w, cross_min.v(), cross_max.v(), height as int, ret.0 as int, ret.1 as int),
    @*/ {
        let mut bot_min = T::infinity();
        let mut top_max = T::neg_infinity();
        /*@ let ghost mut w: Seq<Trapz<T>> = Seq::empty(); proof { lemma_ext_none(w, true, true); lemma_ext_none(w, true, false); lemma_ext_none(w, false, true); lemma_ext_none(w, false, false); } @*/
        loop /*@
            invariant
                cursor(*self), self.poly == old(self).poly, above(*self.poly), bounded(*self.poly),
                swept(*self.poly, w, old(self).curr.x.v(), self.curr.x.v(), right.v()),
                self.curr.x.v() <= right.v() || self.curr.x.v() == old(self).curr.x.v(),
                forall|k: int| 0 <= k < w.len() ==> upright(#[trigger] w[k]) && tame(w[k]),
                ext(w, true, true, top_max.v()), ext(w, false, false, bot_min.v()),
            ensures
                self.curr.x.v() >= right.v() || at_end(*self),
            decreases left_to_go(*self), (if self.curr.x.v() < right.v() { 1int } else { 0int }),
        @*/ { /*@ let ghost x1 = self.curr.x.v(); @*/ match self . advance_to ( right ) { Some ( trapz ) => { /*@ proof {
                lemma_contiguous_push(w, old(self).curr.x.v(), x1, trapz);
                lemma_upright(*self.poly, trapz, right.v());
                lemma_tame(*self.poly, trapz, right.v());
                lemma_ext(w, trapz, true, true, top_max.v());
                lemma_ext(w, trapz, false, false, bot_min.v());
                w = w.push(trapz);
            } @*/  top_max = top_max.max(trapz.left.top).max(trapz.right.top);
            bot_min = bot_min.min(trapz.left.bot).min(trapz.right.bot); } None => break , } }
        /*@ proof { if w.len() == 0 { lemma_ext_seen(w, true, true, top_max.v()); lemma_ext_seen(w, false, false, bot_min.v()); } } @*/
        if top_max <= bot_min || top_max <= cross_min || bot_min >= cross_max {
            return (height, 0);
        }
        bot_min = bot_min.max(cross_min);
        top_max = top_max.min(cross_max);
        let height_t = T::from(height).unwrap();
        let slice_height_inv =  height_t / (cross_max - cross_min);
        /*@ let ghost s = (cross_max.v() - cross_min.v()) / whole(height as int); proof { lemma_window(cross_min.v(), cross_max.v(), height as int); lemma_inverse(cross_max.v() - cross_min.v(), whole(height as int)); } @*/
        let cross_idx = | y : T | -> ( j : usize ) /*@
            ensures
                in_row(y.v(), cross_min.v(), s, height as int, j as int),
        @*/ {
            let j: T = (y - cross_min) * slice_height_inv; /*@ let ghost q = j.v(); proof { lemma_scaled(y.v() - cross_min.v(), slice_height_inv.v(), s); } @*/
            let j = j.max(T::zero()).min(height_t);
            /*@ let ghost c = j.v(); @*/ let j = j.floor() /*@ @*/ .to_usize().unwrap(); /*@ proof { lemma_row(y.v(), cross_min.v(), s, q, height as int, j as int); } @*/
            j.min(height - 1)
        };
        let j_min = cross_idx(bot_min);
        let j_max = cross_idx(top_max);
        (j_min, j_max)
    }
//@@ end

//@@ fn cross_bounds self=Scanner
//@@ sub `| y : T | {` => `| y : T | -> ( j : usize ) {`
    fn cross_bounds(
        &mut self,
        right: T,
        cross_min: T,
        cross_max: T,
        height: usize,
    ) -> (ret: Option<(usize, usize, T, T)>) /*@
        requires
            cursor(*old(self)),
            above(*old(self).poly),
            bounded(*old(self).poly),
            fit::<T>(cross_min.v()) && fit::<T>(cross_max.v()) && cross_min.v() < cross_max.v(),
            height >= 1,
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            final(self).curr.x.v() >= right.v() || at_end(*final(self)),
            final(self).curr.x.v() <= right.v() || final(self).curr.x.v() == old(self).curr.x.v(),
            exists|w: Seq<Trapz<T>>| #[trigger] swept(*old(self).poly, w, old(self).curr.x.v(), final(self).curr.x.v(), right.v()) && column_bounds(w, cross_min.v(), cross_max.v(), height as int, ret),
    @*/ {
        let mut bot_min = T::infinity();
        let mut top_max = T::neg_infinity();
        let mut top_min = T::infinity();
        let mut bot_max = T::neg_infinity();
        /*@ let ghost mut w: Seq<Trapz<T>> = Seq::empty(); proof { lemma_ext_none(w, true, true); lemma_ext_none(w, true, false); lemma_ext_none(w, false, true); lemma_ext_none(w, false, false); } @*/
        loop /*@
            invariant
                cursor(*self), self.poly == old(self).poly, above(*self.poly), bounded(*self.poly),
                swept(*self.poly, w, old(self).curr.x.v(), self.curr.x.v(), right.v()),
                self.curr.x.v() <= right.v() || self.curr.x.v() == old(self).curr.x.v(),
                forall|k: int| 0 <= k < w.len() ==> upright(#[trigger] w[k]) && tame(w[k]),
                ext(w, true, true, top_max.v()), ext(w, false, false, bot_min.v()),
                ext(w, true, false, top_min.v()), ext(w, false, true, bot_max.v()),
            ensures
                self.curr.x.v() >= right.v() || at_end(*self),
            decreases left_to_go(*self), (if self.curr.x.v() < right.v() { 1int } else { 0int }),
        @*/ { /*@ let ghost x1 = self.curr.x.v(); @*/ match self . advance_to ( right ) { Some ( trapz ) => { /*@ proof {
                lemma_contiguous_push(w, old(self).curr.x.v(), x1, trapz);
                lemma_upright(*self.poly, trapz, right.v());
                lemma_tame(*self.poly, trapz, right.v());
                lemma_ext(w, trapz, true, true, top_max.v());
                lemma_ext(w, trapz, false, false, bot_min.v());
                lemma_ext(w, trapz, true, false, top_min.v());
                lemma_ext(w, trapz, false, true, bot_max.v());
                w = w.push(trapz);
            } @*/  top_max = top_max.max(trapz.left.top).max(trapz.right.top);
            top_min = top_min.min(trapz.left.top).min(trapz.right.top);
            bot_max = bot_max.max(trapz.left.bot).max(trapz.right.bot);
            bot_min = bot_min.min(trapz.left.bot).min(trapz.right.bot); } None => break , } }
        /*@ proof { if w.len() == 0 { lemma_ext_seen(w, true, true, top_max.v()); lemma_ext_seen(w, false, false, bot_min.v()); } } @*/
        if top_max <= bot_min || top_max <= cross_min || bot_min >= cross_max {
            return None;
        }
        bot_min = bot_min.max(cross_min);
        top_max = top_max.min(cross_max);
        let height_t = T::from(height).unwrap();
        let slice_height_inv =  height_t / (cross_max - cross_min);
        /*@ let ghost s = (cross_max.v() - cross_min.v()) / whole(height as int); proof { lemma_window(cross_min.v(), cross_max.v(), height as int); lemma_inverse(cross_max.v() - cross_min.v(), whole(height as int)); } @*/
        let cross_idx = | y : T | -> ( j : usize ) /*@
            ensures
                in_row(y.v(), cross_min.v(), s, height as int, j as int),
        @*/ {
            let j: T = (y - cross_min) * slice_height_inv; /*@ let ghost q = j.v(); proof { lemma_scaled(y.v() - cross_min.v(), slice_height_inv.v(), s); } @*/
            let j = j.max(T::zero()).min(height_t);
            /*@ let ghost c = j.v(); @*/ let j = j.floor() /*@ @*/ .to_usize().unwrap(); /*@ proof { lemma_row(y.v(), cross_min.v(), s, q, height as int, j as int); } @*/
            j.min(height - 1)
        };
        let j_min = cross_idx(bot_min);
        let j_max = cross_idx(top_max);
        Some((j_min, j_max, bot_max, top_min))
    }
//@@ end

//@@ fn cross_area self=Scanner
//@@ sub `| y : T | {` => `| y : T | -> ( j : usize ) {`
//@@ sub `| j : usize | {` => `| j : usize | -> ( y : T ) {`
//@@ sub `for j in $*a ..= $*b { $*c }` => `let mut at_j : usize = $*a ; while at_j <= $*b { let j = at_j ; at_j = at_j + 1 ; $*c }`
    fn cross_area(
        &mut self,
        right: T,
        cross_min: T,
        cross_max: T,
        array: &mut [T],
    ) /*@
        requires
            cursor(*old(self)),
            above(*old(self).poly),
            cross_min.v() < cross_max.v(),
            1 <= old(array)@.len(),
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            final(self).curr.x.v() >= right.v() || at_end(*final(self)),
            final(self).curr.x.v() <= right.v() || final(self).curr.x.v() == old(self).curr.x.v(),
            final(array)@.len() == old(array)@.len(),
            exists|w: Seq<Trapz<T>>| #[trigger] swept(*old(self).poly, w, old(self).curr.x.v(), final(self).curr.x.v(), right.v())
                && added(old(array)@, final(array)@, w, cross_min.v(), cross_max.v()),
    @*/ {
        let height = array.len();
        let height_t = T::from(height).unwrap();
        /*@ let ghost (lo, hi, n, s) = (cross_min.v(), cross_max.v(), height as int, (cross_max.v() - cross_min.v()) / whole(height as int)); proof { lemma_window(lo, hi, n); } @*/
        let slice_height = (cross_max - cross_min) / height_t;
        let cross_idx = | y : T | -> ( j : usize ) /*@
            ensures
                in_row(y.v(), lo, s, n, j as int),
        @*/ {
            let j_t: T = (y - cross_min) / slice_height; /*@ let ghost q = j_t.v(); proof { lemma_quotient(y.v() - lo, s); } @*/
            let j_t = j_t.max(T::zero()).min(height_t);
            let j = j_t.floor().to_usize().unwrap(); /*@ proof { lemma_row(y.v(), lo, s, q, n, j as int); } @*/
            j.min(height - 1)
        };
        let cross_pt = | j : usize | -> ( y : T ) /*@
            ensures
                y.v() == row(lo, s, j as int),
        @*/ {
            /*@ proof { reveal(row); } @*/
            T::from(j).unwrap() * slice_height + cross_min
        };
        /*@ let ghost mut w: Seq<Trapz<T>> = Seq::empty(); let ghost (a0, until) = (array@, right.v()); @*/
        loop /*@
            invariant
                cursor(*self), self.poly == old(self).poly, above(*self.poly),
                swept(*self.poly, w, old(self).curr.x.v(), self.curr.x.v(), until),
                self.curr.x.v() <= until || self.curr.x.v() == old(self).curr.x.v(),
                until == right.v(), lo == cross_min.v(), hi == cross_max.v(), lo < hi, n == height, n >= 1, s == (hi - lo) / whole(n), s > 0real, row(lo, s, n) == hi, slice_height.v() == s,
                array@.len() == n, a0.len() == n, a0 == old(array)@,
                added(a0, array@, w, lo, hi),
                forall|y: T| #[trigger] cross_idx.requires((y,)), forall|y: T, j: usize| #[trigger] cross_idx.ensures((y,), j) ==> in_row(y.v(), lo, s, n, j as int),
                forall|j: usize| #[trigger] cross_pt.requires((j,)), forall|j: usize, y: T| #[trigger] cross_pt.ensures((j,), y) ==> y.v() == row(lo, s, j as int),
            ensures
                self.curr.x.v() >= until || at_end(*self),
            decreases left_to_go(*self), (if self.curr.x.v() < until { 1int } else { 0int }),
        @*/ { /*@ let ghost x1 = self.curr.x.v(); @*/ match self . advance_to ( right ) { Some ( trapz ) => { let left = trapz.left;
            let right = trapz.right;
            /*@ proof { lemma_contiguous_push(w, old(self).curr.x.v(), x1, trapz); lemma_upright(*self.poly, trapz, until); lemma_flip(trapz); } let ghost (a1, w1) = (array@, w); proof { w = w.push(trapz); } @*/
            let mut top_coords: Vec<Coordinate<_>> = vec![];
            let mut bot_coords: Vec<Coordinate<_>> = vec![];
            if left.bot <= right.bot {
                top_coords.push((left.bot, left.x).into());
                bot_coords.push((left.bot, left.x).into());
                top_coords.push((right.bot, right.x).into());
                if right.top > right.bot {
                    top_coords.push((right.top, right.x).into());
                }
                if left.top > left.bot {
                    bot_coords.push((left.top, left.x).into());
                }
            } else {
                top_coords.push((right.bot, right.x).into());
                bot_coords.push((right.bot, right.x).into());
                if right.top > right.bot {
                    top_coords.push((right.top, right.x).into());
                }
                bot_coords.push((left.bot, left.x).into());
                if left.top > left.bot {
                    bot_coords.push((left.top, left.x).into());
                }
            }
            if left.top <= right.top {
                bot_coords.push((right.top, right.x).into());
            } else {
                top_coords.push((left.top, left.x).into());
            }
            /*@ proof {
                assert(ats(top_coords@) == flip_top(trip(trapz.left), trip(trapz.right))) by {
                    reveal(flip_top);
                    assert(ats(top_coords@) =~= flip_top(trip(trapz.left), trip(trapz.right)));
                }
                assert(ats(bot_coords@) == flip_bot(trip(trapz.left), trip(trapz.right))) by {
                    reveal(flip_bot);
                    assert(ats(bot_coords@) =~= flip_bot(trip(trapz.left), trip(trapz.right)));
                }
            } @*/
            let tpoly = MonoPoly::new(LineString(top_coords), LineString(bot_coords));
            let mut scanner = tpoly.scan_lines(cross_min);
            let bot_min = left.bot.min(right.bot);
            let top_max = left.top.max(right.top);
            if bot_min >= cross_max || top_max <= cross_min {
                /*@ proof { lemma_added_none(a0, array@, w1, trapz, lo, hi, s, n); } @*/
                continue;
            }
            let j_min = cross_idx(bot_min);
            let j_max = cross_idx(top_max);
            /*@ proof { lemma_start(*scanner.poly, scanner.curr.x.v(), low(trapz), high(trapz), lo, hi, s, n, j_min as int); lemma_range(low(trapz), high(trapz), lo, s, n, j_min as int, j_max as int); } @*/
            let mut at_j : usize = j_min ; while at_j <= j_max /*@
                invariant
                    cursor(scanner), *scanner.poly == tpoly, flipped(trapz, tpoly), upright(trapz),
                    j_min <= at_j <= j_max + 1, j_max < n, n == height, height <= usize::MAX, s > 0real,
                    scanner.curr.x.v() == clamped(row(lo, s, at_j as int), low(trapz), high(trapz)),
                    array@.len() == n, a1.len() == n,
                    forall|k: int| 0 <= k < n ==> (#[trigger] array@[k]).v() == a1[k].v() + if j_min <= k < at_j { cell(trapz, row(lo, s, k), row(lo, s, k + 1)) } else { 0real },
                    forall|j: usize| #[trigger] cross_pt.requires((j,)), forall|j: usize, y: T| #[trigger] cross_pt.ensures((j,), y) ==> y.v() == row(lo, s, j as int),
                decreases j_max + 1 - at_j,
            @*/ { let j = at_j ; at_j = at_j + 1 ; let jt = cross_pt(j + 1);
                /*@ let ghost mut u: Seq<Trapz<T>> = Seq::empty(); let ghost (s1, a2) = (scanner, array@); @*/
                loop /*@
                    invariant
                        cursor(scanner), scanner.poly == s1.poly, cursor(s1), *scanner.poly == tpoly, flipped(trapz, tpoly), upright(trapz), j < n,
                        array@.len() == n, a2.len() == n,
                        swept(tpoly, u, s1.curr.x.v(), scanner.curr.x.v(), jt.v()),
                        scanner.curr.x.v() <= jt.v() || scanner.curr.x.v() == s1.curr.x.v(),
                        forall|k: int| 0 <= k < n ==> (#[trigger] array@[k]).v() == a2[k].v() + if k == j { total(u) } else { 0real },
                    ensures
                        scanner.curr.x.v() >= jt.v() || at_end(scanner),
                    decreases left_to_go(scanner), (if scanner.curr.x.v() < jt.v() { 1int } else { 0int }),
                @*/ { /*@ let ghost x2 = scanner.curr.x.v(); @*/ match scanner . advance_to ( jt ) { Some ( tz ) => { /*@ proof {
                    lemma_contiguous_push(u, s1.curr.x.v(), x2, tz);
                    lemma_flip_sides(trapz, tpoly, tz, jt.v());
                    let u0 = u;
                    u = u.push(tz);
                    assert(u.drop_last() =~= u0);
                } @*/ array[j] = array[j] + tz.area(); } None => break , } }
                /*@ proof {
                    lemma_onward(s1, scanner, u, trapz, lo, s, j as int, jt.v());
                } @*/ }
            /*@ proof { lemma_added(a0, a1, array@, w1, trapz, lo, hi, s, n, j_min as int, j_max as int); } @*/ } None => break , } }
    }
//@@ end
}
