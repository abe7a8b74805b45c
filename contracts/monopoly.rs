//@@ include mono_new.rs
//@@ global `$x | -> T {` => `$x : T | -> ( r : T ) {`
// ---- assumed: geo types ----
struct LineString<T: GeoNum>(Vec<Coordinate<T>>);

impl<T: GeoNum> LineString<T> {
    // assumed: geo_types::LineString::is_closed
    #[verifier::external_body]
    fn is_closed(&self) -> (r: bool)
        ensures
            r == (self.0@.len() == 0 || at(self.0@[0]) == at(self.0@.last())),
    {
        unimplemented!()
    }
}

struct Polygon<T: GeoNum> {
    exterior: LineString<T>,
    interiors: Vec<LineString<T>>,
}

impl<T: GeoNum> Polygon<T> {
    // assumed: geo_types::Polygon::new keeps rings that are closed
    #[verifier::external_body]
    fn new(exterior: LineString<T>, interiors: Vec<LineString<T>>) -> (r: Self)
        ensures
            exterior.0@.len() > 0 && at(exterior.0@[0]) == at(exterior.0@.last()) ==> r.exterior == exterior,
            interiors@.len() == 0 ==> r.interiors == interiors,
    {
        unimplemented!()
    }
}

struct Rect<T: GeoNum> {
    min: Coordinate<T>,
    max: Coordinate<T>,
}

impl<T: GeoNum> Rect<T> {
    // assumed: geo_types::Rect::new, on corners in order
    #[verifier::external_body]
    fn new(a: (T, T), b: (T, T)) -> (r: Self)
        ensures
            a.0.v() <= b.0.v() && a.1.v() <= b.1.v() ==> r.min == (Coordinate { x: a.0, y: a.1 }) && r.max == (Coordinate { x: b.0, y: b.1 }),
    {
        unimplemented!()
    }
}

// assumed: std
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures
        final(s)@ == old(s)@.reverse(),
;

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct Trip derives=Clone,Copy
struct Trip<T: GeoNum> {
    x: T,
    top: T,
    bot: T,
}
//@@ end

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct Trapz derives=Clone,Copy
struct Trapz<T: GeoNum> {
    left: Trip<T>,
    right: Trip<T>,
}
//@@ end

// ---- specifications ----
spec fn ats<T: GeoNum>(c: Seq<Coordinate<T>>) -> Seq<(real, real)> {
    c.map_values(|p: Coordinate<T>| at(p))
}

proof fn lemma_increasing(c: Seq<(real, real)>, i: int, j: int)
    requires
        increasing(c),
        0 <= i < j < c.len(),
    ensures
        lexr(c[i], c[j]) == Ordering::Less,
    decreases j - i
{
    if i + 1 < j {
        lemma_increasing(c, i, j - 1);
    }
    assert(rises(c, j));
}

// the ring that follows the upper chain forward and the lower chain back
spec fn ring_of<T: GeoNum>(t: Seq<Coordinate<T>>, b: Seq<Coordinate<T>>) -> Seq<Coordinate<T>> {
    t + b.reverse().subrange(1, b.len() as int)
}

// `r` is the tightest box: the ends in x, the lowest of the lower and the highest of the upper chain in y
spec fn boxed(t: Seq<(real, real)>, b: Seq<(real, real)>, r: ((real, real), (real, real))) -> bool {
    &&& r.0.0 == t[0].0 && r.1.0 == t.last().0
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 <= r.1.1
    &&& exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == r.1.1
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).1 >= r.0.1
    &&& exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == r.0.1
}

// a polygon with an extent in both directions
spec fn extended(t: Seq<(real, real)>, b: Seq<(real, real)>) -> bool {
    &&& t[0].0 < t.last().0
    &&& exists|i: int, j: int| 0 <= i < t.len() && 0 <= j < b.len() && #[trigger] b[j].1 < #[trigger] t[i].1
}

// all vertices of both chains are in the box, if no vertex is below the lowest of the lower or above the highest of the upper chain
proof fn lemma_tightest(t: Seq<(real, real)>, b: Seq<(real, real)>, r: ((real, real), (real, real)))
    requires
        chains(t, b),
        boxed(t, b, r),
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 >= r.0.1,
        forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).1 <= r.1.1,
    ensures
        forall|i: int| 0 <= i < t.len() ==> r.0.0 <= (#[trigger] t[i]).0 <= r.1.0 && r.0.1 <= t[i].1 <= r.1.1,
        forall|i: int| 0 <= i < b.len() ==> r.0.0 <= (#[trigger] b[i]).0 <= r.1.0 && r.0.1 <= b[i].1 <= r.1.1,
{
    assert forall|i: int| 0 <= i < t.len() implies r.0.0 <= (#[trigger] t[i]).0 <= r.1.0 by {
        if i > 0 {
            lemma_increasing(t, 0, i);
        }
        if i < t.len() - 1 {
            lemma_increasing(t, i, t.len() - 1);
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies r.0.0 <= (#[trigger] b[i]).0 <= r.1.0 by {
        if i > 0 {
            lemma_increasing(b, 0, i);
        }
        if i < b.len() - 1 {
            lemma_increasing(b, i, b.len() - 1);
        }
    }
}

// assumed: `top.extend(down.drain(k..))`
#[verifier::external_body]
fn append_from<T>(a: &mut Vec<T>, b: &mut Vec<T>, k: usize)
    requires
        k <= old(b)@.len(),
    ensures
        final(a)@ == old(a)@ + old(b)@.subrange(k as int, old(b)@.len() as int),
        final(b)@ == old(b)@.subrange(0, k as int),
{
    let mut d: Vec<T> = b.drain(k..).collect();
    a.append(&mut d);
}

// ---- the scan cursor ----
// (x, y) is where the chain c stands with cursor i: inside the piece from i, or at vertex i
spec fn stands(c: Seq<(real, real)>, i: int, x: real, y: real) -> bool {
    &&& 0 <= i < c.len()
    &&& if i + 1 < c.len() && c[i].0 < c[i + 1].0 {
        c[i].0 <= x < c[i + 1].0 && y == height(c[i], c[i + 1], x)
    } else {
        (x, y) == c[i]
    }
}

spec fn cursor<'a, T: GeoFloat>(s: Scanner<'a, T>) -> bool {
    &&& mono(*s.poly)
    &&& stands(pts(s.poly.top), s.top_idx as int, s.curr.x.v(), s.curr.top.v())
    &&& stands(pts(s.poly.bot), s.bot_idx as int, s.curr.x.v(), s.curr.bot.v())
}

spec fn at_end<'a, T: GeoFloat>(s: Scanner<'a, T>) -> bool {
    s.top_idx + 1 >= s.poly.top.0@.len() && s.bot_idx + 1 >= s.poly.bot.0@.len()
}

spec fn left_to_go<'a, T: GeoFloat>(s: Scanner<'a, T>) -> int {
    s.poly.top.0@.len() - s.top_idx + s.poly.bot.0@.len() - s.bot_idx
}

spec fn trip<T: GeoNum>(t: Trip<T>) -> (real, real, real) {
    (t.x.v(), t.top.v(), t.bot.v())
}

// from (x, y) to (x2, y2) along one piece of the chain
spec fn along_chain(c: Seq<(real, real)>, i: int, x: real, y: real, x2: real, y2: real) -> bool {
    &&& 0 <= i && i + 1 < c.len()
    &&& c[i].0 <= x < x2 <= c[i + 1].0
    &&& y == height(c[i], c[i + 1], x) && y2 == height(c[i], c[i + 1], x2)
}

// a trapezoid between the chains, each side along one piece, to the end of the shorter one or to `until`
spec fn between<T: GeoNum>(m: MonoPoly<T>, t: Trapz<T>, until: real) -> bool {
    exists|i: int, j: int| #[trigger] along_both(m, i, j, t, until)
}

spec fn along_both<T: GeoNum>(m: MonoPoly<T>, i: int, j: int, t: Trapz<T>, until: real) -> bool {
    &&& along_chain(pts(m.top), i, t.left.x.v(), t.left.top.v(), t.right.x.v(), t.right.top.v())
    &&& along_chain(pts(m.bot), j, t.left.x.v(), t.left.bot.v(), t.right.x.v(), t.right.bot.v())
    &&& t.right.x.v() <= until
    &&& t.right.x.v() == until || t.right.x.v() == pts(m.top)[i + 1].0 || t.right.x.v() == pts(m.bot)[j + 1].0
}

spec fn trapz<T: GeoNum>(t: Trapz<T>) -> ((real, real, real), (real, real, real)) {
    (trip(t.left), trip(t.right))
}

// the trapezoids are fixed by where they start and what they run to
proof fn lemma_one_way<T: GeoNum>(m: MonoPoly<T>, t: Trapz<T>, u: Trapz<T>, until: real)
    requires
        mono(m),
        between(m, t, until),
        between(m, u, until),
        t.left.x.v() == u.left.x.v(),
    ensures
        trapz(t) == trapz(u),
{
    let (i, j) = choose|i: int, j: int| #[trigger] along_both(m, i, j, t, until);
    let (k, l) = choose|i: int, j: int| #[trigger] along_both(m, i, j, u, until);
    let (a, b) = (pts(m.top), pts(m.bot));
    if i < k {
        lemma_increasing(a, i, k);
        if i + 1 < k {
            lemma_increasing(a, i + 1, k);
        }
    } else if k < i {
        lemma_increasing(a, k, i);
        if k + 1 < i {
            lemma_increasing(a, k + 1, i);
        }
    }
    if j < l {
        lemma_increasing(b, j, l);
        if j + 1 < l {
            lemma_increasing(b, j + 1, l);
        }
    } else if l < j {
        lemma_increasing(b, l, j);
        if l + 1 < j {
            lemma_increasing(b, l + 1, j);
        }
    }
    assert(i == k && j == l);
}

// C18: pulling and pushing give the same trapezoids
proof fn lemma_same<T: GeoNum>(m: MonoPoly<T>, v: Seq<Trapz<T>>, w: Seq<Trapz<T>>, x: real, x2: real, until: real)
    requires
        mono(m),
        swept(m, v, x, x2, until),
        swept(m, w, x, x2, until),
    ensures
        v.len() == w.len(),
        forall|i: int| 0 <= i < v.len() ==> trapz(#[trigger] v[i]) == trapz(w[i]),
{
    let n = if v.len() < w.len() { v.len() as int } else { w.len() as int };
    lemma_same_upto(m, v, w, x, x2, until, n);
    if v.len() < w.len() {
        lemma_from(m, w, x, x2, until, n);
        if n > 0 {
            assert(trapz(v[n - 1]) == trapz(w[n - 1]));
            assert(joined(w, n));
        }
    } else if w.len() < v.len() {
        lemma_from(m, v, x, x2, until, n);
        if n > 0 {
            assert(trapz(v[n - 1]) == trapz(w[n - 1]));
            assert(joined(v, n));
        }
    }
}

proof fn lemma_same_upto<T: GeoNum>(m: MonoPoly<T>, v: Seq<Trapz<T>>, w: Seq<Trapz<T>>, x: real, x2: real, until: real, k: int)
    requires
        mono(m),
        swept(m, v, x, x2, until),
        swept(m, w, x, x2, until),
        0 <= k <= v.len(),
        k <= w.len(),
    ensures
        forall|i: int| 0 <= i < k ==> trapz(#[trigger] v[i]) == trapz(w[i]),
    decreases k,
{
    if k > 0 {
        lemma_same_upto(m, v, w, x, x2, until, k - 1);
        if k > 1 {
            assert(joined(v, k - 1) && joined(w, k - 1));
            assert(trapz(v[k - 2]) == trapz(w[k - 2]));
        }
        assert(between(m, v[k - 1], until) && between(m, w[k - 1], until));
        lemma_one_way(m, v[k - 1], w[k - 1], until);
    }
}

// trapezoids have a width
proof fn lemma_from<T: GeoNum>(m: MonoPoly<T>, v: Seq<Trapz<T>>, x: real, x2: real, until: real, i: int)
    requires
        swept(m, v, x, x2, until),
        0 <= i < v.len(),
    ensures
        v[i].left.x.v() < x2,
    decreases v.len() - i,
{
    assert(between(m, v[i], until));
    if i + 1 < v.len() {
        lemma_from(m, v, x, x2, until, i + 1);
        assert(joined(v, i + 1));
    }
}

// so a sweep that goes nowhere emits none
proof fn lemma_rightward<T: GeoNum>(m: MonoPoly<T>, v: Seq<Trapz<T>>, x: real, x2: real, until: real)
    requires
        swept(m, v, x, x2, until),
        v.len() > 0,
    ensures
        x < x2,
{
    lemma_from(m, v, x, x2, until, 0);
}

spec fn swept<T: GeoNum>(m: MonoPoly<T>, v: Seq<Trapz<T>>, x: real, x2: real, until: real) -> bool {
    &&& contiguous(v, x, x2)
    &&& forall|i: int| 0 <= i < v.len() ==> between(m, #[trigger] v[i], until)
}

// C18: where the cursor stands after running to `until`
proof fn lemma_target<'a, T: GeoFloat>(s: Scanner<'a, T>, s2: Scanner<'a, T>, until: real)
    requires
        cursor(s),
        cursor(s2),
        s2.poly == s.poly,
        s.curr.x.v() <= s2.curr.x.v(),
        s2.curr.x.v() >= until || at_end(s2),
        s2.curr.x.v() <= until || s2.curr.x.v() == s.curr.x.v(),
    ensures
        s2.curr.x.v() == if until <= s.curr.x.v() {
            s.curr.x.v()
        } else if until <= pts(s.poly.top).last().0 {
            until
        } else {
            pts(s.poly.top).last().0
        },
{
    lemma_cursor_end(s);
    lemma_cursor_end(s2);
}

// pulling one by one, as a caller does
fn pull_all<'a, T: GeoFloat>(s: &mut Scanner<'a, T>, until: T) -> (v: Vec<Trapz<T>>)
    requires
        cursor(*old(s)),
    ensures
        cursor(*final(s)),
        final(s).poly == old(s).poly,
        swept(*old(s).poly, v@, old(s).curr.x.v(), final(s).curr.x.v(), until.v()),
        final(s).curr.x.v() >= until.v() || at_end(*final(s)),
        final(s).curr.x.v() <= until.v() || final(s).curr.x.v() == old(s).curr.x.v(),
{
    let mut v: Vec<Trapz<T>> = Vec::new();
    loop
        invariant
            cursor(*s),
            s.poly == old(s).poly,
            swept(*old(s).poly, v@, old(s).curr.x.v(), s.curr.x.v(), until.v()),
            s.curr.x.v() <= until.v() || s.curr.x.v() == old(s).curr.x.v(),
        ensures
            s.curr.x.v() >= until.v() || at_end(*s),
        decreases left_to_go(*s), (if s.curr.x.v() < until.v() { 1int } else { 0int }),
    {
        let ghost (x1, v1) = (s.curr.x.v(), v@);
        match s.advance_to(until) {
            Some(t) => {
                proof {
                    lemma_contiguous_push(v1, old(s).curr.x.v(), x1, t);
                }
                v.push(t);
            },
            None => break,
        }
    }
    v
}

spec fn joined<T: GeoNum>(v: Seq<Trapz<T>>, i: int) -> bool {
    v[i].left.x.v() == v[i - 1].right.x.v()
}

// trapezoids without a gap from x to x2
spec fn contiguous<T: GeoNum>(v: Seq<Trapz<T>>, x: real, x2: real) -> bool {
    &&& forall|i: int| 0 < i < v.len() ==> #[trigger] joined(v, i)
    &&& if v.len() == 0 {
        x == x2
    } else {
        v[0].left.x.v() == x && v.last().right.x.v() == x2
    }
}

proof fn lemma_contiguous_push<T: GeoNum>(v: Seq<Trapz<T>>, x: real, x2: real, t: Trapz<T>)
    requires
        contiguous(v, x, x2),
        t.left.x.v() == x2,
    ensures
        contiguous(v.push(t), x, t.right.x.v()),
{
    let w = v.push(t);
    assert forall|i: int| 0 < i < w.len() implies #[trigger] joined(w, i) by {
        if i < v.len() {
            assert(joined(v, i));
        }
    }
}

// the cursor never passes the right end, and stands there when nothing is left
proof fn lemma_cursor_end<'a, T: GeoFloat>(s: Scanner<'a, T>)
    requires
        cursor(s),
    ensures
        pts(s.poly.top)[0].0 <= s.curr.x.v() <= pts(s.poly.top).last().0,
        at_end(s) ==> s.curr.x.v() == pts(s.poly.top).last().0,
        s.top_idx + 1 == s.poly.top.0@.len() || s.bot_idx + 1 == s.poly.bot.0@.len() ==> s.curr.x.v() == pts(s.poly.top).last().0,
{
    let (t, b) = (pts(s.poly.top), pts(s.poly.bot));
    let (i, j) = (s.top_idx as int, s.bot_idx as int);
    if i > 0 {
        lemma_increasing(t, 0, i);
    }
    if i + 1 < t.len() {
        lemma_increasing(t, i, t.len() - 1);
        if i + 2 < t.len() {
            lemma_increasing(t, i + 1, t.len() - 1);
        }
    }
    if j > 0 {
        lemma_increasing(b, 0, j);
    }
    if j + 1 < b.len() {
        lemma_increasing(b, j, b.len() - 1);
        if j + 2 < b.len() {
            lemma_increasing(b, j + 1, b.len() - 1);
        }
    }
}

// what the pieces under the cursor look like
proof fn lemma_pieces<'a, T: GeoFloat>(s: Scanner<'a, T>)
    requires
        cursor(s),
    ensures
        s.poly.top.0@.len() <= usize::MAX, s.poly.bot.0@.len() <= usize::MAX,
        pts(s.poly.top).len() == s.poly.top.0@.len(), pts(s.poly.bot).len() == s.poly.bot.0@.len(),
        forall|i: int| 0 <= i < s.poly.top.0@.len() ==> pts(s.poly.top)[i] == at(#[trigger] s.poly.top.0@[i]),
        forall|i: int| 0 <= i < s.poly.bot.0@.len() ==> pts(s.poly.bot)[i] == at(#[trigger] s.poly.bot.0@[i]),
        s.top_idx + 1 < s.poly.top.0@.len() ==> pts(s.poly.top)[s.top_idx as int].0 <= s.curr.x.v() <= pts(s.poly.top)[s.top_idx + 1].0,
        s.bot_idx + 1 < s.poly.bot.0@.len() ==> pts(s.poly.bot)[s.bot_idx as int].0 <= s.curr.x.v() <= pts(s.poly.bot)[s.bot_idx + 1].0,
        s.top_idx + 1 < s.poly.top.0@.len() ==> pts(s.poly.top)[s.top_idx + 1].0 <= pts(s.poly.top).last().0 && piece(pts(s.poly.top), s.top_idx as int),
        s.bot_idx + 1 < s.poly.bot.0@.len() ==> pts(s.poly.bot)[s.bot_idx + 1].0 <= pts(s.poly.bot).last().0 && piece(pts(s.poly.bot), s.bot_idx as int),
{
    assert(s.poly.top.0.len() <= usize::MAX && s.poly.bot.0.len() <= usize::MAX);
    let (t, b) = (pts(s.poly.top), pts(s.poly.bot));
    let (i, j) = (s.top_idx as int, s.bot_idx as int);
    if i + 1 < t.len() {
        lemma_increasing(t, i, i + 1);
        lemma_piece(t, i);
        if i + 2 < t.len() {
            lemma_increasing(t, i + 1, t.len() - 1);
        }
    }
    if j + 1 < b.len() {
        lemma_increasing(b, j, j + 1);
        lemma_piece(b, j);
        if j + 2 < b.len() {
            lemma_increasing(b, j + 1, b.len() - 1);
        }
    }
}

// the piece from vertex i: its height at its right end, and how the cursor stands there
spec fn piece(c: Seq<(real, real)>, i: int) -> bool {
    &&& c[i].0 < c[i + 1].0 ==> height(c[i], c[i + 1], c[i + 1].0) == c[i + 1].1
    &&& stands(c, i + 1, c[i + 1].0, c[i + 1].1)
}

proof fn lemma_piece(c: Seq<(real, real)>, i: int)
    requires
        increasing(c),
        0 <= i && i + 1 < c.len(),
    ensures
        piece(c, i),
{
    if c[i].0 < c[i + 1].0 {
        lemma_interpolate(c[i], c[i + 1], c[i + 1].0);
    }
    lemma_vertex(c, i + 1);
}

// the cursor stands at a vertex
proof fn lemma_vertex(c: Seq<(real, real)>, i: int)
    requires
        0 <= i < c.len(),
    ensures
        stands(c, i, c[i].0, c[i].1),
{
    if i + 1 < c.len() && c[i].0 < c[i + 1].0 {
        lemma_interpolate(c[i], c[i + 1], c[i].0);
    }
}

// the formula of the code: it gives the height, which lies between the ends
proof fn lemma_interpolate(p: (real, real), q: (real, real), x: real)
    requires
        p.0 < q.0,
        p.0 <= x <= q.0,
    ensures
        (x - p.0) / (q.0 - p.0) * (q.1 - p.1) + p.1 == height(p, q, x),
        p.1 <= q.1 ==> p.1 <= height(p, q, x) <= q.1,
        q.1 <= p.1 ==> q.1 <= height(p, q, x) <= p.1,
        height(p, q, p.0) == p.1,
        height(p, q, q.0) == q.1,
{
    let (dx, dy, c) = (q.0 - p.0, q.1 - p.1, x - p.0);
    let f = c / dx;
    assert(0real <= f <= 1real) by (nonlinear_arith)
        requires
            f == c / dx,
            dx > 0real,
            0real <= c <= dx,
    ;
    assert(f * dy == dy * c / dx) by (nonlinear_arith)
        requires
            f == c / dx,
            dx > 0real,
    ;
    assert(dy >= 0real ==> 0real <= f * dy <= dy) by (nonlinear_arith)
        requires
            0real <= f <= 1real,
    ;
    assert(dy <= 0real ==> dy <= f * dy <= 0real) by (nonlinear_arith)
        requires
            0real <= f <= 1real,
    ;
    assert(dy * dx / dx == dy) by (nonlinear_arith)
        requires
            dx > 0real,
    ;
    assert(dy * 0real / dx == 0real) by (nonlinear_arith)
        requires
            dx > 0real,
    ;
}

impl<T: GeoNum> FromSpecImpl<(Trip<T>, Trip<T>)> for Trapz<T> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(t: (Trip<T>, Trip<T>)) -> Self {
        Trapz { left: t.0, right: t.1 }
    }
}

impl<T: GeoNum> From<(Trip<T>, Trip<T>)> for Trapz<T> {
//@@ fn from self=Trapz trait=From
    fn from(tup: (Trip<T>, Trip<T>)) -> (ret: Self) {
        Trapz {
            left: tup.0,
            right: tup.1,
        }
    }
//@@ end
}

impl<T: GeoNum> MonoPoly<T> {
//@@ fn new self=MonoPoly
    fn new(top: LineString<T>, bot: LineString<T>) -> (ret: Self) /*@
        requires
            chains(pts(top), pts(bot)),
        ensures
            ret.top == top, ret.bot == bot, mono(ret),
    @*/ {
        /*@ proof { lemma_increasing(pts(top), 0, pts(top).len() - 1); } @*/
        rt_assert(top.0.first() == bot.0.first());
        rt_assert(top.0.last() == bot.0.last());
        rt_assert(top.0.first() != top.0.last());
        let mut at_a : usize = 1 ; while at_a < top.0 . len ( ) /*@
            invariant
                1 <= at_a, forall|i: int| 0 < i < at_a && i < top.0@.len() ==> #[trigger] rises(pts(top), i), chains(pts(top), pts(bot)),
            decreases top.0@.len() + 1 - at_a,
        @*/ { let win = [ top.0 [ at_a - 1 ] , top.0 [ at_a ] ] ; /*@ proof { assert(rises(pts(top), at_a as int)); assert(at(win[0]) == pts(top)[at_a - 1] && at(win[1]) == pts(top)[at_a as int]); } @*/ if SweepPoint::from(win[0]) >= SweepPoint::from(win[1]) {
            }
            rt_assert(SweepPoint::from(win[0]) < SweepPoint::from(win[1])); at_a = at_a + 1 ; } let mut at_b : usize = 1 ; while at_b < bot.0 . len ( ) /*@
            invariant
                1 <= at_b, forall|i: int| 0 < i < at_b && i < bot.0@.len() ==> #[trigger] rises(pts(bot), i), chains(pts(top), pts(bot)),
            decreases bot.0@.len() + 1 - at_b,
        @*/ { let win = [ bot.0 [ at_b - 1 ] , bot.0 [ at_b ] ] ; /*@ proof { assert(rises(pts(bot), at_b as int)); assert(at(win[0]) == pts(bot)[at_b - 1] && at(win[1]) == pts(bot)[at_b as int]); } @*/ if SweepPoint::from(win[0]) >= SweepPoint::from(win[1]) {
            }
            rt_assert(SweepPoint::from(win[0]) < SweepPoint::from(win[1])); at_b = at_b + 1 ; }
        Self { top, bot }
    }
//@@ end

//@@ fn bounding_rect self=MonoPoly trait=BoundingRect
//@@ sub `Self :: Output` => `Rect < T >`
    fn bounding_rect(&self) -> (ret: Rect < T >) /*@
        requires
            mono(*self),
            extended(pts(self.top), pts(self.bot)),
        ensures
            boxed(pts(self.top), pts(self.bot), (at(ret.min), at(ret.max))),
    @*/ {
        let min_x = self.top.0[0].x;
        let max_x = self.top.0.last().unwrap().x;
        let mut max_y = self.top.0[0].y;
        for coord in /*@ it: @*/ self.top.0.iter() /*@
            invariant
                mono(*self), it.seq().len() == self.top.0@.len(),
                forall|i: int| 0 <= i < self.top.0@.len() ==> *(#[trigger] it.seq()[i]) == self.top.0@[i],
                forall|i: int| 0 <= i < it.index() ==> (#[trigger] pts(self.top)[i]).1 <= max_y.v(),
                exists|i: int| 0 <= i < pts(self.top).len() && (#[trigger] pts(self.top)[i]).1 == max_y.v(),
        @*/ {
            /*@ proof { assert(*coord == self.top.0@[it.index() as int]); assert(pts(self.top)[it.index() as int] == at(*coord)); } @*/
            if coord.y > max_y {
                max_y = coord.y;
            }
        }
        let mut min_y = max_y;
        for coord in /*@ it: @*/ self.bot.0.iter() /*@
            invariant
                mono(*self), it.seq().len() == self.bot.0@.len(),
                forall|i: int| 0 <= i < self.bot.0@.len() ==> *(#[trigger] it.seq()[i]) == self.bot.0@[i],
                forall|i: int| 0 <= i < it.index() ==> (#[trigger] pts(self.bot)[i]).1 >= min_y.v(),
                min_y == max_y || exists|i: int| 0 <= i < pts(self.bot).len() && (#[trigger] pts(self.bot)[i]).1 == min_y.v(),
                min_y.v() <= max_y.v(),
        @*/ {
            /*@ proof { assert(*coord == self.bot.0@[it.index() as int]); assert(pts(self.bot)[it.index() as int] == at(*coord)); } @*/
            if coord.y < min_y {
                min_y = coord.y;
            }
        }
        rt_assert(min_x < max_x);
        rt_assert(min_y < max_y);
        Rect::new((min_x, min_y), (max_x, max_y))
    }
//@@ end

//@@ fn top self=MonoPoly
    fn top(&self) -> (ret: &LineString<T>) /*@ ensures *ret == self.top, @*/ {
        &self.top
    }
//@@ end

//@@ fn bot self=MonoPoly
    fn bot(&self) -> (ret: &LineString<T>) /*@ ensures *ret == self.bot, @*/ {
        &self.bot
    }
//@@ end

//@@ fn into_ls_pair self=MonoPoly
    fn into_ls_pair(self) -> (ret: (LineString<T>, LineString<T>)) /*@ ensures ret == (self.top, self.bot), @*/ {
        (self.top, self.bot)
    }
//@@ end

//@@ fn into_polygon self=MonoPoly
//@@ sub `$a . extend ( $b . drain ( $*k .. ) )` => `append_from ( & mut $a , & mut $b , $*k )`
    fn into_polygon(self) -> (ret: Polygon<T>) /*@
        requires
            mono(self),
        ensures
            ret.exterior.0@ == ring_of(self.top.0@, self.bot.0@),
            ret.interiors@.len() == 0,
            at(ret.exterior.0@[0]) == at(ret.exterior.0@.last()),
    @*/ {
        let mut down = self.bot.0;
        let mut top = self.top.0;
        down.reverse();
        rt_assert(down.first() == top.last());
        append_from ( & mut top , & mut down , 1 );
        let geom = LineString(top);
        rt_assert(geom.is_closed());
        Polygon::new(geom, vec![])
    }
//@@ end

}

impl<T: GeoFloat> MonoPoly<T> {
//@@ fn scan_lines self=MonoPoly
//@@ sub `$s . advance_to ( $*a ) . count ( )` => `loop { match $s . advance_to ( $*a ) { Some ( _ ) => { } , None => break , } }`
    fn scan_lines(&self, left: T) -> (ret: Scanner<'_, T>) /*@
        requires
            mono(*self),
        ensures
            cursor(ret),
            *ret.poly == *self,
            ret.curr.x.v() >= left.v() || at_end(ret),
            ret.curr.x.v() <= left.v() || ret.curr.x.v() == pts(self.top)[0].0,
    @*/ {
        let mut scanner = Scanner::new(self);
        loop /*@
            invariant
                cursor(scanner), *scanner.poly == *self, mono(*self),
                scanner.curr.x.v() <= left.v() || scanner.curr.x.v() == pts(self.top)[0].0,
            ensures
                scanner.curr.x.v() >= left.v() || at_end(scanner),
            decreases left_to_go(scanner), (if scanner.curr.x.v() < left.v() { 1int } else { 0int }),
        @*/ { match scanner . advance_to ( left ) { Some ( _ ) => { } , None => break , } };
        scanner
    }
//@@ end
}

//@@ struct Scanner
struct Scanner<'a, T: GeoFloat> {
    poly: &'a MonoPoly<T>,
    curr: Trip<T>,
    top_idx: usize,
    bot_idx: usize,
}
//@@ end

// one step of the cursor: which chains move on, and where it stands then
spec fn peeked<'a, T: GeoFloat>(s: Scanner<'a, T>, until: T, r: Option<(Option<Ordering>, Trip<T>)>) -> bool {
    let (t, b) = (pts(s.poly.top), pts(s.poly.bot));
    let (i, j) = (s.top_idx as int, s.bot_idx as int);
    match r {
        None => at_end(s),
        Some((o, n)) => {
            let (i2, j2) = (if o == Some(Ordering::Less) || o == Some(Ordering::Equal) { i + 1 } else { i }, if o == Some(Ordering::Greater) || o == Some(Ordering::Equal) { j + 1 } else { j });
            &&& s.curr.x.v() <= n.x.v() <= until.v()
            &&& stands(t, i2, n.x.v(), n.top.v()) && stands(b, j2, n.x.v(), n.bot.v())
            &&& o is None ==> n.x == until
            &&& o is Some && s.curr.x.v() < n.x.v() ==> n.x.v() == if o == Some(Ordering::Less) { t[i + 1].0 } else { b[j + 1].0 }
            &&& s.curr.x.v() < n.x.v() ==> along_chain(t, i, s.curr.x.v(), s.curr.top.v(), n.x.v(), n.top.v()) && along_chain(b, j, s.curr.x.v(), s.curr.bot.v(), n.x.v(), n.bot.v())
        },
    }
}

impl<'a, T: GeoFloat> Scanner<'a, T> {
//@@ fn new self=Scanner
    fn new(poly: &'a MonoPoly<T>) -> (ret: Self) /*@
        requires
            mono(*poly),
        ensures
            cursor(ret), ret.poly == poly,
            trip(ret.curr) == (pts(poly.top)[0].0, pts(poly.top)[0].1, pts(poly.top)[0].1),
    @*/ {
        /*@ proof { lemma_vertex(pts(poly.top), 0); lemma_vertex(pts(poly.bot), 0); } @*/
        let top = poly.top().0[0];
        let bot = poly.bot().0[0];
        rt_assert(top == bot);
        Self {
            poly,
            curr: Trip {
                x: top.x,
                top: top.y,
                bot: bot.y,
            },
            top_idx: 0,
            bot_idx: 0,
        }
    }
//@@ end

//@@ fn peek_next self=Scanner
    fn peek_next(&self, until: T) -> (ret: Option<(Option<Ordering>, Trip<T>)>) /*@
        requires
            cursor(*self),
            self.curr.x.v() < until.v(),
        ensures
            peeked(*self, until, ret),
    @*/ {
        /*@ proof { lemma_cursor_end(*self); lemma_pieces(*self); } @*/
        let top = &self.poly.top().0;
        let bot = &self.poly.bot().0;
        let top_val = if self.top_idx + 1 >= top.len() {
            None
        } else {
            Some(top[self.top_idx + 1])
        };
        let bot_val = if self.bot_idx + 1 >= bot.len() {
            None
        } else {
            Some(bot[self.bot_idx + 1])
        };
        let interpolate = |p1: Coordinate<T>, p2: Coordinate<T>, x : T | -> ( r : T ) /*@
            requires
                p1.x.v() <= x.v() <= p2.x.v(),
            ensures
                p1.x.v() == p2.x.v() ==> r == p2.y,
                p1.x.v() < p2.x.v() ==> r.v() == height(at(p1), at(p2), x.v()),
        @*/ {
            /*@ proof { if p1.x.v() < p2.x.v() { lemma_interpolate(at(p1), at(p2), x.v()); } } @*/
            rt_assert(p1.x <= x && x <= p2.x);
            if p2.x == p1.x {
                return p2.y;
            }
            let frac = (x - p1.x) / (p2.x - p1.x);
            let y = frac * (p2.y - p1.y) + p1.y;
            let (min_y, max_y) = if p1.y > p2.y {
                (p2.y, p1.y)
            } else {
                (p1.y, p2.y)
            };
            y.max(min_y).min(max_y)
        };
        let (new_top, new_bot, ord, new_x) = match (top_val, bot_val) {
            (None, None) => return None,
            (Some(new_top), Some(new_bot)) => {
                let ord = new_top
                    .x
                    .partial_cmp(&new_bot.x)
                    .expect("coords. must be orderable");
                let new_x = match ord {
                    Ordering::Less => new_top.x,
                    _ => new_bot.x,
                };
                (new_top, new_bot, ord, new_x)
            }
            (None, Some(new_bot)) => {
                rt_assert(new_bot.x == self.curr.x);
                (top[self.top_idx], new_bot, Ordering::Greater, self.curr.x)
            }
            (Some(new_top), None) => {
                rt_assert(new_top.x == self.curr.x);
                (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
            }
        };
        if until < new_x {
            Some((
                None,
                Trip {
                    x: until,
                    top: interpolate(top[self.top_idx], new_top, until),
                    bot: interpolate(bot[self.bot_idx], new_bot, until),
                },
            ))
        } else {
            match ord {
                Ordering::Less => Some((
                    Some(ord),
                    Trip {
                        x: new_top.x,
                        top: new_top.y,
                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
                    },
                )),
                Ordering::Equal => Some((
                    Some(ord),
                    Trip {
                        x: new_top.x,
                        top: new_top.y,
                        bot: new_bot.y,
                    },
                )),
                Ordering::Greater => Some((
                    Some(ord),
                    Trip {
                        x: new_bot.x,
                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
                        bot: new_bot.y,
                    },
                )),
            }
        }
    }
//@@ end

//@@ fn advance_next self=Scanner
    fn advance_next(&mut self, until: T) -> (ret: Option<Option<Trapz<T>>>) /*@
        requires
            cursor(*old(self)),
            old(self).curr.x.v() < until.v(),
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            ret is None ==> *final(self) == *old(self) && at_end(*old(self)),
            ret is Some ==> left_to_go(*final(self)) < left_to_go(*old(self)) || left_to_go(*final(self)) == left_to_go(*old(self)) && final(self).curr.x.v() == until.v(),
            old(self).curr.x.v() <= final(self).curr.x.v() <= until.v(),
            ret matches Some(Some(t)) ==> t.left == old(self).curr && t.right == final(self).curr && between(*old(self).poly, t, until.v()),
            ret matches Some(None) ==> final(self).curr.x.v() == old(self).curr.x.v(),
    @*/ {
        rt_assert(self.curr.x < until);
        /*@ proof { lemma_pieces(*self); } let ghost s0 = *self; @*/
        let mut result /*@ : Option<Trapz<T>> @*/ = None;
        let (ord, next) = match self.peek_next(until) {
            Some(e) => e,
            None => return None,
        };
        if self.curr.x < next.x {
                        result = Some((self.curr, next).into());
            /*@ proof { assert(result matches Some(t) && t.left == s0.curr && t.right == next); assert(along_both(*s0.poly, s0.top_idx as int, s0.bot_idx as int, result->0, until.v())); assert(between(*s0.poly, result->0, until.v())); } @*/
        }
        self.curr = next;
        if let Some(ord) = ord {
            match ord {
                Ordering::Less => {
                    self.top_idx += 1;
                }
                Ordering::Equal => {
                    self.top_idx += 1;
                    self.bot_idx += 1;
                }
                Ordering::Greater => {
                    self.bot_idx += 1;
                }
            }
        }
        Some(result)
    }
//@@ end

//@@ fn advance_to self=Scanner
//@@ sub `advance_to < 'b > ( & 'b mut self , $*a ) -> impl Iterator < Item = Trapz < T > > + 'b where T : 'a , {` => `advance_to ( & mut self , $*a ) -> Option < Trapz < T > > {`
//@@ sub `let this : & mut Scanner < 'b , T > = unsafe { std :: mem :: transmute ( self ) } ;` => ``
//@@ sub `this` => `self`
//@@ sub `from_fn ( move || { $*b } )` => `$*b`
    fn advance_to(&mut self, until: T) -> (ret: Option<Trapz<T>>) /*@
        requires
            cursor(*old(self)),
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            ret matches Some(t) ==> {
                &&& t.left.x.v() == old(self).curr.x.v() && t.right == final(self).curr && between(*old(self).poly, t, until.v())
                &&& old(self).curr.x.v() < final(self).curr.x.v() <= until.v()
                &&& left_to_go(*final(self)) < left_to_go(*old(self)) || left_to_go(*final(self)) == left_to_go(*old(self)) && final(self).curr.x.v() == until.v()
            },
            ret is None ==> final(self).curr.x.v() == old(self).curr.x.v() && (final(self).curr.x.v() >= until.v() || at_end(*final(self))),
    @*/ {
        while self.curr.x < until /*@
            invariant
                cursor(*self), self.poly == old(self).poly, self.curr.x.v() == old(self).curr.x.v(), left_to_go(*self) <= left_to_go(*old(self)),
            decreases left_to_go(*self),
        @*/ {
                match self.advance_next(until) {
                    Some(Some(t)) => return Some(t),
                    None => return None,
                    _ => {},
                }
            }
            None
    }
//@@ end

//@@ fn advance_upto self=Scanner
//@@ sub `< F : FnMut ( Trapz < T > ) >` => ``
//@@ sub `mut proc : F` => `proc : & mut Vec < Trapz < T > >`
//@@ sub `proc ( $*r )` => `proc . push ( $*r )`
    fn advance_upto(&mut self, until: T, proc : & mut Vec < Trapz < T > >) /*@
        requires
            cursor(*old(self)),
            old(proc)@.len() == 0,
        ensures
            cursor(*final(self)),
            final(self).poly == old(self).poly,
            contiguous(final(proc)@, old(self).curr.x.v(), final(self).curr.x.v()),
            forall|i: int| 0 <= i < final(proc)@.len() ==> between(*old(self).poly, #[trigger] final(proc)@[i], until.v()),
            final(self).curr.x.v() >= until.v() || at_end(*final(self)),
            final(self).curr.x.v() <= until.v() || final(self).curr.x.v() == old(self).curr.x.v(),
    @*/ {
        while self.curr.x < until /*@
            invariant
                cursor(*self), self.poly == old(self).poly,
                contiguous(proc@, old(self).curr.x.v(), self.curr.x.v()),
                forall|i: int| 0 <= i < proc@.len() ==> between(*old(self).poly, #[trigger] proc@[i], until.v()),
                self.curr.x.v() <= until.v() || self.curr.x.v() == old(self).curr.x.v(),
            decreases left_to_go(*self), (if self.curr.x.v() < until.v() { 1int } else { 0int }),
        @*/ {
            /*@ let ghost (s0, p0) = (*self, proc@); @*/
            if let Some(result) = self.advance_next(until) {
                if let Some(result) = result {
                    /*@ proof { lemma_contiguous_push(p0, old(self).curr.x.v(), s0.curr.x.v(), result); } @*/
                    proc . push ( result );
                }
            } else {
                return;
            }
        }
    }
//@@ end

//@@ fn curr self=Scanner
    fn curr(&self) -> (ret: Trip<T>) /*@ ensures ret == self.curr, @*/ {
        self.curr
    }
//@@ end
}
