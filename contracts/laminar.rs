// ---- laminar.rs ------------------------------------------------------------------------------
impl<T: GeoNum> LineString<T> {
    fn dup(&self) -> (r: Self)
        ensures
            r == *self,
    {
        dup_ring(self)
    }
}

// assumed: Clone of a LineString
#[verifier::external_body]
fn dup_ring<T: GeoNum>(l: &LineString<T>) -> (r: LineString<T>)
    ensures
        r == *l,
{
    unimplemented!()
}

// assumed: vec![v; n]
#[verifier::external_body]
fn filled<V>(v: V, n: usize) -> (r: Vec<V>)
    ensures
        r@.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == v,
{
    unimplemented!()
}

impl<T: GeoNum> Polygon<T> {
    // assumed: geo_types::Polygon::new, of closed rings
    #[verifier::external_body]
    fn new(ext: LineString<T>, ints: Vec<LineString<T>>) -> (r: Self)
        requires
            closed(ats(ext.0@)),
            ints@.len() == 0,
        ensures
            r.ext == ext,
            r.ints@.len() == 0,
    {
        unimplemented!()
    }
}

// assumed: geo_types::Polygon::interiors_push, of a closed ring
#[verifier::external_body]
fn push_interior<T: GeoNum>(ps: &mut Vec<Option<Polygon<T>>>, i: usize, l: LineString<T>)
    requires
        i < old(ps)@.len(),
        old(ps)@[i as int] is Some,
        closed(ats(l.0@)),
    ensures
        final(ps)@.len() == old(ps)@.len(),
        forall|k: int| 0 <= k < old(ps)@.len() && k != i ==> #[trigger] final(ps)@[k] == old(ps)@[k],
        final(ps)@[i as int] is Some,
        final(ps)@[i as int]->Some_0.ext == old(ps)@[i as int]->Some_0.ext,
        final(ps)@[i as int]->Some_0.ints@ == old(ps)@[i as int]->Some_0.ints@.push(l),
{
    unimplemented!()
}

spec fn somes<V>(s: Seq<Option<V>>) -> Seq<V>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let r = somes(s.drop_last());
        match s.last() {
            Some(v) => r.push(v),
            None => r,
        }
    }
}

// assumed: into_iter().filter_map(|p| p).collect()
#[verifier::external_body]
fn present<V>(s: Vec<Option<V>>) -> (r: Vec<V>)
    ensures
        r@ == somes(s@),
{
    unimplemented!()
}

//@@ struct Edge file=src/bops/laminar.rs rename=Side1
//@@ sub `struct Edge` => `struct Bound`
struct Bound<T: GeoFloat> {
    geom: LineOrPoint<T>,
    ring_idx: usize,
    region: Cell<Option<usize>>,
}
//@@ end

// the edges of the rings, in order
spec fn bounds_of<T: Float>(s: Seq<Coordinate<T>>, n: int, i: int) -> Seq<Bound<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        bounds_of(s, n - 1, i).push(Bound { geom: of_line(line_at(s, n - 1)), ring_idx: i as usize, region: Cell { v: None } })
    }
}

spec fn bounds<T: Float>(rings: Seq<Ring<T>>, n: int) -> Seq<Bound<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        bounds(rings, n - 1) + bounds_of(rings[n - 1].coords.0@, rings[n - 1].coords.0@.len() - 1, n - 1)
    }
}

// the exterior a ring belongs to: of an exterior itself, of a hole the one around it
uninterp spec fn owner<T: Float>(rings: Seq<Ring<T>>) -> Seq<usize>;

// the rings neither cross nor overlap, and the polygons they bound do not either
uninterp spec fn laminar<T: Float>(rings: Seq<Ring<T>>) -> bool;

spec fn owned<T: Float>(rings: Seq<Ring<T>>, own: Seq<usize>) -> bool {
    &&& own.len() == rings.len()
    &&& forall|r: int| 0 <= r < rings.len() ==> #[trigger] own[r] < rings.len() && !rings[own[r] as int].is_hole
    &&& forall|r: int| 0 <= r < rings.len() && !rings[r].is_hole ==> #[trigger] own[r] == r
}

// one spot of the sweep over the rings: active edges, bottom to top
struct Turn {
    low: Seq<int>,
    ends: Seq<int>,
    high: Seq<int>,
    starts: Seq<int>,
}

spec fn before_turn(t: Turn) -> Seq<int> {
    t.low + t.ends + t.high
}

spec fn after_turn(t: Turn) -> Seq<int> {
    t.low + t.starts + t.high
}

spec fn current(tr: Seq<Turn>) -> Seq<int> {
    if tr.len() == 0 {
        Seq::empty()
    } else {
        after_turn(tr.last())
    }
}

// the exterior whose polygon is above these edges, if one is
spec fn lev(bs: Seq<int>, rs: Seq<usize>, own: Seq<usize>) -> Option<usize> {
    if bs.len() % 2 == 1 {
        Some(own[rs[bs.last()] as int])
    } else {
        None
    }
}

// two by two, the edges bound one polygon
spec fn paired(bs: Seq<int>, rs: Seq<usize>, own: Seq<usize>) -> bool {
    &&& bs.len() % 2 == 0
    &&& forall|k: int| 0 < k < bs.len() && k % 2 == 1 ==> own[rs[#[trigger] bs[k]] as int] == own[rs[bs[k - 1]] as int]
}

// a ring has an edge with its polygon below, among the first n that start
spec fn opens(t: Turn, n: int, rs: Seq<usize>, r: int) -> bool {
    exists|i: int| 0 <= i < n && rs[#[trigger] t.starts[i]] == r && (t.low.len() + i) % 2 == 1
}

spec fn opened(tr: Seq<Turn>, rs: Seq<usize>, r: int) -> bool {
    exists|k: int| 0 <= k < tr.len() && opens(#[trigger] tr[k], tr[k].starts.len() as int, rs, r)
}

spec fn single(s: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}

spec fn within(s: Seq<int>, n: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n
}

spec fn ring_ids<T: Float>(es: Seq<Bound<T>>) -> Seq<usize> {
    es.map_values(|e: Bound<T>| e.ring_idx)
}

// every edge has on record whose polygon is above it
#[verifier::opaque]
spec fn noted<T: Float>(bs: Seq<int>, es: Seq<Bound<T>>, own: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < bs.len() ==> es[#[trigger] bs[k]].region.v == lev(bs.take(k + 1), ring_ids(es), own)
}

// assumed: CrossingsIter over the edges of the rings of a result (C10, C11), which neither cross nor overlap, and whose polygons
// do not overlap either: the active edges bound them two by two, and a hole is first met with its polygon below it
struct Rounds<T: Float> {
    segs: Vec<Crossing<T>>,
    rs: Ghost<Seq<usize>>,
    own: Ghost<Seq<usize>>,
    tr: Ghost<Seq<Turn>>,
    left: Ghost<nat>,
}

impl<T: Float> Rounds<T> {
    #[verifier::external_body]
    fn of(es: &Vec<Bound<T>>, rings: Ghost<Seq<Ring<T>>>) -> (r: Self)
        requires
            es@ == bounds(rings@, rings@.len() as int),
            laminar(rings@),
        ensures
            r.rs@ == ring_ids(es@),
            r.own@ == owner(rings@),
            r.tr@.len() == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Coordinate<T>>)
        ensures
            final(self).rs == old(self).rs && final(self).own == old(self).own,
            final(self).own == old(self).own,
            match r {
                None => final(self).tr == old(self).tr && forall|i: int| 0 <= i < final(self).rs@.len() ==> opened(final(self).tr@, final(self).rs@, (#[trigger] final(self).rs@[i]) as int),
                Some(c) => {
                    let (tr, rs, own, l) = (final(self).tr@, final(self).rs@, final(self).own@, final(self).segs@);
                    let t = tr.last();
                    &&& tr.len() > 0 && old(self).tr@ == tr.drop_last()
                    &&& final(self).left@ < old(self).left@
                    &&& before_turn(t) == current(old(self).tr@)
                    &&& l.len() > 0
                    &&& records_ok(l, at(c), rs.len() as int)
                    &&& forall|s: Seq<Crossing<T>>| #[trigger] s.to_multiset() == l.to_multiset() && rowed(s) ==> dealt(s, t)
                    &&& single(after_turn(t)) && within(after_turn(t), rs.len() as int)
                    &&& paired(before_turn(t), rs, own) && paired(after_turn(t), rs, own)
                    &&& forall|i: int|
                        0 <= i < t.starts.len() && (t.low.len() + i) % 2 == 0 ==> own[rs[#[trigger] t.starts[i]] as int] == rs[t.starts[i]] || opened(tr.drop_last(), rs, rs[t.starts[i]] as int) || opens(
                            t,
                            i,
                            rs,
                            rs[t.starts[i]] as int,
                        )
                },
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn prev_active(&self, c: &Crossing<T>) -> (r: Option<(LineOrPoint<T>, usize)>)
        requires
            self.tr@.len() > 0,
            dealt(self.segs@, self.tr@.last()) && self.segs@.len() > 0 && self.segs@[0].at_left && *c == self.segs@[0],
        ensures
            ({
                let low = self.tr@.last().low;
                match r {
                    None => low.len() == 0,
                    Some((g, e)) => low.len() > 0 && low.last() == e,
                }
            }),
    {
        unimplemented!()
    }
}

// edges that start, bottom to top, then those that end
spec fn row_cmp<T: GeoNum>(a: Crossing<T>, b: Crossing<T>) -> Ordering {
    if a.at_left != b.at_left {
        if a.at_left {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    } else if a.at_left {
        lop_cmp(a.line, b.line)->Some_0
    } else {
        Ordering::Equal
    }
}

spec fn rowed<T: GeoNum>(l: Seq<Crossing<T>>) -> bool {
    forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> row_cmp(l[i], l[j]) != Ordering::Greater
}

spec fn rowable<T: GeoNum>(l: Seq<Crossing<T>>) -> bool {
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() ==> row_cmp(l[i], l[j]) == rev(row_cmp(l[j], l[i]))
    &&& forall|i: int, j: int, k: int|
        #![trigger l[i], l[j], l[k]]
        0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && row_cmp(l[i], l[j]) != Ordering::Greater && row_cmp(l[j], l[k]) != Ordering::Greater ==> row_cmp(
            l[i],
            l[k],
        ) != Ordering::Greater
}

// the first records are the edges that start, the others end; none overlaps another
spec fn dealt<T: GeoNum>(l: Seq<Crossing<T>>, t: Turn) -> bool {
    &&& t.starts.len() <= l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> ((#[trigger] l[i]).at_left <==> i < t.starts.len())
    &&& forall|i: int| 0 <= i < t.starts.len() ==> (#[trigger] l[i]).crossable == t.starts[i] && !l[i].has_overlap
}

// assumed: [T]::sort_by, by a total order
#[verifier::external_body]
fn sort_row<T: GeoNum, F: Fn(&Crossing<T>, &Crossing<T>) -> Ordering>(l: &mut Vec<Crossing<T>>, f: F)
    requires
        forall|a: Crossing<T>, b: Crossing<T>| #![trigger old(l)@.contains(a), old(l)@.contains(b)] old(l)@.contains(a) && old(l)@.contains(b) ==> call_requires(f, (&a, &b)),
        forall|a: Crossing<T>, b: Crossing<T>, o: Ordering|
            old(l)@.contains(a) && old(l)@.contains(b) && #[trigger] call_ensures(f, (&a, &b), o) ==> o == row_cmp(a, b),
        rowable(old(l)@),
    ensures
        final(l)@.to_multiset() == old(l)@.to_multiset(),
        rowed(final(l)@),
{
    l.sort_by(f)
}

// ---- the polygons ----
// the holes among the first n rings that belong to ring x
spec fn holes_in<T: Float>(rings: Seq<Ring<T>>, own: Seq<usize>, n: int, x: int) -> Seq<LineString<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        let h = holes_in(rings, own, n - 1, x);
        if rings[n - 1].is_hole && own[n - 1] == x {
            h.push(rings[n - 1].coords)
        } else {
            h
        }
    }
}

// what is put together from the first n rings
spec fn gathered<T: Float>(ps: Seq<Option<Polygon<T>>>, rings: Seq<Ring<T>>, own: Seq<usize>, n: int) -> bool {
    &&& ps.len() == rings.len()
    &&& forall|x: int|
        0 <= x < ps.len() ==> {
            let h = holes_in(rings, own, n, x);
            &&& (#[trigger] ps[x]) is Some <==> !rings[x].is_hole && (x < n || h.len() > 0)
            &&& ps[x] is Some ==> ps[x]->Some_0.ext == rings[x].coords && ps[x]->Some_0.ints@ == h
        }
}

// C15: every exterior is that of one polygon, with the holes it owns
spec fn nested<T: Float>(ps: Seq<Polygon<T>>, rings: Seq<Ring<T>>) -> bool {
    exists|q: Seq<Option<Polygon<T>>>| ps == somes(q) && #[trigger] gathered(q, rings, owner(rings), rings.len() as int)
}

proof fn lemma_row_pair<T: GeoNum>(a: Crossing<T>, b: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
        record_ok(b, q, n),
    ensures
        row_cmp(a, b) == rev(row_cmp(b, a)),
{
    if a.at_left && b.at_left {
        lemma_pair(a, b, q, n);
    }
}

proof fn lemma_row_triple<T: GeoNum>(a: Crossing<T>, b: Crossing<T>, c: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
        record_ok(b, q, n),
        record_ok(c, q, n),
        row_cmp(a, b) != Ordering::Greater,
        row_cmp(b, c) != Ordering::Greater,
    ensures
        row_cmp(a, c) != Ordering::Greater,
{
    if a.at_left && b.at_left && c.at_left {
        lemma_triple(a, b, c, q, n);
    }
}

proof fn lemma_rowable<T: GeoNum>(l: Seq<Crossing<T>>, q: Spot, n: int)
    requires
        records_ok(l, q, n),
    ensures
        rowable(l),
{
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() implies row_cmp(l[i], l[j]) == rev(row_cmp(l[j], l[i])) by {
        lemma_row_pair(l[i], l[j], q, n);
    }
    assert forall|i: int, j: int, k: int|
        #![trigger l[i], l[j], l[k]]
        0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && row_cmp(l[i], l[j]) != Ordering::Greater && row_cmp(l[j], l[k]) != Ordering::Greater
            implies row_cmp(l[i], l[k]) != Ordering::Greater by {
        lemma_row_triple(l[i], l[j], l[k], q, n);
    }
}


proof fn lemma_row_call<T: GeoNum>(l: Seq<Crossing<T>>, q: Spot, n: int)
    requires
        records_ok(l, q, n),
    ensures
        forall|a: Crossing<T>, b: Crossing<T>|
            #![trigger l.contains(a), l.contains(b)]
            l.contains(a) && l.contains(b) && a.at_left && b.at_left ==> placed(a.line, b.line) && lop_cmp(a.line, b.line) is Some,
{
    assert forall|a: Crossing<T>, b: Crossing<T>|
        #![trigger l.contains(a), l.contains(b)]
        l.contains(a) && l.contains(b) && a.at_left && b.at_left implies placed(a.line, b.line) && lop_cmp(a.line, b.line) is Some by {
        lemma_cross_cmp(a, b, q, n);
    }
}

// ---- the edges of the rings ----
proof fn lemma_bounds_of<T: Float>(s: Seq<Coordinate<T>>, n: int, r: int)
    requires
        0 <= r <= usize::MAX,
    ensures
        bounds_of(s, n, r).len() == if n <= 0 {
            0
        } else {
            n
        },
        forall|i: int| 0 <= i < bounds_of(s, n, r).len() ==> (#[trigger] bounds_of(s, n, r)[i]).ring_idx == r,
    decreases n,
{
    if n > 0 {
        lemma_bounds_of(s, n - 1, r);
    }
}

spec fn met(rs: Seq<usize>, r: int) -> bool {
    exists|i: int| 0 <= i < rs.len() && #[trigger] rs[i] == r
}

proof fn lemma_bounds<T: Float>(rings: Seq<Ring<T>>, n: int)
    requires
        0 <= n <= rings.len() <= usize::MAX,
        forall|i: int| 0 <= i < n ==> (#[trigger] rings[i]).coords.0@.len() >= 2,
    ensures
        forall|i: int| 0 <= i < ring_ids(bounds(rings, n)).len() ==> (#[trigger] ring_ids(bounds(rings, n))[i]) < n,
        forall|r: int| 0 <= r < n ==> #[trigger] met(ring_ids(bounds(rings, n)), r),
    decreases n,
{
    if n > 0 {
        lemma_bounds(rings, n - 1);
        let (a, b) = (bounds(rings, n - 1), bounds_of(rings[n - 1].coords.0@, rings[n - 1].coords.0@.len() - 1, n - 1));
        lemma_bounds_of(rings[n - 1].coords.0@, rings[n - 1].coords.0@.len() - 1, n - 1);
        let (x, y) = (ring_ids(a), ring_ids(a + b));
        assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]) < n by {
            if i < x.len() {
                assert(y[i] == x[i]);
            } else {
                assert(y[i] == b[i - a.len()].ring_idx);
            }
        }
        assert forall|r: int| 0 <= r < n implies #[trigger] met(y, r) by {
            if r < n - 1 {
                assert(met(x, r));
                let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] == r;
                assert(y[i] == x[i]);
            } else {
                assert(y[a.len() as int] == b[0].ring_idx);
            }
        }
    }
}

// ---- a turn ----
// the first p edges that start have on record what is above them, the others are as they were
#[verifier::opaque]
spec fn partly<T: Float>(t: Turn, p: int, e0: Seq<Bound<T>>, e1: Seq<Bound<T>>, own: Seq<usize>) -> bool {
    &&& e1.len() == e0.len()
    &&& ring_ids(e1) == ring_ids(e0)
    &&& forall|i: int| 0 <= i < p ==> e1[#[trigger] t.starts[i]].region.v == lev(t.low + t.starts.take(i + 1), ring_ids(e0), own)
    &&& forall|k: int| #![trigger e1[k]] 0 <= k < e1.len() && (forall|i: int| 0 <= i < p ==> #[trigger] t.starts[i] != k) ==> e1[k] == e0[k]
}

proof fn lemma_partly_none<T: Float>(t: Turn, e: Seq<Bound<T>>, own: Seq<usize>)
    ensures
        partly(t, 0, e, e, own),
{
    reveal(partly);
}

proof fn lemma_partly<T: Float>(t: Turn, p: int, e0: Seq<Bound<T>>, e1: Seq<Bound<T>>, e2: Seq<Bound<T>>, own: Seq<usize>)
    requires
        partly(t, p, e0, e1, own),
        0 <= p < t.starts.len(),
        single(after_turn(t)) && within(after_turn(t), e0.len() as int),
        e2.len() == e1.len(),
        forall|k: int| 0 <= k < e1.len() && k != t.starts[p] ==> #[trigger] e2[k] == e1[k],
        e2[t.starts[p]].ring_idx == e1[t.starts[p]].ring_idx,
        e2[t.starts[p]].region.v == lev(t.low + t.starts.take(p + 1), ring_ids(e0), own),
    ensures
        partly(t, p + 1, e0, e2, own),
{
    reveal(partly);
    let a = after_turn(t);
    assert forall|i: int| 0 <= i < t.starts.len() implies #[trigger] t.starts[i] == a[t.low.len() + i] by {}
    assert(ring_ids(e2) =~= ring_ids(e1)) by {
        assert(a[t.low.len() + p] == t.starts[p]);
        assert forall|k: int| 0 <= k < e2.len() implies e2[k].ring_idx == e1[k].ring_idx by {
            if k != t.starts[p] {
                assert(e2[k] == e1[k]);
            }
        }
    }
    assert forall|i: int| 0 <= i < p + 1 implies e2[#[trigger] t.starts[i]].region.v == lev(t.low + t.starts.take(i + 1), ring_ids(e0), own) by {
        if i < p {
            assert(a[t.low.len() + i] != a[t.low.len() + p]);
            assert(0 <= a[t.low.len() + i] < e0.len());
        }
    }
    assert forall|k: int| #![trigger e2[k]] 0 <= k < e2.len() && (forall|i: int| 0 <= i < p + 1 ==> #[trigger] t.starts[i] != k) implies e2[k] == e0[k] by {
        assert(t.starts[p] != k);
        assert(e2[k] == e1[k]);
    }
}

proof fn lemma_even(l: int, n: int, m: int, h: int, k: int)
    requires
        (l + n + h) % 2 == 0,
        (l + m + h) % 2 == 0,
    ensures
        (k - n + m + 1) % 2 == (k + 1) % 2,
{
}

// an edge that goes on still has the same below and above it
proof fn lemma_lev_on(t: Turn, rs: Seq<usize>, own: Seq<usize>, k: int)
    requires
        before_turn(t).len() % 2 == 0,
        after_turn(t).len() % 2 == 0,
        0 <= k < after_turn(t).len(),
        !(t.low.len() <= k < t.low.len() + t.starts.len()),
    ensures
        ({
            let j = if k < t.low.len() {
                k
            } else {
                k - t.starts.len() + t.ends.len()
            };
            &&& 0 <= j < before_turn(t).len()
            &&& before_turn(t)[j] == after_turn(t)[k]
            &&& lev(before_turn(t).take(j + 1), rs, own) == lev(after_turn(t).take(k + 1), rs, own)
        }),
{
    let (a, b) = (after_turn(t), before_turn(t));
    let (l, n, m, h) = (t.low.len() as int, t.starts.len() as int, t.ends.len() as int, t.high.len() as int);
    assert(a.len() == l + n + h && b.len() == l + m + h);
    if k < l {
        assert(a[k] == t.low[k] && b[k] == t.low[k]);
        assert(a.take(k + 1) =~= b.take(k + 1));
    } else {
        let j = k - n + m;
        lemma_even(l, n, m, h, k);
        assert(a[k] == t.high[k - l - n] && b[j] == t.high[k - l - n]);
        assert(a.take(k + 1).len() == k + 1 && b.take(j + 1).len() == j + 1);
        assert(a.take(k + 1).last() == a[k] && b.take(j + 1).last() == b[j]);
    }
}

proof fn lemma_partly_at<T: Float>(t: Turn, e0: Seq<Bound<T>>, e1: Seq<Bound<T>>, own: Seq<usize>, k: int)
    requires
        partly(t, t.starts.len() as int, e0, e1, own),
        single(after_turn(t)) && within(after_turn(t), e0.len() as int),
        0 <= k < after_turn(t).len(),
    ensures
        ring_ids(e1) == ring_ids(e0),
        e1[after_turn(t)[k]].region.v == if t.low.len() <= k < t.low.len() + t.starts.len() {
            lev(after_turn(t).take(k + 1), ring_ids(e0), own)
        } else {
            e0[after_turn(t)[k]].region.v
        },
{
    reveal(partly);
    let a = after_turn(t);
    let (l, n) = (t.low.len() as int, t.starts.len() as int);
    assert(0 <= a[k] < e0.len());
    if l <= k < l + n {
        assert(a[k] == t.starts[k - l]);
        assert(a.take(k + 1) =~= t.low + t.starts.take(k - l + 1));
    } else {
        assert forall|i: int| 0 <= i < n implies #[trigger] t.starts[i] != a[k] by {
            assert(t.starts[i] == a[l + i]);
        }
        assert(e1[a[k]] == e0[a[k]]);
    }
}

proof fn lemma_turn<T: Float>(t: Turn, e0: Seq<Bound<T>>, e1: Seq<Bound<T>>, own: Seq<usize>)
    requires
        noted(before_turn(t), e0, own),
        partly(t, t.starts.len() as int, e0, e1, own),
        single(after_turn(t)) && within(after_turn(t), e0.len() as int),
        paired(before_turn(t), ring_ids(e0), own),
        paired(after_turn(t), ring_ids(e0), own),
    ensures
        noted(after_turn(t), e1, own),
{
    let (a, b, rs) = (after_turn(t), before_turn(t), ring_ids(e0));
    assert forall|k: int| 0 <= k < a.len() implies e1[#[trigger] a[k]].region.v == lev(a.take(k + 1), ring_ids(e1), own) by {
        lemma_partly_at(t, e0, e1, own, k);
        if !(t.low.len() <= k < t.low.len() + t.starts.len()) {
            lemma_lev_on(t, rs, own, k);
            lemma_noted_at(b, e0, own);
        }
    }
    lemma_noted_all(a, e1, own);
}

proof fn lemma_noted_at<T: Float>(bs: Seq<int>, es: Seq<Bound<T>>, own: Seq<usize>)
    requires
        noted(bs, es, own),
    ensures
        forall|k: int| 0 <= k < bs.len() ==> es[#[trigger] bs[k]].region.v == lev(bs.take(k + 1), ring_ids(es), own),
{
    reveal(noted);
}

proof fn lemma_noted_all<T: Float>(bs: Seq<int>, es: Seq<Bound<T>>, own: Seq<usize>)
    requires
        forall|k: int| 0 <= k < bs.len() ==> es[#[trigger] bs[k]].region.v == lev(bs.take(k + 1), ring_ids(es), own),
    ensures
        noted(bs, es, own),
{
    reveal(noted);
}

// which rings have been opened
proof fn lemma_opened<T>(tr: Seq<Turn>, rs: Seq<usize>, r: int, x: T)
    requires
        tr.len() > 0,
        opened(tr, rs, r),
    ensures
        opened(tr.drop_last(), rs, r) || opens(tr.last(), tr.last().starts.len() as int, rs, r),
{
    let k = choose|k: int| 0 <= k < tr.len() && opens(#[trigger] tr[k], tr[k].starts.len() as int, rs, r);
    if k < tr.len() - 1 {
        assert(opens(tr.drop_last()[k], tr.drop_last()[k].starts.len() as int, rs, r));
    }
}

// the owner of a hole is on record once it has been opened
spec fn adopted<T: Float>(rings: Seq<Ring<T>>, parents: Seq<usize>, own: Seq<usize>, tr: Seq<Turn>, t: Turn, p: int, rs: Seq<usize>) -> bool {
    forall|r: int| 0 <= r < rings.len() && rings[r].is_hole && (opened(tr, rs, r) || opens(t, p, rs, r)) ==> #[trigger] parents[r] == own[r]
}

// ---- the polygons ----
proof fn lemma_gathered_none<T: Float>(ps: Seq<Option<Polygon<T>>>, rings: Seq<Ring<T>>, own: Seq<usize>)
    requires
        ps.len() == rings.len(),
        forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] is None,
    ensures
        gathered(ps, rings, own, 0),
{
}

// what is below the first edge that starts
proof fn lemma_lev_low<T: Float>(t: Turn, es: Seq<Bound<T>>, own: Seq<usize>)
    requires
        noted(before_turn(t), es, own),
    ensures
        t.low.len() == 0 ==> lev(t.low, ring_ids(es), own) is None,
        t.low.len() > 0 ==> es[t.low.last()].region.v == lev(t.low, ring_ids(es), own),
{
    reveal(noted);
    if t.low.len() > 0 {
        let b = before_turn(t);
        let k = t.low.len() - 1;
        assert(b[k] == t.low.last());
        assert(b.take(k + 1) =~= t.low);
    }
}

// what is above one more
proof fn lemma_lev_next(t: Turn, p: int, rs: Seq<usize>, own: Seq<usize>)
    requires
        0 <= p < t.starts.len(),
        paired(after_turn(t), rs, own),
    ensures
        ({
            let (a, b) = (lev(t.low + t.starts.take(p), rs, own), lev(t.low + t.starts.take(p + 1), rs, own));
            let o = own[rs[t.starts[p]] as int];
            if (t.low.len() + p) % 2 == 0 {
                a is None && b == Some(o)
            } else {
                b is None && a == Some(o)
            }
        }),
{
    let x = after_turn(t);
    let k = t.low.len() + p;
    let (u, v) = (t.low + t.starts.take(p), t.low + t.starts.take(p + 1));
    assert(x[k] == t.starts[p]);
    assert(v.last() == t.starts[p]);
    if k % 2 == 1 {
        assert(u.last() == x[k - 1]);
        assert(own[rs[x[k]] as int] == own[rs[x[k - 1]] as int]);
    }
}

proof fn lemma_adopted<T: Float>(rings: Seq<Ring<T>>, pa0: Seq<usize>, pa1: Seq<usize>, own: Seq<usize>, tr: Seq<Turn>, t: Turn, p: int, rs: Seq<usize>)
    requires
        0 <= p < t.starts.len(),
        adopted(rings, pa0, own, tr, t, p, rs),
        pa0.len() == pa1.len() == rings.len(),
        ({
            let r = rs[t.starts[p]] as int;
            &&& 0 <= r < rings.len()
            &&& forall|i: int| 0 <= i < pa0.len() && i != r ==> #[trigger] pa1[i] == pa0[i]
            &&& (t.low.len() + p) % 2 == 1 && rings[r].is_hole ==> pa1[r] == own[r]
            &&& !((t.low.len() + p) % 2 == 1 && rings[r].is_hole) ==> pa1[r] == pa0[r]
        }),
    ensures
        adopted(rings, pa1, own, tr, t, p + 1, rs),
{
    assert forall|r: int| 0 <= r < rings.len() && rings[r].is_hole && (opened(tr, rs, r) || opens(t, p + 1, rs, r)) implies #[trigger] pa1[r] == own[r] by {
        if opens(t, p + 1, rs, r) && !opened(tr, rs, r) && !opens(t, p, rs, r) {
            let i = choose|i: int| 0 <= i < p + 1 && rs[#[trigger] t.starts[i]] == r && (t.low.len() + i) % 2 == 1;
            assert(i == p);
        } else {
            assert(pa0[r] == own[r]);
        }
    }
}

proof fn lemma_gathered<T: Float>(p0: Seq<Option<Polygon<T>>>, p1: Seq<Option<Polygon<T>>>, rings: Seq<Ring<T>>, own: Seq<usize>, n: int)
    requires
        0 <= n < rings.len(),
        owned(rings, own),
        gathered(p0, rings, own, n),
        p1.len() == p0.len(),
        forall|x: int| 0 <= x < p0.len() && x != own[n] ==> #[trigger] p1[x] == p0[x],
        ({
            let (a, b) = (p0[own[n] as int], p1[own[n] as int]);
            let h = holes_in(rings, own, n, own[n] as int);
            &&& b is Some
            &&& b->Some_0.ext == rings[own[n] as int].coords
            &&& b->Some_0.ints@ == if rings[n].is_hole {
                h.push(rings[n].coords)
            } else {
                h
            }
        }),
    ensures
        gathered(p1, rings, own, n + 1),
{
    assert(own[n] < rings.len() && !rings[own[n] as int].is_hole);
    assert forall|x: int| 0 <= x < p1.len() implies {
        let h = holes_in(rings, own, n + 1, x);
        &&& (#[trigger] p1[x]) is Some <==> !rings[x].is_hole && (x < n + 1 || h.len() > 0)
        &&& p1[x] is Some ==> p1[x]->Some_0.ext == rings[x].coords && p1[x]->Some_0.ints@ == h
    } by {
        if x != own[n] {
            assert(p1[x] == p0[x]);
            if x == n {
                assert(rings[x].is_hole);
            }
        }
    }
}

//@@ fn compare_crossings inner=assemble file=src/bops/laminar.rs rename=compare_rows
//@@ sub `< X : Crossable >` => `< T : GeoNum >`
//@@ sub `Crossing < X >` => `Crossing < T >`
//@@ sub `LineOrPoint :: from ( $x . line )` => `$x . line`
//@@ sub `& $x . line . into ( )` => `& $x . line`
//@@ sub `$x . at_left . cmp ( $*y ) . reverse ( ) . then_with ( || $*b )` => `{ let o = bool_cmp ( $x . at_left , $*y ) . reverse ( ) ; if o == Ordering :: Equal { $*b } else { o } }`
        fn compare_rows< T : GeoNum >(a: &Crossing < T >, b: &Crossing < T >) -> (ret: Ordering) /*@
            requires
                a.at_left && b.at_left ==> placed(a.line, b.line) && lop_cmp(a.line, b.line) is Some,
            ensures
                ret == row_cmp(*a, *b),
        @*/ {
            { let o = bool_cmp ( a . at_left , &b.at_left ) . reverse ( ) ; if o == Ordering :: Equal { {
                if !a.at_left {
                    Ordering::Equal
                } else {
                    a . line
                        .partial_cmp(& b . line)
                        .unwrap()
                }
            } } else { o } }
        }
//@@ end

//@@ fn assemble file=src/bops/laminar.rs
//@@ sub `fn compare_crossings < X : Crossable > ( $*p ) -> Ordering { $*b }` => ``
//@@ sub `vec ! [ $*x ; $*n ]` => `filled ( $*x , $*n )`
//@@ sub `vec ! [ ]` => `Vec :: new ( )`
//@@ sub `let edges : $*t = rings . iter ( ) . enumerate ( ) . flat_map ( | ( $i , $r ) | { $*p ring . coords ( ) . lines ( ) . map ( $*m ) } ) . map ( | ( $j , $l ) | Edge { $*e } ) . collect ( ) ;` => `let mut edges : Vec < Bound < T >> = Vec :: new ( ) ; let mut $i = 0 ; while $i < rings . len ( ) { let $r = & rings [ $i ] ; $*p let all = $r . coords ( ) . lines ( ) ; let mut nth = 0 ; while nth < all . len ( ) { let $j = $i ; let $l = all [ nth ] ; edges . push ( Bound { $*e } ) ; nth += 1 ; } $i += 1 ; }`
//@@ sub `CrossingsIter :: from_iter ( edges . iter ( ) )` => `Rounds :: of ( & edges , Ghost ( rings @ ) )`
//@@ sub `while let Some ( $p ) = sweep . next ( )` => `while let Some ( _point ) = sweep . next ( )`
//@@ sub `sweep . intersections_mut ( ) . sort_by ( $*f )` => `sort_row ( & mut sweep . segs , compare_rows )`
//@@ sub `sweep . intersections ( ) . first ( ) . unwrap ( )` => `& sweep . segs [ 0 ]`
//@@ sub `$x . map ( | ( _ , $b ) | { $b . region . get ( ) } ) . unwrap_or ( None )` => `match $x { Some ( ( _ , $b ) ) => edges [ $b ] . region . get ( ) , None => None , }`
//@@ sub `sweep . intersections ( ) . iter ( ) . position ( | $e | { $*b false } ) ;` => `let mut pos = 0 ; while pos < sweep . segs . len ( ) { let $e = & sweep . segs [ pos ] ; pos += 1 ; $*b }`
//@@ sub `return true ;` => `break ;`
//@@ sub `$e . crossable . ring_idx` => `edges [ $e . crossable ] . ring_idx`
//@@ sub `$e . crossable . region . set (` => `edges [ $e . crossable ] . region . set (`
//@@ sub `rings . iter ( ) . enumerate ( ) . for_each ( | ( $i , $r ) | { $*b } ) ;` => `let mut $i = 0 ; while $i < rings . len ( ) { let $r = & rings [ $i ] ; $*b $i += 1 ; }`
//@@ sub `$p [ $i ] . as_mut ( ) . unwrap ( ) . interiors_push ( $*x ) ;` => `push_interior ( & mut $p , $i , $*x ) ;`
//@@ sub `polygons . into_iter ( ) . filter_map ( | $x | $x ) . collect ( )` => `present ( polygons )`
fn assemble<T: Float>(rings: Vec<Ring<T>>) -> (ret: Vec<Polygon<T>>) /*@
    requires
        proper(rings@),
        laminar(rings@),
        owned(rings@, owner(rings@)),
    ensures
        nested(ret@, rings@),
@*/ {
    let mut parents = filled ( 0 , rings.len() );
    /*@ let ghost own = owner(rings@);
    let ghost n = rings@.len() as int;
    proof {
        assert forall|i: int| 0 <= i < n implies (#[trigger] rings@[i]).coords.0@.len() >= 4 && closed(ats(rings@[i].coords.0@)) by {
            assert(once_around(ats(rings@[i].coords.0@)));
        }
    } @*/
    let mut edges : Vec < Bound < T >> = Vec :: new ( ) ; let mut idx = 0 ; while idx < rings . len ( )
    /*@
        invariant
            idx <= n && n == rings@.len(),
            parents@.len() == n,
            forall|i: int| 0 <= i < n ==> (#[trigger] rings@[i]).coords.0@.len() >= 4 && closed(ats(rings@[i].coords.0@)),
            edges@ == bounds(rings@, idx as int),
        decreases n - idx,
    @*/
    { let ring = & rings [ idx ] ;
        /*@ let ghost (e0, s) = (edges@, ring.coords.0@); @*/
        rt_assert(ring.coords().is_closed()); let all = ring . coords ( ) . lines ( ) ; let mut nth = 0 ;
        /*@ proof {
            assert(edges@ =~= e0 + bounds_of(s, 0, idx as int));
        } @*/
        while nth < all . len ( )
        /*@
            invariant
                nth <= all@.len() && idx < n,
                all@.len() == s.len() - 1,
                forall|k: int| 0 <= k < all@.len() ==> #[trigger] all@[k] == line_at(s, k),
                edges@ == e0 + bounds_of(s, nth as int, idx as int),
            decreases all@.len() - nth,
        @*/
        { let ring_idx = idx ; let line = all [ nth ] ;
            /*@ let ghost e1 = edges@; @*/
            edges . push ( Bound { geom: line.into(),
            ring_idx,
            region: None.into(), } ) ; nth += 1 ;
            /*@ proof {
                assert(edges@ =~= e0 + bounds_of(s, nth as int, idx as int));
            } @*/
        } idx += 1 ; }
    let mut sweep = Rounds :: of ( & edges , Ghost ( rings @ ) );
    /*@ let ghost rs = ring_ids(edges@);
    proof {
        lemma_bounds(rings@, n);
        reveal(noted);
        assert(noted(current(sweep.tr@), edges@, own));
    } @*/
    while let Some ( _point ) = sweep . next ( )
    /*@
        invariant
            n == rings@.len() && own == owner(rings@),
            owned(rings@, own),
            sweep.rs@ == rs && sweep.own@ == own && ring_ids(edges@) == rs,
            parents@.len() == n,
            forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]) < n,
            noted(current(sweep.tr@), edges@, own),
            forall|r: int| 0 <= r < n && rings@[r].is_hole && opened(sweep.tr@, rs, r) ==> #[trigger] parents@[r] == own[r],
        ensures
            forall|i: int| 0 <= i < rs.len() ==> opened(sweep.tr@, rs, (#[trigger] rs[i]) as int),
        decreases sweep.left@,
    @*/
    {
        /*@ let ghost (tr, t, l0) = (sweep.tr@, sweep.tr@.last(), sweep.segs@);
        let ghost tr0 = tr.drop_last();
        let ghost e0 = edges@;
        proof {
            lemma_rowable(l0, at(_point), rs.len() as int);
            lemma_row_call(l0, at(_point), rs.len() as int);
        } @*/
        sort_row ( & mut sweep . segs , compare_rows );
        /*@ let ghost l = sweep.segs@;
        proof {
            lemma_shuffle(l0, l, at(_point), rs.len() as int);
            assert(dealt(l, t));
            assert(l.len() > 0) by {
                broadcast use vstd::seq_lib::group_to_multiset_ensures;
                assert(l.to_multiset().len() == l0.to_multiset().len());
            }
            lemma_partly_none(t, e0, own);
            assert forall|r: int| 0 <= r < n && rings@[r].is_hole && opened(tr, rs, r) implies opened(tr0, rs, r) || #[trigger] parents@[r] == own[r] || opens(t, t.starts.len() as int, rs, r) by {
                lemma_opened(tr, rs, r, 0int);
            }
            if t.starts.len() == 0 {
                lemma_turn(t, e0, e0, own);
            }
        } @*/
        let mut below = {
            let first = & sweep . segs [ 0 ];
            if !first.at_left {
                continue;
            }
            let active = sweep.prev_active(first);
            /*@ proof {
                lemma_lev_low(t, e0, own);
                if t.low.len() > 0 {
                    assert(after_turn(t)[t.low.len() - 1] == t.low.last());
                    assert(0 <= after_turn(t)[t.low.len() - 1] < e0.len());
                }
            } @*/
            match active { Some ( ( _ , b ) ) => edges [ b ] . region . get ( ) , None => None , }
        };
        /*@ let ghost mut p = 0int;
        proof {
            assert(t.low + t.starts.take(0) =~= t.low);
            assert(adopted(rings@, parents@, own, tr0, t, 0, rs));
        } @*/
        let mut pos = 0 ; while pos < sweep . segs . len ( )
        /*@
            invariant_except_break
                p == pos,
            invariant
                0 <= p <= t.starts.len() && p <= pos <= l.len() && l == sweep.segs@,
                sweep.tr@ == tr && sweep.rs@ == rs && sweep.own@ == own,
                n == rings@.len() && own == owner(rings@),
                owned(rings@, own),
                parents@.len() == n,
                forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]) < n,
                ring_ids(e0) == rs && edges@.len() == e0.len() && ring_ids(edges@) == rs,
                records_ok(l, at(_point), rs.len() as int),
                dealt(l, t) && t == tr.last() && tr0 == tr.drop_last() && tr.len() > 0,
                single(after_turn(t)) && within(after_turn(t), e0.len() as int),
                paired(after_turn(t), rs, own),
                forall|i: int|
                    0 <= i < t.starts.len() && (t.low.len() + i) % 2 == 0 ==> own[rs[#[trigger] t.starts[i]] as int] == rs[t.starts[i]] || opened(tr0, rs, rs[t.starts[i]] as int) || opens(
                        t,
                        i,
                        rs,
                        rs[t.starts[i]] as int,
                    ),
                partly(t, p, e0, edges@, own),
                below == lev(t.low + t.starts.take(p), rs, own),
                adopted(rings@, parents@, own, tr0, t, p, rs),
            ensures
                p == t.starts.len(),
            decreases l.len() - pos,
        @*/
        { let edge = & sweep . segs [ pos ] ; pos += 1 ; if !edge.at_left {
                break ;
            }
            /*@ let ghost s = t.starts[p];
            let ghost (e1, pa0, below0) = (edges@, parents@, below);
            let ghost r = rs[s] as int;
            proof {
                assert(edge.crossable == s && !edge.has_overlap);
                assert(rs[s] == edges@[s].ring_idx);
                lemma_lev_next(t, p, rs, own);
            } @*/
            rt_assert(!edge.has_overlap);
            let ring_idx = edges [ edge . crossable ] . ring_idx;
            let ring = &rings[ring_idx];
            below = match below {
                Some(ext_idx) => {
                    if ring.is_hole() {
                        parents[ring_idx] = ext_idx;
                    } else {
                        rt_assert(ring_idx == ext_idx);
                    }
                    None
                }
                None => {
                    if ring.is_hole() {
                        Some(parents[ring_idx])
                    } else {
                        Some(ring_idx)
                    }
                },
            };
            /*@ proof {
                lemma_adopted(rings@, pa0, parents@, own, tr0, t, p, rs);
                assert(below == lev(t.low + t.starts.take(p + 1), rs, own));
            } @*/
            edges [ edge . crossable ] . region . set (below);
            /*@ proof {
                lemma_partly(t, p, e0, e1, edges@, own);
                reveal(partly);
                p = p + 1;
            } @*/
        }
        /*@ proof {
            lemma_turn(t, e0, edges@, own);
            reveal(partly);
            assert forall|r: int| 0 <= r < n && rings@[r].is_hole && opened(tr, rs, r) implies #[trigger] parents@[r] == own[r] by {
                lemma_opened(tr, rs, r, 0int);
            }
        } @*/
    }
    /*@ proof {
        assert forall|r: int| 0 <= r < n && rings@[r].is_hole implies #[trigger] parents@[r] == own[r] by {
            assert(met(rs, r));
        }
    } @*/
    let mut polygons = filled ( None , rings.len() );
    /*@ proof {
        lemma_gathered_none(polygons@, rings@, own);
    } @*/
    let mut idx = 0 ; while idx < rings . len ( )
    /*@
        invariant
            idx <= n && n == rings@.len() && own == owner(rings@),
            owned(rings@, own),
            parents@.len() == n && polygons@.len() == n,
            forall|i: int| 0 <= i < n ==> (#[trigger] rings@[i]).coords.0@.len() >= 4 && closed(ats(rings@[i].coords.0@)),
            forall|r: int| 0 <= r < n && rings@[r].is_hole ==> #[trigger] parents@[r] == own[r],
            gathered(polygons@, rings@, own, idx as int),
        decreases n - idx,
    @*/
    { let r = & rings [ idx ] ;
        /*@ let ghost ps0 = polygons@;
        proof {
            assert(own[idx as int] < n && !rings@[own[idx as int] as int].is_hole);
        } @*/
        if r.is_hole() {
            let p_idx = parents[idx];
            if polygons[p_idx].is_none() {
                polygons[p_idx] = Some(Polygon::new(rings[p_idx].coords(). dup ( ), Vec :: new ( )));
            }
            push_interior ( & mut polygons , p_idx , r.coords(). dup ( ) ) ;
        } else {
            if polygons[idx].is_none() {
                polygons[idx] = Some(Polygon::new(rings[idx].coords(). dup ( ), Vec :: new ( )));
            }
        } idx += 1 ;
        /*@ proof {
            let o = own[idx - 1] as int;
            let h = holes_in(rings@, own, idx - 1, o);
            assert(polygons@[o] is Some);
            if ps0[o] is None {
                assert(h =~= Seq::empty());
            }
            assert(polygons@[o]->Some_0.ext == rings@[o].coords);
            assert(polygons@[o]->Some_0.ints@ =~= if rings@[idx - 1].is_hole {
                h.push(rings@[idx - 1].coords)
            } else {
                h
            });
            lemma_gathered(ps0, polygons@, rings@, own, idx - 1);
        } @*/
    }
    present ( polygons )
}
//@@ end

// ---- bops.rs ---------------------------------------------------------------------------------
impl<T: GeoNum> Polygon<T> {
    // assumed: geo::CoordsIter::coords_count; a count of coordinates of 16 bytes or more
    #[verifier::external_body]
    fn coords_count(&self) -> (r: usize)
        ensures
            r <= usize::MAX / 2,
    {
        unimplemented!()
    }
}

impl<T: GeoNum> MultiPolygon<T> {
    // assumed: geo::CoordsIter::coords_count; a count of coordinates of 16 bytes or more
    #[verifier::external_body]
    fn coords_count(&self) -> (r: usize)
        ensures
            r <= usize::MAX / 2,
    {
        unimplemented!()
    }
}

// what the operation makes of these edges: the outline of a sweep over them, as rings, nested into polygons
spec fn result<T: Float>(es: Seq<Edge<T>>, ty: OpType, ps: Seq<Polygon<T>>) -> bool {
    exists|tr: Seq<Step>, rings: Seq<Ring<T>>|
        #![trigger swept(es, tr), nested(ps, rings)]
        swept(es, tr) && lays(rings) == outline(tr, ty) && proper(rings) && nested(ps, rings)
}

// assumed: rings that are the boundary of a region, with the region between them, nest
#[verifier::external_body]
proof fn lemma_nest<T: Float>(es: Seq<Edge<T>>, tr: Seq<Step>, ty: OpType, rings: Seq<Ring<T>>)
    requires
        swept(es, tr),
        lays(rings) == outline(tr, ty),
        proper(rings),
    ensures
        laminar(rings),
        owned(rings, owner(rings)),
{
}

trait BooleanOp<T: Float>: Sized {
    // its rings are closed
    spec fn sound(&self) -> bool;

    spec fn inputs(&self, other: &Self, ty: OpType) -> Seq<Edge<T>>;

    fn boolean_op(&self, other: &Self, op: OpType) -> (ret: MultiPolygon<T>)
        requires
            self.sound(),
            other.sound(),
        ensures
            result(self.inputs(other, op), op, ret.0@),
    ;

//@@ fn intersection trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
    fn intersection(&self, other: &Self) -> (ret: MultiPolygon < T >) /*@
        requires
            self.sound(),
            other.sound(),
        ensures
            result(self.inputs(other, OpType::Intersection), OpType::Intersection, ret.0@),
    @*/ {
        self.boolean_op(other, OpType::Intersection)
    }
//@@ end

//@@ fn union trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
    fn union(&self, other: &Self) -> (ret: MultiPolygon < T >) /*@
        requires
            self.sound(),
            other.sound(),
        ensures
            result(self.inputs(other, OpType::Union), OpType::Union, ret.0@),
    @*/ {
        self.boolean_op(other, OpType::Union)
    }
//@@ end

//@@ fn xor trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
    fn xor(&self, other: &Self) -> (ret: MultiPolygon < T >) /*@
        requires
            self.sound(),
            other.sound(),
        ensures
            result(self.inputs(other, OpType::Xor), OpType::Xor, ret.0@),
    @*/ {
        self.boolean_op(other, OpType::Xor)
    }
//@@ end

//@@ fn difference trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
    fn difference(&self, other: &Self) -> (ret: MultiPolygon < T >) /*@
        requires
            self.sound(),
            other.sound(),
        ensures
            result(self.inputs(other, OpType::Difference), OpType::Difference, ret.0@),
    @*/ {
        self.boolean_op(other, OpType::Difference)
    }
//@@ end
}

impl<T: Float> BooleanOp<T> for Polygon<T> {
    spec fn sound(&self) -> bool {
        poly_closed(*self)
    }

    spec fn inputs(&self, other: &Self, ty: OpType) -> Seq<Edge<T>> {
        poly_inputs(*self, *other, ty)
    }

//@@ fn boolean_op self=Polygon trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
//@@ sub `assemble ( $x ) . into ( )` => `MultiPolygon ( assemble ( $x ) )`
    fn boolean_op(&self, other: &Self, op: OpType) -> (ret: MultiPolygon < T >) {
        let mut bop = Op::new(op, self.coords_count() + other.coords_count());
        bop.add_polygon(self, true);
        bop.add_polygon(other, false);
        /*@ let ghost es = bop.edges@;
        proof {
            assert(es =~= poly_inputs(*self, *other, op));
            assert forall|p: Spot| #[trigger] degree(es, p) == outside() by {
                lemma_degree_poly(*self, true, op, p);
                lemma_degree_poly(*other, false, op, p);
                lemma_degree_cat(poly_edges(*self, true, op), poly_edges(*other, false, op), p);
            }
        } @*/
        let rings = bop.sweep();
        /*@ let ghost tr = choose|tr: Seq<Step>| #[trigger] swept(es, tr) && lays(rings@) == outline(tr, op);
        proof {
            lemma_nest(es, tr, op, rings@);
        } @*/
        MultiPolygon ( assemble ( rings ) )
    }
//@@ end
}

impl<T: Float> BooleanOp<T> for MultiPolygon<T> {
    spec fn sound(&self) -> bool {
        forall|i: int| 0 <= i < self.0@.len() ==> poly_closed(#[trigger] self.0@[i])
    }

    spec fn inputs(&self, other: &Self, ty: OpType) -> Seq<Edge<T>> {
        multi_inputs(*self, *other, ty)
    }

//@@ fn boolean_op self=MultiPolygon trait=BooleanOp
//@@ sub `MultiPolygon < Self :: Scalar >` => `MultiPolygon < T >`
//@@ sub `assemble ( $x ) . into ( )` => `MultiPolygon ( assemble ( $x ) )`
    fn boolean_op(&self, other: &Self, op: OpType) -> (ret: MultiPolygon < T >) {
        let mut bop = Op::new(op, self.coords_count() + other.coords_count());
        bop.add_multi_polygon(self, true);
        bop.add_multi_polygon(other, false);
        /*@ let ghost es = bop.edges@;
        proof {
            assert(es =~= multi_inputs(*self, *other, op));
            assert forall|p: Spot| #[trigger] degree(es, p) == outside() by {
                lemma_degree_multi(self.0@, self.0@.len() as int, true, op, p);
                lemma_degree_multi(other.0@, other.0@.len() as int, false, op, p);
                lemma_degree_cat(
                    multi_edges(self.0@, self.0@.len() as int, true, op),
                    multi_edges(other.0@, other.0@.len() as int, false, op),
                    p,
                );
            }
        } @*/
        let rings = bop.sweep();
        /*@ let ghost tr = choose|tr: Seq<Step>| #[trigger] swept(es, tr) && lays(rings@) == outline(tr, op);
        proof {
            lemma_nest(es, tr, op, rings@);
        } @*/
        MultiPolygon ( assemble ( rings ) )
    }
//@@ end
}
