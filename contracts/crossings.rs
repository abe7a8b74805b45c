// ---- assumed: the input type and the containers ----------------------------------------------
trait Crossable: Dup {
    type Scalar: Float;

    spec fn seg(&self) -> super::Line<Self::Scalar>;

    fn line(&self) -> (r: super::Line<Self::Scalar>)
        ensures
            r == self.seg(),
    ;
}

// the input as an ordered line or point
spec fn inp<C: Crossable>(c: C) -> LineOrPoint<C::Scalar> {
    of_line(c.seg())
}

//@@ include slab.rs

// std::collections::BinaryHeap
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct BinaryHeap<T> {
    p: Vec<T>,
}

impl<T: Ord> BinaryHeap<T> {
    uninterp spec fn view(&self) -> Multiset<T>;

    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures
            r@ == Multiset::<T>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn push(&mut self, v: T)
        ensures
            final(self)@ == old(self)@.insert(v),
    {
        unimplemented!()
    }

    // a greatest element
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(v) => {
                    &&& old(self)@.contains(v)
                    &&& final(self)@ == old(self)@.remove(v)
                    &&& forall|w: T| #[trigger] old(self)@.contains(w) ==> w.cmp_spec(&v) != Ordering::Greater
                },
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn peek(&self) -> (r: Option<&T>)
        ensures
            match r {
                Some(v) => {
                    &&& self@.contains(*v)
                    &&& forall|w: T| #[trigger] self@.contains(w) ==> w.cmp_spec(v) != Ordering::Greater
                },
                None => self@.len() == 0,
            },
    {
        unimplemented!()
    }
}

//@@ include items.rs

//@@ include active.rs

//@@ include events.rs

// ---- crossings/sweep.rs ----------------------------------------------------------------------
//@@ struct Segment file=src/crossings/sweep.rs derives=Clone,Copy
struct Segment<C: Crossable> {
    geom: LineOrPoint<C::Scalar>,
    key: usize,
    crossable: C,
    first_segment: bool,
    left_event_done: bool,
    overlapping: Option<usize>,
    is_overlapping: bool,
}
//@@ end

impl<C: Crossable> Dup for Segment<C> {
    #[verifier::external_body]
    fn dup(&self) -> Self {
        unimplemented!()
    }
}

// the same points
spec fn same<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> bool {
    pt(fst(a)) == pt(fst(b)) && pt(snd(a)) == pt(snd(b)) && (a is Line <==> b is Line)
}

// a is a part of b
spec fn within<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>) -> bool {
    member(pt(fst(a)), b) && member(pt(snd(a)), b)
}

// a stored piece: ordered, a part of its input, and marked first only if it starts where the input starts
spec fn seg_ok<C: Crossable>(k: usize, s: Segment<C>) -> bool {
    &&& s.key == k
    &&& lop_wf(s.geom)
    &&& within(s.geom, inp(s.crossable))
    &&& s.first_segment ==> pt(fst(s.geom)) == pt(fst(inp(s.crossable)))
}

spec fn left_ev<C: Crossable>(s: Segment<C>) -> Event<C::Scalar> {
    Event { point: fst(s.geom), ty: if s.geom is Line { LineLeft } else { PointLeft }, segment_key: s.key }
}

spec fn right_ev<C: Crossable>(s: Segment<C>) -> Event<C::Scalar> {
    Event { point: snd(s.geom), ty: if s.geom is Line { LineRight } else { PointRight }, segment_key: s.key }
}

// what splitting the line g at r leaves in place (g2) and gives out
spec fn split_ok<T: Float>(g: LineOrPoint<T>, r: LineOrPoint<T>, g2: LineOrPoint<T>, out: SplitSegments<T>) -> bool {
    let (p, q) = (fst(g), snd(g));
    match r {
        LineOrPoint::Point(r) => if pt(p) == pt(r) || pt(q) == pt(r) {
            g2 == g && out == (SplitSegments::<T>::Unchanged { overlap: false })
        } else {
            &&& g2 == LineOrPoint::Line(p, r)
            &&& out matches SplitSegments::SplitOnce { overlap, right } && overlap is None && (lex(r, q) == Ordering::Less ==> right == LineOrPoint::Line(
                r,
                q,
            )) && (lex(r, q) == Ordering::Greater ==> right == LineOrPoint::Line(q, r))
        },
        LineOrPoint::Line(r1, r2) => if pt(p) == pt(r1) {
            if pt(r2) == pt(q) {
                g2 == g && out == (SplitSegments::<T>::Unchanged { overlap: true })
            } else {
                g2 == LineOrPoint::Line(p, r2) && out == (SplitSegments::SplitOnce { overlap: Some(false), right: LineOrPoint::Line(r2, q) })
            }
        } else if pt(r2) == pt(q) {
            g2 == LineOrPoint::Line(p, r1) && out == (SplitSegments::SplitOnce { overlap: Some(true), right: LineOrPoint::Line(r1, q) })
        } else {
            g2 == LineOrPoint::Line(p, r1) && out == (SplitSegments::SplitTwice { right: LineOrPoint::Line(r2, q) })
        },
    }
}

impl<C: Crossable> Segment<C> {
//@@ fn new self=Segment file=src/crossings/sweep.rs
//@@ sub `storage . vacant_entry ( )` => `storage . vacant_key ( )`
//@@ sub `entry . key ( )` => `entry`
//@@ sub `entry . insert ( $*v )` => `storage . put ( entry , $*v )`
    fn new(
        storage: &mut Slab<Self>,
        crossable: C,
        geom: Option<LineOrPoint<C::Scalar>>,
    ) -> (ret: &mut Self) /*@
        ensures
            !old(storage)@.contains_key(ret.key),
            *ret == (Segment {
                key: ret.key,
                crossable,
                geom: match geom {
                    Some(g) => g,
                    None => inp(crossable),
                },
                first_segment: geom is None,
                overlapping: None,
                is_overlapping: false,
                left_event_done: false,
            }),
            final(storage)@ == old(storage)@.insert(ret.key, *final(ret)),
    @*/ {
        let first = geom.is_none();
        let geom = match geom{ Some ( o ) => o , None => crossable.line().into()};
        let entry = storage . vacant_key ( );
        let segment = Segment {
            key: entry,
            crossable,
            geom,
            first_segment: first,
            overlapping: None,
            is_overlapping: false,
            left_event_done: false,
        };
        storage . put ( entry , segment )
    }
//@@ end
//@@ fn left_event self=Segment
    fn left_event(&self) -> (ret: Event<C::Scalar>) /*@ ensures ret == left_ev(*self), @*/ {
        match self.geom {
            Point(p) => Event {
                point: p,
                ty: EventType::PointLeft,
                segment_key: self.key,
            },
            Line(p, _) => Event {
                point: p,
                ty: EventType::LineLeft,
                segment_key: self.key,
            },
        }
    }
//@@ end
//@@ fn right_event self=Segment
    fn right_event(&self) -> (ret: Event<C::Scalar>) /*@ ensures ret == right_ev(*self), @*/ {
        match self.geom {
            Point(p) => Event {
                point: p,
                ty: EventType::PointRight,
                segment_key: self.key,
            },
            Line(_, q) => Event {
                point: q,
                ty: EventType::LineRight,
                segment_key: self.key,
            },
        }
    }
//@@ end
//@@ fn events self=Segment file=src/crossings/sweep.rs
    fn events(&self) -> (ret: [Event<C::Scalar>; 2]) /*@ ensures ret@ == seq![left_ev(*self), right_ev(*self)], @*/ {
        [self.left_event(), self.right_event()]
    }
//@@ end
//@@ fn adjust_for_intersection self=Segment
    fn adjust_for_intersection(
        &mut self,
        intersection: LineOrPoint<C::Scalar>,
    ) -> (ret: SplitSegments<C::Scalar>) /*@
        requires
            old(self).geom is Line,
            lex(fst(old(self).geom), fst(intersection)) != Ordering::Greater,
            intersection is Line ==> lex(snd(intersection), snd(old(self).geom)) != Ordering::Greater,
        ensures
            split_ok(old(self).geom, intersection, final(self).geom, ret),
            *final(self) == (Segment { geom: final(self).geom, first_segment: final(self).first_segment, ..*old(self) }),
            final(self).first_segment ==> old(self).first_segment,
    @*/ {
        let (p, q) = match self.geom {
            Point(_) => rt_panic(),
            Line(p, q) => (p, q),
        };
        match intersection {
            Point(r) => {
                rt_assert(
                    p <= r);
                if p == r || q == r {
                    Unchanged { overlap: false }
                }  else {
                    self.geom = Line(p, r);
                    self.first_segment = false;
                    SplitOnce {
                        overlap: None,
                        right: if q > r { Line(r, q) } else { Line(q, r) },
                    }
                }
            }
            Line(r1, r2) => {
                rt_assert(
                    p <= r1 && r2 <= q);
                if p == r1 {
                    if r2 == q {
                        Unchanged { overlap: true }
                    } else {
                        self.geom = Line(p, r2);
                        self.first_segment = false;
                        SplitOnce {
                            overlap: Some(false),
                            right: Line(r2, q),
                        }
                    }
                } else if r2 == q {
                    self.geom = Line(p, r1);
                    self.first_segment = false;
                    SplitOnce {
                        overlap: Some(true),
                        right: Line(r1, q),
                    }
                } else {
                    self.geom = Line(p, r1);
                    self.first_segment = false;
                    SplitTwice { right: Line(r2, q) }
                }
            }
        }
    }
//@@ end
//@@ fn crossable self=Segment
    fn crossable(&self) -> (ret: &C) /*@ ensures *ret == self.crossable, @*/ {
        &self.crossable
    }
//@@ end
//@@ fn key self=Segment
    fn key(&self) -> (ret: usize) /*@ ensures ret == self.key, @*/ {
        self.key
    }
//@@ end
}

//@@ enum SplitSegments
enum SplitSegments<T: Float> {
    Unchanged {
        overlap: bool,
    },
    SplitOnce {
        overlap: Option<bool>,
        right: LineOrPoint<T>,
    },
    SplitTwice {
        right: LineOrPoint<T>,
    },
}
//@@ end

use SplitSegments::*;
// ---- overlapping pieces form chains ----
type Pieces<C> = Map<usize, Segment<C>>;

// the next of a chain is the same piece of another input
spec fn link_ok<C: Crossable>(m: Pieces<C>, k: usize) -> bool {
    m[k].overlapping matches Some(c) ==> m.contains_key(c) && m[c].is_overlapping && m[k].geom is Line && same(m[k].geom, m[c].geom)
}

spec fn links<C: Crossable>(m: Pieces<C>) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> seg_ok(k, m[k])
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> link_ok(m, k)
    &&& forall|j: usize, k: usize| #[trigger]
        m.contains_key(j) && #[trigger] m.contains_key(k) && m[j].overlapping is Some && m[j].overlapping == m[k].overlapping ==> j == k
}

spec fn follows<C: Crossable>(m: Pieces<C>, s: Seq<usize>, i: int) -> bool {
    m[s[i]].overlapping == Some(s[i + 1])
}

spec fn path<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize) -> bool {
    &&& s.len() > 0
    &&& s[0] == a
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] follows(m, s, i)
}

proof fn lemma_path_back<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize, i: int, j: int)
    requires
        links(m),
        path(m, s, a),
        !m[a].is_overlapping,
        0 <= i < j < s.len(),
    ensures
        s[i] != s[j],
    decreases i,
{
    assert(follows(m, s, j - 1));
    assert(m.contains_key(s[j - 1]) && link_ok(m, s[j - 1]));
    if i > 0 {
        assert(follows(m, s, i - 1));
        assert(m.contains_key(s[i - 1]));
        lemma_path_back(m, s, a, i - 1, j - 1);
    }
}

// a chain from a head visits no piece twice
proof fn lemma_path<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize)
    requires
        links(m),
        path(m, s, a),
        !m[a].is_overlapping,
    ensures
        s.no_duplicates(),
        s.len() <= m.dom().len(),
        forall|i: int| 0 < i < s.len() ==> m[#[trigger] s[i]].is_overlapping,
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
        lemma_path_back(m, s, a, i, j);
    }
    assert forall|i: int| 0 < i < s.len() implies m[#[trigger] s[i]].is_overlapping by {
        assert(follows(m, s, i - 1));
        assert(m.contains_key(s[i - 1]) && link_ok(m, s[i - 1]));
    }
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(m.dom())) by {
        assert forall|k: usize| s.to_set().contains(k) implies m.dom().contains(k) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), m.dom());
}

proof fn lemma_path_push<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize, c: usize)
    requires
        path(m, s, a),
        m.contains_key(c),
        m[s.last()].overlapping == Some(c),
    ensures
        path(m, s.push(c), a),
{
    let t = s.push(c);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m, t, i) by {
        if i < s.len() - 1 {
            assert(follows(m, s, i));
        }
    }
}

proof fn lemma_path_pre<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize, i: int)
    requires
        path(m, s, a),
        0 <= i < s.len(),
    ensures
        path(m, s.subrange(0, i + 1), a),
{
    let t = s.subrange(0, i + 1);
    assert forall|n: int| 0 <= n < t.len() - 1 implies #[trigger] follows(m, t, n) by {
        assert(follows(m, s, n));
    }
}

// all pieces of a chain are the same part of the plane
proof fn lemma_path_same<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize)
    requires
        links(m),
        path(m, s, a),
    ensures
        same(m[a].geom, m[s.last()].geom),
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m, t, i) by {
            assert(follows(m, s, i));
        }
        lemma_path_same(m, t, a);
        assert(follows(m, s, s.len() - 2));
        assert(link_ok(m, t.last()));
    }
}

proof fn lemma_convex(p: (real, real), a: (real, real), b: (real, real), c: (real, real), d: (real, real))
    requires
        on_seg(p, a, b),
        on_seg(a, c, d),
        on_seg(b, c, d),
    ensures
        on_seg(p, c, d),
{
    let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] along(t, a, b);
    let u = choose|t: real| 0real <= t <= 1real && a == #[trigger] along(t, c, d);
    let v = choose|t: real| 0real <= t <= 1real && b == #[trigger] along(t, c, d);
    let w = u + t * (v - u);
    assert(0real <= w <= 1real) by (nonlinear_arith)
        requires
            w == u + t * (v - u),
            0real <= t <= 1real,
            0real <= u <= 1real,
            0real <= v <= 1real,
    ;
    lemma_mix(t, u, v, w, c.0, d.0);
    lemma_mix(t, u, v, w, c.1, d.1);
    assert(p == along(w, c, d));
}

proof fn lemma_mix(t: real, u: real, v: real, w: real, c: real, d: real)
    requires
        w == u + t * (v - u),
    ensures
        c + w * (d - c) == (c + u * (d - c)) + t * ((c + v * (d - c)) - (c + u * (d - c))),
{
    let e = d - c;
    assert(w * e == u * e + t * (v * e - u * e)) by (nonlinear_arith)
        requires
            w == u + t * (v - u),
    ;
}

proof fn lemma_within<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>, c: LineOrPoint<T>)
    requires
        within(a, b),
        within(b, c),
    ensures
        within(a, c),
{
    lemma_convex(pt(fst(a)), pt(fst(b)), pt(snd(b)), pt(fst(c)), pt(snd(c)));
    lemma_convex(pt(snd(a)), pt(fst(b)), pt(snd(b)), pt(fst(c)), pt(snd(c)));
}

// a part lies between the ends
proof fn lemma_part_order<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>)
    requires
        within(a, b),
        lop_wf(b),
        b is Line,
    ensures
        lex(fst(b), fst(a)) != Ordering::Greater,
        lex(snd(a), snd(b)) != Ordering::Greater,
        lex(fst(b), snd(a)) != Ordering::Greater,
        lex(fst(a), snd(b)) != Ordering::Greater,
{
    lemma_on_seg(pt(fst(a)), pt(fst(b)), pt(snd(b)));
    lemma_on_seg(pt(snd(a)), pt(fst(b)), pt(snd(b)));
}

proof fn lemma_ends<T: GeoNum>(b: LineOrPoint<T>)
    ensures
        member(pt(fst(b)), b),
        member(pt(snd(b)), b),
{
    let (a, c) = (pt(fst(b)), pt(snd(b)));
    assert(along(0real, a, c) == a);
    assert(along(1real, a, c) == c);
}

// what adjusting a head leaves and gives out
proof fn lemma_pieces<T: Float>(g: LineOrPoint<T>, r: LineOrPoint<T>, g2: LineOrPoint<T>, out: SplitSegments<T>)
    requires
        split_ok(g, r, g2, out),
        g is Line,
        lop_wf(g),
        lop_wf(r),
        within(r, g),
    ensures
        g2 is Line,
        lop_wf(g2),
        within(g2, g),
        fst(g2) == fst(g),
        match out {
            SplitSegments::Unchanged { overlap } => g2 == g && overlap == (r is Line) && (overlap ==> same(g, r)),
            SplitSegments::SplitOnce { overlap, right } => {
                &&& right is Line && lop_wf(right) && within(right, g) && snd(right) == snd(g)
                &&& lex(fst(r), fst(right)) != Ordering::Greater
                &&& overlap is Some <==> r is Line
                &&& overlap == Some(false) ==> same(g2, r)
                &&& overlap == Some(true) ==> same(right, r)
            },
            SplitSegments::SplitTwice { right } => {
                &&& right is Line && lop_wf(right) && within(right, g) && snd(right) == snd(g)
                &&& r is Line
                &&& lex(fst(r), fst(right)) == Ordering::Less
            },
        },
        !(out is Unchanged) ==> lex(fst(r), snd(g2)) != Ordering::Greater && (pt(snd(g2)) == pt(fst(r)) || pt(fst(r)) == pt(fst(g))),
{
    lemma_part_order(r, g);
    lemma_ends(g);
}

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(A)]
//@@ struct Sweep file=src/crossings/sweep.rs
//@@ sub `A = SplayWrap < Active < Segment < C > > >` => `A`
struct Sweep<C, A>
where
    C: Crossable,
    A: Access<SegmentType = Segment<C>>,
{
    segments: Slab < Segment < C > >,
    events: BinaryHeap<Event<C::Scalar>>,
    active_segments: A,
}
//@@ end

proof fn lemma_fresh_links<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize)
    requires
        links(m),
        !m.contains_key(k),
        m2 == m.insert(k, m2[k]),
        seg_ok(k, m2[k]),
        m2[k].overlapping is None,
    ensures
        links(m2),
        created(m, m2, k),
{
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies seg_ok(j, m2[j]) by {
        if j != k {
            assert(m.contains_key(j));
        }
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies link_ok(m2, j) by {
        if j != k {
            assert(m.contains_key(j) && link_ok(m, j));
        }
    }
    assert forall|i: usize, j: usize| #[trigger]
        m2.contains_key(i) && #[trigger] m2.contains_key(j) && m2[i].overlapping is Some && m2[i].overlapping == m2[j].overlapping implies i == j by {
        assert(m.contains_key(i) && m.contains_key(j));
    }
}

// g is a part of every input that lies on the piece `a`
spec fn fits<C: Crossable>(m: Pieces<C>, a: usize, g: LineOrPoint<C::Scalar>) -> bool {
    forall|s: Seq<usize>| #[trigger] path(m, s, a) ==> within(g, inp(m[s.last()].crossable))
}

// k is new, with copies of a chain behind it; all else is as before
spec fn created<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize) -> bool {
    &&& links(m2)
    &&& !m.contains_key(k)
    &&& m2.contains_key(k)
    &&& forall|j: usize| #[trigger] m.contains_key(j) ==> m2.contains_key(j) && m2[j] == m[j]
    &&& forall|j: usize| #[trigger] m2.contains_key(j) ==> m.contains_key(j) || j == k || m2[j].is_overlapping
}

// a chain from its first piece to its last
spec fn chain<C: Crossable>(m: Pieces<C>, s: Seq<usize>, a: usize) -> bool {
    path(m, s, a) && m[s.last()].overlapping is None
}

// the chain b runs over what the chain a runs over, behind the first piece
spec fn copies<C: Crossable>(m: Pieces<C>, a: usize, m2: Pieces<C>, b: usize) -> bool {
    exists|s: Seq<usize>, t: Seq<usize>| #[trigger] chain(m, s, a) && #[trigger] chain(m2, t, b) && s.len() == t.len() && forall|i: int| 0 < i < s.len() ==> m2[#[trigger] t[i]].crossable == m[s[i]].crossable
}

proof fn lemma_path_down<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, s: Seq<usize>, a: usize)
    requires
        links(m),
        m.contains_key(a),
        path(m2, s, a),
        forall|j: usize| #[trigger] m.contains_key(j) ==> m2.contains_key(j) && m2[j].overlapping == m[j].overlapping && m2[j].crossable == m[j].crossable,
    ensures
        path(m, s, a),
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last();
        let n = s.len() as int;
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m2, t, i) by {
            assert(follows(m2, s, i));
        }
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i]);
        lemma_path_down(m, m2, t, a);
        assert(follows(m2, s, n - 2));
        assert(t[n - 2] == s[n - 2]);
        assert(m.contains_key(t[n - 2]) && link_ok(m, t[n - 2]));
        assert(m.contains_key(s[n - 1]));
        assert forall|i: int| 0 <= i < s.len() implies m.contains_key(#[trigger] s[i]) by {
            if i < n - 1 {
                assert(m.contains_key(t[i]));
            }
        }
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] follows(m, s, i) by {
            assert(follows(m2, s, i));
            assert(m.contains_key(s[i]));
        }
    }
}

// a chain stays what it is when pieces are added, or change their geometry
proof fn lemma_copies<C: Crossable>(m0: Pieces<C>, a: usize, m: Pieces<C>, m2: Pieces<C>, b: usize, m3: Pieces<C>)
    requires
        links(m0),
        m0.contains_key(a),
        copies(m, a, m2, b),
        forall|j: usize| #[trigger] m0.contains_key(j) ==> m.contains_key(j) && m[j].overlapping == m0[j].overlapping && m[j].crossable == m0[j].crossable,
        forall|j: usize| #[trigger] m2.contains_key(j) ==> m3.contains_key(j) && m3[j].overlapping == m2[j].overlapping && m3[j].crossable == m2[j].crossable,
    ensures
        copies(m0, a, m3, b),
{
    let (s, t) = choose|s: Seq<usize>, t: Seq<usize>| #[trigger] chain(m, s, a) && #[trigger] chain(m2, t, b) && s.len() == t.len() && forall|i: int| 0 < i < s.len() ==> m2[#[trigger] t[i]].crossable == m[s[i]].crossable;
    lemma_path_down(m0, m, s, a);
    assert(m0.contains_key(s[s.len() - 1]));
    assert(chain(m0, s, a));
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m3, t, i) by {
        assert(follows(m2, t, i));
        assert(m2.contains_key(t[i]));
    }
    assert(m2.contains_key(t[t.len() - 1]));
    assert(chain(m3, t, b));
    assert forall|i: int| 0 < i < s.len() implies m3[#[trigger] t[i]].crossable == m0[s[i]].crossable by {
        assert(m2.contains_key(t[i]) && m0.contains_key(s[i]));
    }
}

// a piece of its own from p to q, of the input of k and of all that run over k
spec fn span<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize, j: usize, p: Spot, q: Spot) -> bool {
    &&& head(m2, j)
    &&& !m.contains_key(j)
    &&& pt(fst(m2[j].geom)) == p
    &&& pt(snd(m2[j].geom)) == q
    &&& m2[j].crossable == m[k].crossable
    &&& !m2[j].first_segment
    &&& copies(m, k, m2, j)
}

// k has been cut: the inputs it stands for go on, in one piece or two, to where it ended
spec fn goes_on<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize) -> bool {
    let (p, q) = (pt(snd(m2[k].geom)), pt(snd(m[k].geom)));
    ||| p == q
    ||| exists|j: usize| #[trigger] span(m, m2, k, j, p, q)
    ||| exists|j: usize, l: usize, o: Spot| #[trigger] span(m, m2, k, j, p, o) && #[trigger] span(m, m2, k, l, o, q) && j != l
}

// nothing else is taken from the chains there were
spec fn kept<C: Crossable>(m: Pieces<C>, m2: Pieces<C>) -> bool {
    forall|j: usize| #[trigger] m.contains_key(j) ==> m2.contains_key(j) && m2[j].overlapping == m[j].overlapping && m2[j].crossable == m[j].crossable && m2[j].is_overlapping == m[j].is_overlapping
}

spec fn head<C: Crossable>(m: Pieces<C>, k: usize) -> bool {
    m.contains_key(k) && !m[k].is_overlapping && m[k].geom is Line
}

// the geometry of k (and of the chain behind it) has changed, nothing else
spec fn cut<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize) -> bool {
    &&& m2.dom() == m.dom()
    &&& m2[k] == (Segment { geom: m2[k].geom, first_segment: m2[k].first_segment, ..m[k] })
    &&& m2[k].first_segment ==> m[k].first_segment
    &&& forall|j: usize| #[trigger]
        m.contains_key(j) && j != k ==> m2[j] == m[j] || m[j].is_overlapping && m[j].geom is Line && m2[j] == (Segment { geom: m2[k].geom, ..m[j] })
}

proof fn lemma_cut_links<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, s: Seq<usize>, k: usize, g: LineOrPoint<C::Scalar>)
    requires
        links(m),
        head(m, k),
        path(m, s, k),
        m[s.last()].overlapping is None,
        m2.dom() == m.dom(),
        m2[k] == (Segment { geom: g, first_segment: m2[k].first_segment, ..m[k] }),
        m2[k].first_segment ==> m[k].first_segment,
        forall|j: usize| #[trigger] m.contains_key(j) && j != k ==> m2[j] == if s.contains(j) { Segment { geom: g, ..m[j] } } else { m[j] },
        g is Line,
        lop_wf(g),
        within(g, m[k].geom),
        fst(g) == fst(m[k].geom),
    ensures
        links(m2),
        cut(m, m2, k),
{
    lemma_path(m, s, k);
    assert(s.contains(k)) by {
        assert(s[0] == k);
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies seg_ok(j, m2[j]) by {
        assert(m.contains_key(j) && seg_ok(j, m[j]));
        if s.contains(j) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
            let t = s.subrange(0, i + 1);
            assert forall|n: int| 0 <= n < t.len() - 1 implies #[trigger] follows(m, t, n) by {
                assert(follows(m, s, n));
            }
            lemma_path_same(m, t, k);
            assert(within(g, m[j].geom));
            lemma_within(g, m[j].geom, inp(m[j].crossable));
        }
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies link_ok(m2, j) by {
        assert(m.contains_key(j) && link_ok(m, j));
        if m[j].overlapping is Some {
            let c = m[j].overlapping->0;
            if s.contains(j) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
                assert(i < s.len() - 1);
                assert(follows(m, s, i));
                assert(s[i + 1] == c);
                assert(s.contains(c));
            }
            if s.contains(c) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                assert(i > 0);
                assert(follows(m, s, i - 1));
                assert(m.contains_key(s[i - 1]));
                assert(s.contains(s[i - 1]));
            }
            assert(m.contains_key(c));
        }
    }
    assert forall|i: usize, j: usize| #[trigger]
        m2.contains_key(i) && #[trigger] m2.contains_key(j) && m2[i].overlapping is Some && m2[i].overlapping == m2[j].overlapping implies i == j by {
        assert(m.contains_key(i) && m.contains_key(j));
    }
    assert forall|j: usize| #[trigger]
        m.contains_key(j) && j != k implies m2[j] == m[j] || m[j].is_overlapping && m[j].geom is Line && m2[j] == (Segment { geom: m2[k].geom, ..m[j] }) by {
        if s.contains(j) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
            lemma_path_pre(m, s, k, i);
            lemma_path_same(m, s.subrange(0, i + 1), k);
            assert(m[s[i]].is_overlapping);
        }
    }
}

// ---- the state of the sweep ----
type Queue<T> = Multiset<Event<T>>;

type Spot = (real, real);

spec fn due(lo: Option<Spot>, p: Spot) -> bool {
    lo matches Some(l) ==> lexr(l, p) != Ordering::Greater
}

// a queued event: starts are queued once, for pieces that wait for them; ends may be outdated
spec fn ev_ok<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, ex: Option<usize>, e: Event<C::Scalar>) -> bool {
    let k = e.segment_key;
    match e.ty {
        LineRight => true,
        LineLeft => head(m, k) && e == left_ev(m[k]) && h.count(e) == 1 && !act.contains(k) && ex != Some(k),
        _ => m.contains_key(k) && m[k].geom is Point && pt(fst(m[k].geom)) == pt(e.point),
    }
}

// Nothing queued lies before `lo`; active pieces have started; every chain head has its end queued and is
// active, waits for its start, or is the one (`ex`) whose start is being handled.
spec fn inv<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, ex: Option<usize>) -> bool {
    &&& links(m)
    &&& forall|k: usize| #[trigger] act.contains(k) ==> head(m, k) && ex != Some(k) && lo is Some && lexr(pt(fst(m[k].geom)), lo->0) != Ordering::Greater
    &&& forall|e: Event<C::Scalar>| #[trigger] h.contains(e) ==> ev_ok(m, h, act, ex, e) && due(lo, pt(e.point))
    &&& forall|k: usize| #[trigger] head(m, k) ==> h.contains(right_ev(m[k])) && (act.contains(k) || ex == Some(k) || h.contains(left_ev(m[k])))
    &&& ex matches Some(k) ==> head(m, k) && lo == Some(pt(fst(m[k].geom)))
}

proof fn lemma_created_inv<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    act: Set<usize>,
    lo: Option<Spot>,
    ex: Option<usize>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    k: usize,
)
    requires
        inv(m, h, act, lo, ex),
        created(m, m2, k),
        !m2[k].is_overlapping,
        h2 == h.insert(left_ev(m2[k])).insert(right_ev(m2[k])),
        due(lo, pt(fst(m2[k].geom))),
    ensures
        inv(m2, h2, act, lo, ex),
        forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) <==> h.contains(e) || e == left_ev(m2[k]) || e == right_ev(m2[k]),
{
    let (l, r) = (left_ev(m2[k]), right_ev(m2[k]));
    assert(seg_ok(k, m2[k]));
    assert(l != r);
    assert forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) implies ev_ok(m2, h2, act, ex, e) && due(lo, pt(e.point)) by {
        if h.contains(e) {
            assert(ev_ok(m, h, act, ex, e));
            if e.ty == LineLeft {
                assert(head(m, e.segment_key));
                assert(e.segment_key != k);
            }
        } else {
            assert(e == l || e == r);
            if act.contains(k) {
                assert(head(m, k));
            }
            if ex == Some(k) {
                assert(head(m, k));
            }
        }
    }
    assert forall|j: usize| #[trigger] head(m2, j) implies h2.contains(right_ev(m2[j])) && (act.contains(j) || ex == Some(j) || h2.contains(left_ev(m2[j]))) by {
        if j != k {
            assert(m.contains_key(j));
            assert(head(m, j));
        }
    }
    assert forall|j: usize| #[trigger] act.contains(j) implies head(m2, j) && ex != Some(j) && lo is Some && lexr(pt(fst(m2[j].geom)), lo->0)
        != Ordering::Greater by {
        assert(head(m, j));
    }
}

proof fn lemma_cut_inv<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    act: Set<usize>,
    lo: Option<Spot>,
    ex: Option<usize>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    k: usize,
)
    requires
        inv(m, h, act, lo, ex),
        cut(m, m2, k),
        links(m2),
        head(m, k),
        m2[k].geom is Line,
        fst(m2[k].geom) == fst(m[k].geom),
        h2 == h && m2[k].geom == m[k].geom || h2 == h.insert(right_ev(m2[k])) && due(lo, pt(snd(m2[k].geom))),
    ensures
        inv(m2, h2, act, lo, ex),
        head(m2, k),
        forall|j: usize| #[trigger] head(m, j) && j != k ==> head(m2, j) && m2[j] == m[j],
{
    assert forall|j: usize| #[trigger] head(m, j) implies head(m2, j) && (j != k ==> m2[j] == m[j]) by {
        assert(m.contains_key(j));
    }
    assert forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) implies ev_ok(m2, h2, act, ex, e) && due(lo, pt(e.point)) by {
        if h.contains(e) {
            assert(ev_ok(m, h, act, ex, e));
            assert(m.contains_key(e.segment_key) || e.ty == LineRight);
        }
    }
    assert forall|j: usize| #[trigger] head(m2, j) implies h2.contains(right_ev(m2[j])) && (act.contains(j) || ex == Some(j) || h2.contains(left_ev(m2[j]))) by {
        assert(m.contains_key(j));
        assert(head(m, j));
    }
    assert forall|j: usize| #[trigger] act.contains(j) implies head(m2, j) && ex != Some(j) && lo is Some && lexr(pt(fst(m2[j].geom)), lo->0)
        != Ordering::Greater by {
        assert(head(m, j));
    }
}

proof fn lemma_cut_heads<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, k: usize)
    requires
        cut(m, m2, k),
        head(m, k),
    ensures
        forall|j: usize| #[trigger] head(m, j) && j != k ==> head(m2, j) && m2[j] == m[j],
        forall|j: usize| #[trigger]
            m.contains_key(j) ==> m2.contains_key(j) && m2[j].overlapping == m[j].overlapping && m2[j].crossable == m[j].crossable,
{
    assert forall|j: usize| #[trigger] head(m, j) && j != k implies head(m2, j) && m2[j] == m[j] by {
        assert(m.contains_key(j));
    }
}

// a part of k's geometry is a part of every input on k
proof fn lemma_fits<C: Crossable>(m0: Pieces<C>, m: Pieces<C>, k: usize, g: LineOrPoint<C::Scalar>)
    requires
        links(m0),
        m0.contains_key(k),
        within(g, m0[k].geom),
        forall|j: usize| #[trigger]
            m0.contains_key(j) ==> m.contains_key(j) && m[j].overlapping == m0[j].overlapping && m[j].crossable == m0[j].crossable,
    ensures
        fits(m, k, g),
{
    assert forall|s: Seq<usize>| #[trigger] path(m, s, k) implies within(g, inp(m[s.last()].crossable)) by {
        lemma_path_in(m0, m, k, s);
        lemma_path_same(m0, s, k);
        let l = s.last();
        assert(m0.contains_key(l) && seg_ok(l, m0[l]));
        assert(within(g, m0[l].geom));
        lemma_within(g, m0[l].geom, inp(m0[l].crossable));
    }
}

proof fn lemma_path_in<C: Crossable>(m0: Pieces<C>, m: Pieces<C>, k: usize, s: Seq<usize>)
    requires
        links(m0),
        m0.contains_key(k),
        path(m, s, k),
        forall|j: usize| #[trigger] m0.contains_key(j) ==> m.contains_key(j) && m[j].overlapping == m0[j].overlapping,
    ensures
        path(m0, s, k),
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m, t, i) by {
            assert(follows(m, s, i));
        }
        lemma_path_in(m0, m, k, t);
        assert(follows(m, s, s.len() - 2));
        assert(m0.contains_key(t.last()) && link_ok(m0, t.last()));
        lemma_path_push(m0, t, k, s.last());
        assert(t.push(s.last()) == s);
    }
}

// something will be reported at q: a piece ends there, waits for its start there, or an input that is a point does
spec fn live<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, q: Spot) -> bool {
    ||| exists|k: usize| #[trigger] head(m, k) && (pt(snd(m[k].geom)) == q || pt(fst(m[k].geom)) == q && h.contains(left_ev(m[k])))
    ||| exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q
}

// every queued event is at a spot where something will be reported
spec fn lively<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>) -> bool {
    forall|e: Event<C::Scalar>| #[trigger] h.contains(e) ==> live(m, h, pt(e.point))
}

// nothing that is due elsewhere than at p is lost, and new events announce something
spec fn passes<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, m2: Pieces<C>, h2: Queue<C::Scalar>, p: Option<Spot>) -> bool {
    &&& forall|q: Spot| #[trigger] live(m, h, q) && p != Some(q) ==> live(m2, h2, q)
    &&& forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) ==> h.contains(e) || p == Some(pt(e.point)) || live(m2, h2, pt(e.point))
}

proof fn lemma_passes<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    m1: Pieces<C>,
    h1: Queue<C::Scalar>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    p1: Option<Spot>,
    p2: Option<Spot>,
    p: Option<Spot>,
)
    requires
        passes(m, h, m1, h1, p1),
        passes(m1, h1, m2, h2, p2),
        p1 is None || p1 == p,
        p2 is None || p2 == p,
    ensures
        passes(m, h, m2, h2, p),
{
    assert forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) implies h.contains(e) || p == Some(pt(e.point)) || live(m2, h2, pt(e.point)) by {
        if h1.contains(e) && !h.contains(e) && p != Some(pt(e.point)) {
            assert(live(m1, h1, pt(e.point)));
        }
    }
}

// all heads but k are as before, k starts as before
proof fn lemma_live<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, m2: Pieces<C>, h2: Queue<C::Scalar>, k: usize)
    requires
        head(m, k) ==> head(m2, k) && fst(m2[k].geom) == fst(m[k].geom) && m2[k].key == m[k].key,
        forall|j: usize| #[trigger] head(m, j) && j != k ==> head(m2, j) && m2[j].geom == m[j].geom && m2[j].key == m[j].key,
        forall|e: Event<C::Scalar>| #[trigger] h.contains(e) ==> h2.contains(e),
    ensures
        forall|q: Spot| #[trigger] live(m, h, q) && !(head(m, k) && q == pt(snd(m[k].geom)) && pt(snd(m2[k].geom)) != q) ==> live(m2, h2, q),
{
    assert forall|q: Spot| #[trigger] live(m, h, q) && !(head(m, k) && q == pt(snd(m[k].geom)) && pt(snd(m2[k].geom)) != q) implies live(m2, h2, q) by {
        if exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q {
            let e = choose|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q;
            assert(h2.contains(e));
        } else {
            let j = choose|j: usize| #[trigger] head(m, j) && (pt(snd(m[j].geom)) == q || pt(fst(m[j].geom)) == q && h.contains(left_ev(m[j])));
            assert(head(m2, j));
        }
    }
}

// an event at p is taken from the queue, unless it starts a piece or a point only an end
proof fn lemma_popped<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, e: Event<C::Scalar>)
    ensures
        passes(m, h.insert(e), m, h, Some(pt(e.point))),
        e.ty != LineLeft && e.ty != PointLeft ==> passes(m, h.insert(e), m, h, None),
{
    let h1 = h.insert(e);
    assert forall|q: Spot| #[trigger] live(m, h1, q) && (q != pt(e.point) || e.ty != LineLeft && e.ty != PointLeft) implies live(m, h, q) by {
        if exists|f: Event<C::Scalar>| #[trigger] h1.contains(f) && f.ty == PointLeft && pt(f.point) == q {
            let f = choose|f: Event<C::Scalar>| #[trigger] h1.contains(f) && f.ty == PointLeft && pt(f.point) == q;
            assert(h.contains(f));
        } else {
            let j = choose|j: usize| #[trigger] head(m, j) && (pt(snd(m[j].geom)) == q || pt(fst(m[j].geom)) == q && h1.contains(left_ev(m[j])));
            assert(head(m, j));
        }
    }
}

// active pieces have been reported
spec fn started<C: Crossable>(m: Pieces<C>, act: Set<usize>) -> bool {
    forall|k: usize| #[trigger] act.contains(k) ==> m[k].left_event_done
}

spec fn at_end<T: GeoNum>(p: SweepPoint<T>, g: LineOrPoint<T>) -> bool {
    pt(p) == pt(fst(g)) || pt(p) == pt(snd(g))
}

// the piece k has been cut at r: what became of it, what is new
spec fn adjusted<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    k: usize,
    r: LineOrPoint<C::Scalar>,
    ret: Option<usize>,
) -> bool {
    &&& head(m2, k)
    &&& fst(m2[k].geom) == fst(m[k].geom)
    &&& m2[k] == (Segment { geom: m2[k].geom, first_segment: m2[k].first_segment, ..m[k] })
    &&& forall|j: usize| #[trigger] head(m, j) && j != k ==> head(m2, j) && m2[j] == m[j]
    &&& forall|j: usize| #[trigger] m.contains_key(j) ==> m2.contains_key(j)
    &&& r is Point && at_end(fst(r), m[k].geom) ==> m2[k].geom == m[k].geom && h2 == h
    &&& pt(fst(r)) != pt(fst(m[k].geom)) ==> pt(snd(m2[k].geom)) == pt(fst(r))
    &&& pt(fst(r)) != pt(fst(m[k].geom)) && pt(fst(r)) != pt(snd(m[k].geom)) ==> h2.contains(right_ev(m2[k]))
    &&& forall|e: Event<C::Scalar>| #[trigger]
        h2.contains(e) ==> h.contains(e) || e == right_ev(m2[k]) && lex(fst(r), e.point) != Ordering::Greater || lex(fst(r), e.point) == Ordering::Less || lex(fst(r), e.point) == Ordering::Equal
            && e.ty == LineLeft
    &&& pt(fst(r)) == pt(fst(m[k].geom)) ==> forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) ==> h.contains(e) || lex(fst(r), e.point) == Ordering::Less
    &&& h2.count(right_ev(m2[k])) <= h.count(right_ev(m2[k])) + 1
    &&& ret is Some <==> r is Line
    &&& ret matches Some(j) ==> {
        &&& head(m2, j)
        &&& same(m2[j].geom, r)
        &&& j == k <==> pt(fst(r)) == pt(fst(m[k].geom))
        &&& j != k ==> !m.contains_key(j) && !m2[j].left_event_done
    }
}

// one piece has been put at the end of another's chain
spec fn chained<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, src: usize, tgt: usize) -> bool {
    &&& m2.dom() == m.dom()
    &&& m2[tgt] == (Segment { is_overlapping: true, ..m[tgt] })
    &&& forall|j: usize| #[trigger] m.contains_key(j) && j != tgt ==> m2[j] == (Segment { overlapping: m2[j].overlapping, ..m[j] })
    &&& forall|j: usize| #[trigger] m.contains_key(j) && m[j].overlapping is Some ==> m2[j].overlapping == m[j].overlapping
    &&& exists|s: Seq<usize>| #[trigger] path(m2, s, src) && s.last() == tgt
}

proof fn lemma_chained<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, src: usize, tgt: usize, s: Seq<usize>)
    requires
        links(m),
        head(m, src),
        head(m, tgt),
        src != tgt,
        same(m[src].geom, m[tgt].geom),
        path(m, s, src),
        m[s.last()].overlapping is None,
        m2 == m.insert(s.last(), Segment { overlapping: Some(tgt), ..m[s.last()] }).insert(tgt, Segment { is_overlapping: true, ..m[tgt] }),
    ensures
        links(m2),
        chained(m, m2, src, tgt),
{
    lemma_path(m, s, src);
    lemma_path_same(m, s, src);
    let l = s.last();
    assert(l != tgt) by {
        if s.len() > 1 {
            assert(m[s[s.len() - 1]].is_overlapping);
        }
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies seg_ok(j, m2[j]) by {
        assert(m.contains_key(j));
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies link_ok(m2, j) by {
        assert(m.contains_key(j) && link_ok(m, j));
    }
    assert forall|i: usize, j: usize| #[trigger]
        m2.contains_key(i) && #[trigger] m2.contains_key(j) && m2[i].overlapping is Some && m2[i].overlapping == m2[j].overlapping implies i == j by {
        assert(m.contains_key(i) && m.contains_key(j));
        assert(link_ok(m, i) && link_ok(m, j));
    }
    let t = s.push(tgt);
    assert forall|i: int| 0 <= i < t.len() implies m2.contains_key(#[trigger] t[i]) by {
        if i < s.len() {
            assert(m.contains_key(s[i]));
        }
    }
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] follows(m2, t, i) by {
        if i < s.len() - 1 {
            assert(follows(m, s, i));
            assert(s[i] != s[s.len() - 1]);
            assert(m.contains_key(s[i]));
            assert(s[i] != tgt) by {
                if i > 0 {
                    assert(m[s[i]].is_overlapping);
                }
            }
        }
    }
    assert(t.last() == tgt);
    assert(path(m2, t, src));
    assert(m2.dom() =~= m.dom());
    assert(m2[l].geom == m[l].geom);
    assert forall|j: usize| #[trigger] m.contains_key(j) && j != tgt implies m2[j] == (Segment { overlapping: m2[j].overlapping, ..m[j] }) by {
        if j == l {
            assert(m2[j] == Segment { overlapping: Some(tgt), ..m[l] });
        } else {
            assert(m2[j] == m[j]);
        }
    }
}

proof fn lemma_chained_inv<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    act: Set<usize>,
    lo: Option<Spot>,
    m2: Pieces<C>,
    src: usize,
    tgt: usize,
)
    requires
        inv(m, h, act, lo, Some(tgt)),
        links(m2),
        chained(m, m2, src, tgt),
    ensures
        inv(m2, h, act, lo, None),
{
    assert forall|e: Event<C::Scalar>| #[trigger] h.contains(e) implies ev_ok(m2, h, act, None, e) by {
        assert(ev_ok(m, h, act, Some(tgt), e));
        assert(m.contains_key(e.segment_key) || e.ty == LineRight);
    }
    assert forall|j: usize| #[trigger] head(m2, j) implies h.contains(right_ev(m2[j])) && (act.contains(j) || h.contains(left_ev(m2[j]))) by {
        assert(m.contains_key(j));
        assert(head(m, j));
    }
    assert forall|j: usize| #[trigger] act.contains(j) implies head(m2, j) && lo is Some && lexr(pt(fst(m2[j].geom)), lo->0) != Ordering::Greater by {
        assert(head(m, j));
        assert(m.contains_key(j));
    }
}

// the piece of the event, in the place where it was queued
spec fn pending<C: Crossable>(m: Pieces<C>, e: Event<C::Scalar>) -> bool {
    &&& m.contains_key(e.segment_key)
    &&& m[e.segment_key].geom is Line <==> e.ty == LineLeft
    &&& pt(fst(m[e.segment_key].geom)) == pt(e.point)
}

// an end event that is not outdated
spec fn current<C: Crossable>(m: Pieces<C>, e: Event<C::Scalar>) -> bool {
    head(m, e.segment_key) && pt(snd(m[e.segment_key].geom)) == pt(e.point)
}

// ---- intersections of pieces ----
// a computed crossing is on both lines (C10-C12 are stated for exactly representable crossings)
spec fn exact<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: Option<LineOrPoint<T>>) -> bool {
    r matches Some(LineOrPoint::Point(q)) ==> member(pt(q), a) && member(pt(q), b)
}

// pieces that become neighbours behind p meet in a point after p, or where both end
spec fn clear<T: GeoNum>(a: LineOrPoint<T>, b: LineOrPoint<T>, p: Spot, r: Option<LineOrPoint<T>>) -> bool {
    r matches Some(i) ==> i is Point && (lexr(p, pt(fst(i))) == Ordering::Less || at_end(fst(i), a) && at_end(fst(i), b))
}

proof fn lemma_common<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: LineOrPoint<T>)
    requires
        lop_wf(a),
        lop_wf(b),
        b is Line,
        ordered_ok(a, b, Some(r)),
        exact(a, b, Some(r)),
    ensures
        lop_wf(r),
        within(r, a),
        within(r, b),
        lex(fst(a), fst(r)) != Ordering::Greater,
        lex(fst(b), fst(r)) != Ordering::Greater,
        lex(fst(r), snd(b)) != Ordering::Greater,
        r is Line ==> a is Line,
        r is Line ==> forall|s: (real, real)| #[trigger] member(s, r) <==> member(s, a) && member(s, b),
{
    lemma_ends(r);
    let u = choose|u: Option<LineOrPoint<T>>| #[trigger] isect_ok(a, b, u) && moved(a, b, u, Some(r));
    if r is Line {
        assert(u == Some(r));
        assert forall|s: (real, real)| #[trigger] member(s, r) <==> member(s, a) && member(s, b) by {
            assert(on_seg(s, pt(fst(r)), pt(snd(r))) <==> member(s, a) && member(s, b));
        }
        assert(member(pt(fst(r)), r) && member(pt(snd(r)), r));
        if a is Point {
            lemma_on_point(pt(fst(r)), pt(fst(a)));
            lemma_on_point(pt(snd(r)), pt(fst(a)));
        }
    }
    lemma_on_seg(pt(fst(r)), pt(fst(b)), pt(snd(b)));
    if a is Point {
        lemma_on_point(pt(fst(r)), pt(fst(a)));
    } else {
        lemma_on_seg(pt(fst(r)), pt(fst(a)), pt(snd(a)));
    }
}

// lines through two points are one line
proof fn lemma_one_line(e: (real, real), f: (real, real), a: (real, real), b: (real, real), c: (real, real))
    requires
        e != f,
        area(e, f, a) == 0real,
        area(e, f, b) == 0real,
        area(e, f, c) == 0real,
    ensures
        area(a, b, c) == 0real,
{
    let (dx, dy) = (f.0 - e.0, f.1 - e.1);
    lemma_cross_diff(dx, dy, b.0 - e.0, b.1 - e.1, a.0 - e.0, a.1 - e.1);
    lemma_cross_diff(dx, dy, c.0 - e.0, c.1 - e.1, a.0 - e.0, a.1 - e.1);
    lemma_parallel(dx, dy, b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
}

proof fn lemma_cross_diff(x: real, y: real, rx: real, ry: real, sx: real, sy: real)
    ensures
        cross(x, y, rx - sx, ry - sy) == cross(x, y, rx, ry) - cross(x, y, sx, sy),
{
    lemma_cross_anti(x, y, rx - sx, ry - sy);
    lemma_cross_sub(rx, ry, sx, sy, x, y);
    lemma_cross_anti(x, y, rx, ry);
    lemma_cross_anti(x, y, sx, sy);
}

proof fn lemma_area_swap(a: (real, real), b: (real, real), c: (real, real))
    ensures
        area(a, b, c) == -area(a, c, b),
{
    lemma_cross_anti(b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
}

// an overlap with a line that has started begins where the later one begins
proof fn lemma_start<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: LineOrPoint<T>)
    requires
        lop_wf(a),
        lop_wf(b),
        a is Line,
        b is Line,
        r is Line,
        lop_wf(r),
        within(r, a),
        within(r, b),
        forall|s: (real, real)| #[trigger] member(s, r) <==> member(s, a) && member(s, b),
        lex(fst(b), fst(a)) != Ordering::Greater,
    ensures
        pt(fst(r)) == pt(fst(a)),
{
    let (p, q, c, d, e, f) = (pt(fst(a)), pt(snd(a)), pt(fst(b)), pt(snd(b)), pt(fst(r)), pt(snd(r)));
    lemma_on_seg(e, p, q);
    lemma_on_seg(f, p, q);
    lemma_on_seg(e, c, d);
    lemma_on_seg(f, c, d);
    lemma_area_swap(p, e, q);
    lemma_area_swap(p, f, q);
    lemma_area_swap(c, e, d);
    lemma_area_swap(c, f, d);
    lemma_collinear(p, q, e, f);
    lemma_collinear(c, d, e, f);
    lemma_one_line(e, f, c, p, d);
    lemma_on_seg(p, c, d);
    lemma_ends(a);
    assert(member(p, a) && member(p, b));
    assert(member(p, r));
    lemma_on_seg(p, e, f);
}

// ---- events one after the other ----
proof fn lemma_ev<T: GeoNum>(a: Event<T>, b: Event<T>)
    ensures
        ev_cmp(a, b) == rev(ev_cmp(b, a)),
{
}

// the end event that cutting an active piece at the start of e puts first
proof fn lemma_special<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    k: usize,
    r: LineOrPoint<C::Scalar>,
    ret: Option<usize>,
    e: Event<C::Scalar>,
    v: Event<C::Scalar>,
)
    requires
        adjusted(m, h, m2, h2, k, r, ret),
        e.ty == LineLeft,
        forall|f: Event<C::Scalar>| #[trigger] h.contains(f) ==> ev_le(e, f),
        pt(fst(r)) == pt(e.point),
        pt(fst(r)) != pt(fst(m[k].geom)),
        pt(fst(r)) != pt(snd(m[k].geom)),
        h2.contains(v),
        forall|w: Event<C::Scalar>| #[trigger] h2.contains(w) ==> rev(ev_cmp(w, v)) != Ordering::Greater,
    ensures
        v == right_ev(m2[k]),
        forall|w: Event<C::Scalar>| #[trigger] h2.contains(w) ==> ev_le(v, w),
        h2.remove(v).insert(v) == h2,
        forall|f: Event<C::Scalar>| #[trigger] h2.remove(v).contains(f) ==> ev_le(e, f),
{
    let x = right_ev(m2[k]);
    lemma_rank(LineLeft, LineRight);
    assert(h2.contains(x));
    assert(rev(ev_cmp(x, v)) != Ordering::Greater);
    lemma_ev(x, v);
    assert(ev_le(v, x));
    if h.contains(v) {
        assert(ev_le(e, v));
        assert(false);
    }
    assert(v == x);
    assert forall|w: Event<C::Scalar>| #[trigger] h2.contains(w) implies ev_le(v, w) by {
        assert(rev(ev_cmp(w, v)) != Ordering::Greater);
        lemma_ev(w, v);
    }
    assert(h2.remove(v).insert(v) =~= h2);
    assert(!h.contains(v)) by {
        if h.contains(v) {
            assert(ev_le(e, v));
        }
    }
    assert forall|f: Event<C::Scalar>| #[trigger] h2.remove(v).contains(f) implies ev_le(e, f) by {
        assert(h2.contains(f));
        assert(f != v);
    }
}

// otherwise nothing is queued before e
proof fn lemma_later<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    m2: Pieces<C>,
    h2: Queue<C::Scalar>,
    k: usize,
    r: LineOrPoint<C::Scalar>,
    ret: Option<usize>,
    e: Event<C::Scalar>,
)
    requires
        adjusted(m, h, m2, h2, k, r, ret),
        e.ty == LineLeft,
        forall|f: Event<C::Scalar>| #[trigger] h.contains(f) ==> ev_le(e, f),
        lexr(pt(e.point), pt(fst(r))) == Ordering::Less || pt(fst(r)) == pt(e.point) && (pt(fst(r)) == pt(fst(m[k].geom)) || lex(e.point, snd(m2[k].geom))
            == Ordering::Less),
    ensures
        forall|f: Event<C::Scalar>| #[trigger] h2.contains(f) ==> ev_le(e, f),
{
    assert forall|f: Event<C::Scalar>| #[trigger] h2.contains(f) implies ev_le(e, f) by {
        if h.contains(f) {
            assert(ev_le(e, f));
        }
    }
}

// ---- one event off the queue ----
proof fn lemma_outdated_inv<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, ex: Option<usize>, e: Event<C::Scalar>)
    requires
        inv(m, h.insert(e), act, lo, ex),
        e.ty != LineLeft,
        e.ty == LineRight ==> !current(m, e),
    ensures
        inv(m, h, act, lo, ex),
{
    let h1 = h.insert(e);
    assert forall|f: Event<C::Scalar>| #[trigger] h.contains(f) implies ev_ok(m, h, act, ex, f) && due(lo, pt(f.point)) by {
        assert(h1.contains(f));
        assert(ev_ok(m, h1, act, ex, f));
    }
    assert forall|k: usize| #[trigger] head(m, k) implies h.contains(right_ev(m[k])) && (act.contains(k) || ex == Some(k) || h.contains(left_ev(m[k]))) by {
        assert(m.contains_key(k) && seg_ok(k, m[k]));
        assert(h1.contains(right_ev(m[k])));
        assert(right_ev(m[k]) != e);
        assert(left_ev(m[k]) != e);
    }
}

proof fn lemma_start_inv<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, e: Event<C::Scalar>)
    requires
        inv(m, h.insert(e), act, Some(pt(e.point)), None),
        e.ty == LineLeft,
    ensures
        inv(m, h, act, Some(pt(e.point)), Some(e.segment_key)),
        e == left_ev(m[e.segment_key]),
        !act.contains(e.segment_key),
{
    let h1 = h.insert(e);
    let lo = Some(pt(e.point));
    let ex = Some(e.segment_key);
    assert(h1.contains(e));
    assert(ev_ok(m, h1, act, None, e));
    assert forall|f: Event<C::Scalar>| #[trigger] h.contains(f) implies ev_ok(m, h, act, ex, f) && due(lo, pt(f.point)) by {
        assert(h1.contains(f));
        assert(ev_ok(m, h1, act, None, f));
        assert(f != e);
    }
    assert forall|k: usize| #[trigger] head(m, k) implies h.contains(right_ev(m[k])) && (act.contains(k) || ex == Some(k) || h.contains(left_ev(m[k]))) by {
        assert(m.contains_key(k) && seg_ok(k, m[k]));
        assert(h1.contains(right_ev(m[k])));
        assert(act.contains(k) || h1.contains(left_ev(m[k])));
    }
}

proof fn lemma_added_inv<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, k: usize)
    requires
        inv(m, h, act, lo, Some(k)),
    ensures
        inv(m, h, act.insert(k), lo, None),
{
    assert forall|f: Event<C::Scalar>| #[trigger] h.contains(f) implies ev_ok(m, h, act.insert(k), None, f) by {
        assert(ev_ok(m, h, act, Some(k), f));
    }
}

// only the flags for reported starts differ
spec fn flagged<C: Crossable>(m: Pieces<C>, m2: Pieces<C>) -> bool {
    &&& m2.dom() == m.dom()
    &&& forall|j: usize| #[trigger] m.contains_key(j) ==> m2[j] == (Segment { left_event_done: m2[j].left_event_done, ..m[j] })
}

proof fn lemma_flag_inv<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, ex: Option<usize>, m2: Pieces<C>)
    requires
        inv(m, h, act, lo, ex),
        flagged(m, m2),
    ensures
        inv(m2, h, act, lo, ex),
{
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies seg_ok(j, m2[j]) && link_ok(m2, j) by {
        assert(m.contains_key(j) && seg_ok(j, m[j]) && link_ok(m, j));
        if m[j].overlapping is Some {
            assert(m.contains_key(m[j].overlapping->0));
        }
    }
    assert forall|i: usize, j: usize| #[trigger]
        m2.contains_key(i) && #[trigger] m2.contains_key(j) && m2[i].overlapping is Some && m2[i].overlapping == m2[j].overlapping implies i == j by {
        assert(m.contains_key(i) && m.contains_key(j));
    }
    assert forall|e: Event<C::Scalar>| #[trigger] h.contains(e) implies ev_ok(m2, h, act, ex, e) by {
        assert(ev_ok(m, h, act, ex, e));
        assert(m.contains_key(e.segment_key) || e.ty == LineRight);
    }
    assert forall|j: usize| #[trigger] head(m2, j) implies h.contains(right_ev(m2[j])) && (act.contains(j) || ex == Some(j) || h.contains(left_ev(m2[j]))) by {
        assert(m.contains_key(j));
        assert(head(m, j));
    }
    assert forall|j: usize| #[trigger] act.contains(j) implies head(m2, j) && ex != Some(j) && lo is Some && lexr(pt(fst(m2[j].geom)), lo->0)
        != Ordering::Greater by {
        assert(head(m, j));
    }
}

// cutting a piece leaves the active ones reported
proof fn lemma_started<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, act: Set<usize>, k: usize)
    requires
        started(m, act),
        forall|j: usize| #[trigger] act.contains(j) ==> head(m, j),
        m2[k].left_event_done == m[k].left_event_done,
        forall|j: usize| #[trigger] head(m, j) && j != k ==> head(m2, j) && m2[j] == m[j],
    ensures
        started(m2, act),
{
}

proof fn lemma_chained_passes<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, m2: Pieces<C>, src: usize, tgt: usize)
    requires
        inv(m, h, act, lo, Some(tgt)),
        chained(m, m2, src, tgt),
        head(m, src),
        head(m, tgt),
        src != tgt,
        same(m[src].geom, m[tgt].geom),
        started(m, act),
    ensures
        passes(m, h, m2, h, lo),
        started(m2, act),
{
    assert(m.contains_key(src) && m.contains_key(tgt));
    assert forall|q: Spot| #[trigger] live(m, h, q) && lo != Some(q) implies live(m2, h, q) by {
        if exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q {
        } else {
            let j = choose|j: usize| #[trigger] head(m, j) && (pt(snd(m[j].geom)) == q || pt(fst(m[j].geom)) == q && h.contains(left_ev(m[j])));
            assert(m.contains_key(j));
            assert(head(m2, src));
            if j != tgt {
                assert(head(m2, j));
            }
        }
    }
    assert forall|j: usize| #[trigger] act.contains(j) implies m2[j].left_event_done by {
        assert(head(m, j) && m.contains_key(j));
    }
}

proof fn lemma_dropped_passes<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, ex: Option<usize>, e: Event<C::Scalar>, m2: Pieces<C>)
    requires
        inv(m, h.insert(e), act, Some(pt(e.point)), ex),
        e.ty == LineRight,
        current(m, e),
        forall|j: usize| #[trigger] head(m, j) && j != e.segment_key ==> head(m2, j) && m2[j] == m[j],
    ensures
        passes(m, h.insert(e), m2, h, Some(pt(e.point))),
{
    let k = e.segment_key;
    lemma_ending(m, h, act, ex, e);
    lemma_popped(m, h, e);
    assert forall|q: Spot| #[trigger] live(m, h.insert(e), q) && q != pt(e.point) implies live(m2, h, q) by {
        assert(live(m, h, q));
        if exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q {
        } else {
            let j = choose|j: usize| #[trigger] head(m, j) && (pt(snd(m[j].geom)) == q || pt(fst(m[j].geom)) == q && h.contains(left_ev(m[j])));
            if j == k {
                assert(h.insert(e).contains(left_ev(m[k])));
                assert(ev_ok(m, h.insert(e), act, ex, left_ev(m[k])));
                assert(m.contains_key(k) && seg_ok(k, m[k]));
            }
            assert(head(m2, j));
        }
    }
}

// m without the pieces of s
spec fn dropped<C: Crossable>(m: Pieces<C>, m2: Pieces<C>, s: Seq<usize>) -> bool {
    &&& forall|j: usize| #[trigger] m2.contains_key(j) <==> m.contains_key(j) && !s.contains(j)
    &&& forall|j: usize| #[trigger] m2.contains_key(j) ==> m2[j] == m[j]
}

// the piece of a current end event has started before
proof fn lemma_ending<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, ex: Option<usize>, e: Event<C::Scalar>)
    requires
        inv(m, h.insert(e), act, Some(pt(e.point)), ex),
        e.ty == LineRight,
        current(m, e),
    ensures
        act.contains(e.segment_key),
        ex != Some(e.segment_key),
{
    let k = e.segment_key;
    assert(m.contains_key(k) && seg_ok(k, m[k]));
    assert(lex(fst(m[k].geom), e.point) == Ordering::Less);
    if h.insert(e).contains(left_ev(m[k])) {
        assert(due(Some(pt(e.point)), pt(fst(m[k].geom))));
    }
}

proof fn lemma_dropped_inv<C: Crossable>(
    m: Pieces<C>,
    h: Queue<C::Scalar>,
    act: Set<usize>,
    ex: Option<usize>,
    e: Event<C::Scalar>,
    m2: Pieces<C>,
    s: Seq<usize>,
)
    requires
        inv(m, h.insert(e), act, Some(pt(e.point)), ex),
        e.ty == LineRight,
        current(m, e),
        path(m, s, e.segment_key),
        m[s.last()].overlapping is None,
        dropped(m, m2, s),
    ensures
        inv(m2, h, act.remove(e.segment_key), Some(pt(e.point)), ex),
        forall|j: usize| #[trigger] head(m, j) && j != e.segment_key ==> head(m2, j) && m2[j] == m[j],
{
    let k = e.segment_key;
    let h1 = h.insert(e);
    let lo = Some(pt(e.point));
    let act2 = act.remove(k);
    lemma_ending(m, h, act, ex, e);
    lemma_path(m, s, k);
    assert(s.contains(k)) by {
        assert(s[0] == k);
    }
    assert forall|j: usize| #[trigger] head(m, j) && j != k implies head(m2, j) && m2[j] == m[j] by {
        if s.contains(j) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
            assert(m[s[i]].is_overlapping);
        }
        assert(m2.contains_key(j));
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies seg_ok(j, m2[j]) && link_ok(m2, j) by {
        assert(m.contains_key(j) && seg_ok(j, m[j]) && link_ok(m, j));
        if m[j].overlapping is Some {
            let c = m[j].overlapping->0;
            if s.contains(c) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                assert(i > 0);
                assert(follows(m, s, i - 1));
                assert(m.contains_key(s[i - 1]));
                assert(s.contains(s[i - 1]));
            }
            assert(m2.contains_key(c));
        }
    }
    assert forall|i: usize, j: usize| #[trigger]
        m2.contains_key(i) && #[trigger] m2.contains_key(j) && m2[i].overlapping is Some && m2[i].overlapping == m2[j].overlapping implies i == j by {
        assert(m.contains_key(i) && m.contains_key(j));
    }
    assert forall|f: Event<C::Scalar>| #[trigger] h.contains(f) implies ev_ok(m2, h, act2, ex, f) && due(lo, pt(f.point)) by {
        assert(h1.contains(f));
        assert(ev_ok(m, h1, act, ex, f));
        let j = f.segment_key;
        if f.ty == LineLeft {
            assert(head(m, j) && j != k);
            assert(f != e);
        } else if f.ty != LineRight {
            if s.contains(j) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
                lemma_path_pre(m, s, k, i);
                lemma_path_same(m, s.subrange(0, i + 1), k);
            }
            assert(m2.contains_key(j));
        }
    }
    assert forall|j: usize| #[trigger] head(m2, j) implies h.contains(right_ev(m2[j])) && (act2.contains(j) || ex == Some(j) || h.contains(left_ev(m2[j]))) by {
        assert(m.contains_key(j) && m2.contains_key(j));
        assert(head(m, j));
        assert(j != k);
        assert(seg_ok(j, m[j]));
        assert(h1.contains(right_ev(m[j])));
    }
    assert forall|j: usize| #[trigger] act2.contains(j) implies head(m2, j) && ex != Some(j) && lexr(pt(fst(m2[j].geom)), lo->0) != Ordering::Greater by {
        assert(act.contains(j));
        assert(head(m, j));
    }
}

// ---- what is reported ----
type Log<C> = Seq<(Segment<C>, EventType)>;

// a record: a part of its input that starts or ends at p
spec fn rec_at<C: Crossable>(l: Log<C>, p: Spot, i: int) -> bool {
    let (s, ty) = l[i];
    &&& seg_ok(s.key, s)
    &&& match ty {
        LineLeft => s.geom is Line && pt(fst(s.geom)) == p,
        LineRight => s.geom is Line && pt(snd(s.geom)) == p,
        PointLeft => s.geom is Point && pt(fst(s.geom)) == p,
        PointRight => false,
    }
}

// a record with the overlap flag is followed by the same piece of another input
spec fn rec_next<C: Crossable>(l: Log<C>, i: int) -> bool {
    l[i].0.overlapping matches Some(c) ==> i + 1 < l.len() && l[i + 1].1 == l[i].1 && l[i + 1].0.key == c && same(l[i].0.geom, l[i + 1].0.geom)
}

spec fn recs<C: Crossable>(l: Log<C>, p: Spot) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] rec_at(l, p, i)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] rec_next(l, i)
}

spec fn telling<C: Crossable>(l: Log<C>, p: Spot, n: int, ty: EventType, next: Option<usize>, g: LineOrPoint<C::Scalar>) -> bool {
    &&& 0 <= n <= l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] rec_at(l, p, i)
    &&& forall|i: int| 0 <= i < l.len() && (i != l.len() - 1 || i < n) ==> #[trigger] rec_next(l, i)
    &&& l.len() > n ==> l.last().0.overlapping == next && l.last().1 == ty && same(l.last().0.geom, g)
}

proof fn lemma_tell<C: Crossable>(l: Log<C>, p: Spot, n: int, s: Segment<C>, ty: EventType, g: LineOrPoint<C::Scalar>)
    requires
        telling(l, p, n, ty, Some(s.key), g),
        seg_ok(s.key, s),
        same(s.geom, g),
        s.geom is Line,
        ty == LineLeft && pt(fst(s.geom)) == p || ty == LineRight && pt(snd(s.geom)) == p,
    ensures
        telling(l.push((s, ty)), p, n, ty, s.overlapping, g),
{
    let l2 = l.push((s, ty));
    assert forall|i: int| 0 <= i < l2.len() implies #[trigger] rec_at(l2, p, i) by {
        if i < l.len() {
            assert(rec_at(l, p, i));
        }
    }
    assert forall|i: int| 0 <= i < l2.len() && (i != l2.len() - 1 || i < n) implies #[trigger] rec_next(l2, i) by {
        if i < l.len() - 1 || i < n {
            assert(rec_next(l, i));
        }
    }
}

// a common point with a point is that point
proof fn lemma_exact_point<T: GeoFloat>(a: LineOrPoint<T>, b: LineOrPoint<T>, r: LineOrPoint<T>)
    requires
        a is Point,
        lop_wf(b),
        b is Line,
        ordered_ok(a, b, Some(r)),
    ensures
        exact(a, b, Some(r)),
{
    let u = choose|u: Option<LineOrPoint<T>>| #[trigger] isect_ok(a, b, u) && moved(a, b, u, Some(r));
    if u->0 is Point {
        let q = pt(fst(u->0));
        lemma_on_point(q, pt(fst(a)));
        lemma_on_seg(q, pt(fst(b)), pt(snd(b)));
    }
}

proof fn lemma_tell_point<C: Crossable>(l: Log<C>, p: Spot, s: Segment<C>)
    requires
        recs(l, p),
        seg_ok(s.key, s),
        s.geom is Point,
        pt(fst(s.geom)) == p,
        s.overlapping is None,
    ensures
        recs(l.push((s, PointLeft)), p),
{
    let l2 = l.push((s, PointLeft));
    assert forall|i: int| 0 <= i < l2.len() implies #[trigger] rec_at(l2, p, i) by {
        if i < l.len() {
            assert(rec_at(l, p, i));
        }
    }
    assert forall|i: int| 0 <= i < l2.len() implies #[trigger] rec_next(l2, i) by {
        if i < l.len() {
            assert(rec_next(l, i));
        }
    }
}

// a first event of the queue
spec fn soonest<T: GeoNum>(h: Queue<T>, v: Event<T>) -> bool {
    h.contains(v) && forall|w: Event<T>| #[trigger] h.contains(w) ==> ev_le(v, w)
}

proof fn lemma_some<T>(h: Multiset<T>, e: T)
    requires
        h.contains(e),
    ensures
        h.len() > 0,
{
    assert(h =~= h.remove(e).insert(e));
}

proof fn lemma_soonest<T: GeoNum>(h: Queue<T>, v: Event<T>, w: Event<T>)
    requires
        soonest(h, v),
        soonest(h, w),
    ensures
        pt(v.point) == pt(w.point),
{
    assert(ev_le(v, w) && ev_le(w, v));
}

proof fn lemma_advance<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>, e: Event<C::Scalar>)
    requires
        inv(m, h, act, lo, None),
        soonest(h, e),
    ensures
        inv(m, h, act, Some(pt(e.point)), None),
{
    assert(due(lo, pt(e.point)));
    assert forall|f: Event<C::Scalar>| #[trigger] h.contains(f) implies due(Some(pt(e.point)), pt(f.point)) by {
        assert(ev_le(e, f));
    }
}

// between two events
spec fn ready<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, lo: Option<Spot>) -> bool {
    inv(m, h, act, lo, None)
}

// between two calls of `next`
spec fn steady<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>) -> bool {
    &&& exists|lo: Option<Spot>| #[trigger] ready(m, h, act, lo)
    &&& started(m, act)
    &&& lively(m, h)
}

spec fn placed<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, c: C) -> bool {
    exists|k: usize| #[trigger] m.contains_key(k) && whole(m[k], c) && h.contains(left_ev(m[k])) && h.contains(right_ev(m[k]))
}

spec fn given<C: Crossable>(s: Segment<C>, all: Seq<C>, n: int) -> bool {
    exists|i: int| 0 <= i < n && whole(s, #[trigger] all[i])
}

spec fn end_given<C: Crossable>(p: SweepPoint<C::Scalar>, all: Seq<C>, n: int) -> bool {
    exists|i: int| 0 <= i < n && at_end(p, inp(#[trigger] all[i]))
}

// the first n inputs have a piece each, announced at both ends, and nothing else is
#[verifier::opaque]
spec fn loaded<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, all: Seq<C>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] placed(m, h, all[i])
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> given(m[k], all, n)
    &&& forall|e: Event<C::Scalar>| #[trigger] h.contains(e) ==> end_given::<C>(e.point, all, n)
}

// a piece that is all of its input
spec fn whole<C: Crossable>(s: Segment<C>, c: C) -> bool {
    s.crossable == c && s.geom == inp(c) && s.first_segment && !s.is_overlapping
}

proof fn lemma_loaded<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, all: Seq<C>, n: int, m2: Pieces<C>, h2: Queue<C::Scalar>, k: usize)
    requires
        0 <= n < all.len(),
        loaded(m, h, all, n),
        created(m, m2, k),
        whole(m2[k], all[n]),
        h2 == h.insert(left_ev(m2[k])).insert(right_ev(m2[k])),
        forall|j: usize| #[trigger] m2.contains_key(j) ==> m.contains_key(j) || j == k,
    ensures
        loaded(m2, h2, all, n + 1),
{
    reveal(loaded);
    assert forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) implies end_given::<C>(e.point, all, n + 1) by {
        if h.contains(e) {
            assert(end_given::<C>(e.point, all, n));
        } else {
            assert(at_end(e.point, inp(all[n])));
        }
    }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] placed(m2, h2, all[i]) by {
        if i < n {
            assert(placed(m, h, all[i]));
            let j = choose|j: usize| #[trigger] m.contains_key(j) && whole(m[j], all[i]) && h.contains(left_ev(m[j])) && h.contains(right_ev(m[j]));
            assert(m2.contains_key(j) && m2[j] == m[j]);
        } else {
            assert(m2.contains_key(k));
        }
    }
    assert forall|j: usize| #[trigger] m2.contains_key(j) implies given(m2[j], all, n + 1) by {
        if m.contains_key(j) {
            assert(given(m[j], all, n));
        } else {
            assert(whole(m2[k], all[n]));
        }
    }
}

proof fn lemma_created_lively<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, m2: Pieces<C>, h2: Queue<C::Scalar>, k: usize)
    requires
        lively(m, h),
        links(m2),
        created(m, m2, k),
        !m2[k].is_overlapping,
        h2 == h.insert(left_ev(m2[k])).insert(right_ev(m2[k])),
    ensures
        lively(m2, h2),
{
    assert forall|j: usize| #[trigger] head(m, j) implies head(m2, j) && m2[j] == m[j] by {
        assert(m.contains_key(j));
    }
    lemma_live(m, h, m2, h2, k);
    assert forall|e: Event<C::Scalar>| #[trigger] h2.contains(e) implies live(m2, h2, pt(e.point)) by {
        if h.contains(e) {
            assert(live(m, h, pt(e.point)));
        } else {
            assert(seg_ok(k, m2[k]));
            if m2[k].geom is Line {
                assert(head(m2, k));
            } else {
                assert(h2.contains(left_ev(m2[k])));
            }
        }
    }
}

proof fn lemma_empty<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, all: Seq<C>)
    requires
        m == Map::<usize, Segment<C>>::empty(),
        h == Multiset::<Event<C::Scalar>>::empty(),
    ensures
        inv(m, h, Set::<usize>::empty(), None, None),
        lively(m, h),
        loaded(m, h, all, 0),
{
    reveal(loaded);
    assert(forall|e: Event<C::Scalar>| !(#[trigger] h.contains(e)));
    assert(forall|k: usize| !(#[trigger] m.contains_key(k)));
    assert(forall|k: usize| !(#[trigger] head(m, k)));
}

proof fn lemma_placed<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, all: Seq<C>, i: int)
    requires
        loaded(m, h, all, all.len() as int),
        lively(m, h),
        0 <= i < all.len(),
    ensures
        live(m, h, pt(fst(inp(all[i])))),
        live(m, h, pt(snd(inp(all[i])))),
{
    reveal(loaded);
    assert(placed(m, h, all[i]));
    let k = choose|k: usize| #[trigger] m.contains_key(k) && whole(m[k], all[i]) && h.contains(left_ev(m[k])) && h.contains(right_ev(m[k]));
    assert(live(m, h, pt(left_ev(m[k]).point)));
    assert(live(m, h, pt(right_ev(m[k]).point)));
}

impl<C: Crossable, A: Access<SegmentType = Segment<C>>> Sweep<C, A> {
//@@ fn new self=Sweep
//@@ sub `new < I : IntoIterator < Item = C > >` => `new < I : Items < C > >`
//@@ sub `iter . into_iter ( )` => `iter`
//@@ sub `active_segments : Default :: default ( )` => `active_segments : A :: none ( )`
//@@ sub `Slab :: with_capacity ( $*n ) . into ( )` => `Slab :: with_capacity ( $*n )`
//@@ sub `for cr in iter { $*b }` => `let mut items = iter ; loop { match items . pull ( ) { Some ( cr ) => { $*b } None => { break ; } } }`
    fn new<I: Items < C >>(iter: I) -> (ret: Self) /*@
        requires
            16 * iter.rest().len() <= usize::MAX,
        ensures
            steady(ret.segments@, ret.events@, ret.active_segments.keys()),
            loaded(ret.segments@, ret.events@, iter.rest(), iter.rest().len() as int),
            ret.active_segments.keys() == Set::<usize>::empty(),
    @*/ {
        /*@ let ghost all = iter.rest();
        let ghost mut n = 0int; @*/
        let iter = iter;
        let (size, _) = iter.size_hint();
        let mut sweep = Sweep {
            segments: Slab::with_capacity(16 * size),
            events: BinaryHeap::with_capacity(size),
            active_segments: A :: none ( ),
        };
        /*@ proof {
            lemma_empty(sweep.segments@, sweep.events@, all);
        } @*/
        let mut items = iter ; loop /*@
            invariant_except_break
                items.rest() =~= all.skip(n),
            invariant
                0 <= n <= all.len(),
                inv(sweep.segments@, sweep.events@, Set::<usize>::empty(), None, None),
                lively(sweep.segments@, sweep.events@),
                loaded(sweep.segments@, sweep.events@, all, n),
                sweep.active_segments.keys() == Set::<usize>::empty(),
            ensures
                n == all.len(),
            decreases all.len() - n,
        @*/ { match items . pull ( ) { Some ( cr ) => { /*@ let ghost (m0, h0) = (sweep.segments@, sweep.events@); @*/
            sweep.create_segment(cr, None, None);
            /*@ proof {
                assert(all.skip(n)[0] == all[n]);
                let k = choose|k: usize| created(m0, sweep.segments@, k) && whole(sweep.segments@[k], all[n])
                    && sweep.events@ == h0.insert(left_ev(sweep.segments@[k])).insert(right_ev(sweep.segments@[k]));
                lemma_created_inv(m0, h0, Set::<usize>::empty(), None, None, sweep.segments@, sweep.events@, k);
                lemma_created_lively(m0, h0, sweep.segments@, sweep.events@, k);
                lemma_loaded(m0, h0, all, n, sweep.segments@, sweep.events@, k);
                n = n + 1;
            } @*/
        } None => { break ; } } }
        /*@ proof {
            assert(ready(sweep.segments@, sweep.events@, sweep.active_segments.keys(), None));
        } @*/
        sweep
    }
//@@ end
//@@ fn create_segment self=Sweep
//@@ sub `for $e in $*s . events ( ) { $*b }` => `let both = $*s . events ( ) ; let $e = both [ 0 ] . dup ( ) ; $*b let $e = both [ 1 ] . dup ( ) ; $*b`
    fn create_segment(
        &mut self,
        crossable: C,
        geom: Option<LineOrPoint<C::Scalar>>,
        parent: Option<usize>,
    ) -> (ret: usize) /*@
        requires
            links(old(self).segments@),
            geom matches Some(g) ==> lop_wf(g) && within(g, inp(crossable)),
            parent matches Some(a) ==> old(self).segments@.contains_key(a) && !old(self).segments@[a].is_overlapping && geom is Some && geom->0 is Line
                && fits(old(self).segments@, a, geom->0),
        ensures
            created(old(self).segments@, final(self).segments@, ret),
            final(self).segments@[ret] == (Segment {
                key: ret,
                crossable,
                geom: match geom {
                    Some(g) => g,
                    None => inp(crossable),
                },
                first_segment: geom is None,
                overlapping: final(self).segments@[ret].overlapping,
                is_overlapping: false,
                left_event_done: false,
            }),
            final(self).events@ == old(self).events@.insert(left_ev(final(self).segments@[ret])).insert(right_ev(final(self).segments@[ret])),
            final(self).active_segments == old(self).active_segments,
            parent is None ==> forall|j: usize| #[trigger] final(self).segments@.contains_key(j) ==> old(self).segments@.contains_key(j) || j == ret,
            parent matches Some(a) ==> copies(old(self).segments@, a, final(self).segments@, ret),
    @*/ {
        /*@ let ghost m0 = self.segments@;
        proof {
            lemma_normal(crossable.seg());
            lemma_ends(inp(crossable));
        } @*/
        let segment = Segment::new(&mut self.segments, crossable, geom);
        let both = segment . events ( ) ; let e = both [ 0 ] . dup ( ) ; self.events.push(e); let e = both [ 1 ] . dup ( ) ; self.events.push(e);
        let segment_key = segment.key();
        if let Some(parent) = parent {
            let segment_geom = segment.geom;
            /*@ let ghost m1 = self.segments@;
            let ghost hd = m1[segment_key];
            proof { lemma_fresh_links(m0, m1, segment_key); } @*/
            let mut child = unsafe { self.segments.get_unchecked(parent) }.overlapping;
            let mut target_key = segment_key;
            /*@ let ghost mut s = seq![parent];
            let ghost mut t = seq![segment_key]; @*/
            while let Some(child_key) = child
            /*@
                invariant
                    links(m0),
                    links(self.segments@),
                    path(m0, s, parent),
                    path(self.segments@, t, segment_key),
                    t.last() == target_key,
                    t.len() == s.len(),
                    forall|i: int| 0 < i < s.len() ==> self.segments@[#[trigger] t[i]].crossable == m0[s[i]].crossable,
                    !m0[parent].is_overlapping,
                    child == m0[s.last()].overlapping,
                    fits(m0, parent, segment_geom),
                    segment_geom is Line,
                    lop_wf(segment_geom),
                    geom == Some(segment_geom),
                    created(m0, self.segments@, segment_key),
                    self.segments@[segment_key] == (Segment { overlapping: self.segments@[segment_key].overlapping, ..hd }),
                    hd.geom == segment_geom,
                    self.segments@.contains_key(target_key),
                    !m0.contains_key(target_key),
                    target_key == segment_key || self.segments@[target_key].is_overlapping,
                    self.segments@[target_key].overlapping is None,
                    self.segments@[target_key].geom == segment_geom,
                    self.events@ == old(self).events@.insert(left_ev(hd)).insert(right_ev(hd)),
                    self.active_segments == old(self).active_segments,
                    !hd.is_overlapping,
                ensures
                    m0[s.last()].overlapping is None,
                decreases m0.dom().len() - s.len(),
            @*/
            {
                /*@ let ghost mb = self.segments@;
                proof {
                    assert(link_ok(m0, s.last()));
                    lemma_path_push(m0, s, parent, child_key);
                    s = s.push(child_key);
                    lemma_path(m0, s, parent);
                    assert(within(segment_geom, inp(m0[child_key].crossable)));
                } @*/
                let child_overlapping =
                    unsafe { self.segments.get_unchecked(child_key) }.overlapping;
                let child_crossable = unsafe { self.segments.get_unchecked(child_key) }
                    .crossable()
                    . dup ( );
                let new_key =
                    Segment::new(&mut self.segments, child_crossable, Some(segment_geom)).key();
                unsafe { self.segments.get_unchecked_mut(target_key) }.overlapping = Some(new_key);
                unsafe { self.segments.get_unchecked_mut(new_key) }.is_overlapping = true;
                /*@ proof {
                    let ma = self.segments@;
                    assert forall|k: usize| #[trigger] ma.contains_key(k) implies seg_ok(k, ma[k]) by {
                        if k != new_key {
                            assert(mb.contains_key(k));
                        }
                    }
                    assert forall|k: usize| #[trigger] ma.contains_key(k) implies link_ok(ma, k) by {
                        if k != new_key {
                            assert(mb.contains_key(k) && link_ok(mb, k));
                        }
                    }
                    assert forall|j: usize, k: usize| #[trigger]
                        ma.contains_key(j) && #[trigger] ma.contains_key(k) && ma[j].overlapping is Some && ma[j].overlapping == ma[k].overlapping implies j == k by {
                        assert(j != new_key && k != new_key);
                        assert(mb.contains_key(j) && mb.contains_key(k));
                        assert(link_ok(mb, j) && link_ok(mb, k));
                    }
                    lemma_path(mb, t, segment_key);
                    let t0 = t;
                    assert forall|i: int| 0 <= i < t0.len() - 1 implies #[trigger] follows(ma, t0, i) by {
                        assert(follows(mb, t0, i));
                        assert(mb.contains_key(t0[i]));
                        assert(t0[i] != t0[t0.len() - 1]);
                    }
                    assert(forall|i: int| 0 <= i < t0.len() ==> mb.contains_key(#[trigger] t0[i]));
                    assert(path(ma, t0, segment_key));
                    lemma_path_push(ma, t0, segment_key, new_key);
                    t = t0.push(new_key);
                    assert forall|i: int| 0 < i < s.len() implies ma[#[trigger] t[i]].crossable == m0[s[i]].crossable by {
                        if i < t0.len() {
                            assert(t[i] == t0[i]);
                            assert(mb.contains_key(t0[i]));
                        }
                    }
                } @*/
                target_key = new_key;
                child = child_overlapping;
            }
            /*@ proof {
                assert(chain(m0, s, parent) && chain(self.segments@, t, segment_key));
            } @*/
        }
        /*@ proof { if parent is None { lemma_fresh_links(m0, self.segments@, segment_key); } } @*/
        segment_key
    }
//@@ end
//@@ fn adjust_for_intersection self=Sweep
    fn adjust_for_intersection(
        &mut self,
        key: usize,
        adj_intersection: LineOrPoint<C::Scalar>,
    ) -> (ret: SplitSegments<C::Scalar>) /*@
        requires
            links(old(self).segments@),
            head(old(self).segments@, key),
            lop_wf(adj_intersection),
            within(adj_intersection, old(self).segments@[key].geom),
        ensures
            links(final(self).segments@),
            split_ok(old(self).segments@[key].geom, adj_intersection, final(self).segments@[key].geom, ret),
            cut(old(self).segments@, final(self).segments@, key),
            final(self).events@ == if ret is Unchanged { old(self).events@ } else { old(self).events@.insert(right_ev(final(self).segments@[key])) },
            final(self).active_segments == old(self).active_segments,
    @*/ {
        /*@ let ghost m0 = self.segments@;
        let ghost g0 = m0[key].geom;
        proof {
            lemma_part_order(adj_intersection, g0);
        } @*/
        let segment = unsafe { self.segments.get_unchecked_mut(key) };
        let adjust_output = segment.adjust_for_intersection(adj_intersection);
        let new_geom = segment.geom;
        /*@ proof { lemma_pieces(g0, adj_intersection, new_geom, adjust_output); } @*/
        if (match adjust_output { SplitOnce { .. } | SplitTwice { .. } => true, _ => false }) {
            self.events.push(segment.right_event());
        }
        let mut child = segment.overlapping;
        /*@ let ghost mut s = seq![key];
        let ghost m1 = self.segments@; @*/
        while let Some(child_key) = child
        /*@
            invariant
                links(m0),
                head(m0, key),
                path(m0, s, key),
                child == m0[s.last()].overlapping,
                self.segments@.dom() == m0.dom(),
                self.segments@[key] == m1[key],
                m1[key] == (Segment { geom: new_geom, first_segment: m1[key].first_segment, ..m0[key] }),
                forall|k: usize| #[trigger]
                    m0.contains_key(k) && k != key ==> self.segments@[k] == if s.contains(k) { Segment { geom: new_geom, ..m0[k] } } else { m0[k] },
                self.events@ == if adjust_output is Unchanged { old(self).events@ } else { old(self).events@.insert(right_ev(m1[key])) },
                self.active_segments == old(self).active_segments,
            ensures
                m0[s.last()].overlapping is None,
            decreases m0.dom().len() - s.len(),
        @*/
        {
            /*@ let ghost s0 = s;
            proof {
                assert(link_ok(m0, s.last()));
                lemma_path_push(m0, s, key, child_key);
                s = s.push(child_key);
                lemma_path(m0, s, key);
                assert(s.last() == child_key);
                assert(s[s.len() - 1] == child_key);
                assert forall|k: usize| s.contains(k) <==> s0.contains(k) || k == child_key by {
                    if s0.contains(k) {
                        let i = choose|i: int| 0 <= i < s0.len() && s0[i] == k;
                        assert(s[i] == k);
                    }
                }
                assert(child_key != key) by {
                    assert(s[0] == key && s[s.len() - 1] == child_key);
                }
            } @*/
            let child_seg = unsafe { self.segments.get_unchecked_mut(child_key) };
            child_seg.geom = new_geom;
            child = child_seg.overlapping;
        }
        /*@ proof {
            lemma_cut_links(m0, self.segments@, s, key, new_geom);
        } @*/
        adjust_output
    }
//@@ end
//@@ fn adjust_one_segment self=Sweep
//@@ sub `& mut unsafe { $*x }` => `unsafe { $*x }`
//@@ sub `$a . then ( || $*k )` => `if $a { Some ( $*k ) } else { None }`
    fn adjust_one_segment(
        &mut self,
        key: usize,
        adj_intersection: LineOrPoint<C::Scalar>,
    ) -> (ret: Option<usize>) /*@
        requires
            head(old(self).segments@, key),
            links(old(self).segments@),
            lop_wf(adj_intersection),
            within(adj_intersection, old(self).segments@[key].geom),
        ensures
            final(self).active_segments == old(self).active_segments,
            links(final(self).segments@),
            adjusted(old(self).segments@, old(self).events@, final(self).segments@, final(self).events@, key, adj_intersection, ret),
            passes(old(self).segments@, old(self).events@, final(self).segments@, final(self).events@, None),
            kept(old(self).segments@, final(self).segments@),
            goes_on(old(self).segments@, final(self).segments@, key),
            forall|lo: Option<Spot>, ex: Option<usize>| #[trigger]
                inv(old(self).segments@, old(self).events@, old(self).active_segments.keys(), lo, ex) && (due(lo, pt(fst(adj_intersection)))
                    || adj_intersection is Point && at_end(fst(adj_intersection), old(self).segments@[key].geom)) ==> inv(
                    final(self).segments@,
                    final(self).events@,
                    final(self).active_segments.keys(),
                    lo,
                    ex,
                ),
    @*/ {
        /*@ let ghost m0 = self.segments@;
        let ghost h0 = self.events@;
        let ghost act = self.active_segments.keys();
        let ghost g0 = m0[key].geom;
        proof {
            lemma_part_order(adj_intersection, g0);
            lemma_ends(g0);
        } @*/
        let adj_segment = unsafe { self.segments.get_unchecked(key) };
        let adj_cross = adj_segment.crossable(). dup ( );
        match self.adjust_for_intersection(key, adj_intersection) {
            Unchanged { overlap } => /*@ {
                proof {
                    assert(head(self.segments@, key));
                    lemma_pieces(g0, adj_intersection, self.segments@[key].geom, Unchanged { overlap });
                    assert forall|lo: Option<Spot>, ex: Option<usize>| #[trigger] inv(m0, h0, act, lo, ex) implies inv(self.segments@, self.events@, act, lo, ex) by {
                        lemma_cut_inv(m0, h0, act, lo, ex, self.segments@, self.events@, key);
                    }
                    lemma_cut_heads(m0, self.segments@, key);
                    lemma_live(m0, h0, self.segments@, self.events@, key);
                } @*/ if overlap { Some ( key ) } else { None } /*@ } @*/,
            SplitOnce { overlap, right } => {
                /*@ let ghost m1 = self.segments@;
                let ghost h1 = self.events@;
                proof {
                    lemma_pieces(g0, adj_intersection, m1[key].geom, SplitOnce { overlap, right });
                    lemma_cut_heads(m0, m1, key);
                    lemma_fits(m0, m1, key, right);
                    lemma_within(right, g0, inp(m0[key].crossable));
                    lemma_within(adj_intersection, g0, inp(m0[key].crossable));
                } @*/
                let new_key = self.create_segment(adj_cross, Some(right), Some(key));
                /*@ proof {
                    let m2 = self.segments@;
                    assert(head(m2, new_key));
                    lemma_live(m0, h0, m2, self.events@, key);
                    assert(live(m2, self.events@, pt(snd(right))));
                    assert(live(m2, self.events@, pt(fst(right))));
                    assert(live(m2, self.events@, pt(snd(m2[key].geom))));
                    assert(kept(m0, m1));
                    lemma_copies(m0, key, m1, m2, new_key, m2);
                    assert(span(m0, m2, key, new_key, pt(snd(m2[key].geom)), pt(snd(g0))));
                    assert forall|lo: Option<Spot>, ex: Option<usize>| #[trigger]
                        inv(m0, h0, act, lo, ex) && due(lo, pt(fst(adj_intersection))) implies inv(m2, self.events@, act, lo, ex) by {
                        lemma_cut_inv(m0, h0, act, lo, ex, m1, h1, key);
                        lemma_created_inv(m1, h1, act, lo, ex, m2, self.events@, new_key);
                    }
                } @*/
                match overlap {
                    Some(false) => Some(key),
                    Some(true) => Some(new_key),
                    None => None,
                }
            }
            SplitTwice { right } => {
                /*@ let ghost m1 = self.segments@;
                let ghost h1 = self.events@;
                proof {
                    lemma_pieces(g0, adj_intersection, m1[key].geom, SplitTwice { right });
                    lemma_cut_heads(m0, m1, key);
                    lemma_fits(m0, m1, key, right);
                    lemma_within(right, g0, inp(m0[key].crossable));
                    lemma_within(adj_intersection, g0, inp(m0[key].crossable));
                } @*/
                self.create_segment(adj_cross. dup ( ), Some(right), Some(key));
                /*@ let ghost m2 = self.segments@;
                let ghost h2 = self.events@;
                proof {
                    lemma_fits(m0, m2, key, adj_intersection);
                } @*/
                let middle_key = self.create_segment(adj_cross, Some(adj_intersection), Some(key));
                /*@ proof {
                    let m3 = self.segments@;
                    let r2 = choose|k: usize| created(m1, m2, k) && !m2[k].is_overlapping && m2[k].crossable == adj_cross && !m2[k].first_segment && copies(m1, key, m2, k) && h2 == h1.insert(left_ev(m2[k])).insert(right_ev(m2[k])) && m2[k].geom == right;
                    assert(head(m2, r2));
                    assert(head(m3, middle_key));
                    lemma_live(m0, h0, m3, self.events@, key);
                    assert(head(m3, r2) && m3[r2] == m2[r2]);
                    assert(live(m3, self.events@, pt(snd(right))));
                    assert(live(m3, self.events@, pt(fst(right))));
                    assert(live(m3, self.events@, pt(snd(m3[key].geom))));
                    assert(live(m3, self.events@, pt(fst(m3[middle_key].geom))));
                    assert(live(m3, self.events@, pt(snd(m3[middle_key].geom))));
                    assert(kept(m0, m1));
                    assert(kept(m0, m2));
                    lemma_copies(m0, key, m1, m2, r2, m3);
                    lemma_copies(m0, key, m2, m3, middle_key, m3);
                    assert(span(m0, m3, key, middle_key, pt(snd(m3[key].geom)), pt(snd(adj_intersection))));
                    assert(span(m0, m3, key, r2, pt(snd(adj_intersection)), pt(snd(g0))));
                    assert forall|lo: Option<Spot>, ex: Option<usize>| #[trigger]
                        inv(m0, h0, act, lo, ex) && due(lo, pt(fst(adj_intersection))) implies inv(m3, self.events@, act, lo, ex) by {
                        lemma_cut_inv(m0, h0, act, lo, ex, m1, h1, key);
                        lemma_created_inv(m1, h1, act, lo, ex, m2, h2, r2);
                        lemma_created_inv(m2, h2, act, lo, ex, m3, self.events@, middle_key);
                    }
                } @*/
                Some(middle_key)
            }
        }
    }
//@@ end
//@@ fn segment_for_event self=Sweep
    fn segment_for_event(&self, event: &Event<C::Scalar>) -> (ret: Option<&Segment<C>>) /*@
        requires
            event.ty != LineRight ==> pending(self.segments@, *event),
        ensures
            ret is Some <==> event.ty != LineRight || current(self.segments@, *event),
            ret matches Some(s) ==> self.segments@.contains_key(event.segment_key) && *s == self.segments@[event.segment_key],
    @*/ {
        Some({
            let maybe_segment = self.segments.get(event.segment_key);
            if let LineRight = event.ty {
                match maybe_segment {
                    Some(segment) if !segment.is_overlapping => match segment.geom {
                        Line(_, q) if q == event.point => segment,
                        _ => return None,
                    },
                    _ => return None,
                }
            } else {
                let segment = maybe_segment.expect("segment for event not found in storage");
                match event.ty {
                    LineLeft => match segment.geom {
                        Line(p, _) => rt_assert(p == event.point),
                        _ => rt_panic(),
                    },
                    PointLeft | PointRight => match segment.geom {
                        Point(p) => rt_assert(p == event.point),
                        _ => rt_panic(),
                    },
                    _ => rt_panic(),
                }
                segment
            }
        })
    }
//@@ end
//@@ fn chain_overlap self=Sweep
//@@ sub `let mut $s = unsafe { self . segments . get_unchecked_mut ( $a ) } ; while let Some ( $o ) = $s . overlapping { $s = unsafe { self . segments . get_unchecked_mut ( $o ) } ; } $s . overlapping = $*v ;` => `let mut at_s = $a ; while let Some ( $o ) = unsafe { self . segments . get_unchecked ( at_s ) } . overlapping { at_s = $o ; } unsafe { self . segments . get_unchecked_mut ( at_s ) } . overlapping = $*v ;`
    fn chain_overlap(&mut self, src_key: usize, tgt_key: usize) /*@
        requires
            links(old(self).segments@),
            head(old(self).segments@, src_key),
            head(old(self).segments@, tgt_key),
            src_key != tgt_key,
            same(old(self).segments@[src_key].geom, old(self).segments@[tgt_key].geom),
        ensures
            links(final(self).segments@),
            chained(old(self).segments@, final(self).segments@, src_key, tgt_key),
            final(self).events == old(self).events,
            final(self).active_segments == old(self).active_segments,
    @*/ {
        /*@ let ghost m0 = self.segments@;
        let ghost mut s = seq![src_key]; @*/
        let mut at_s = src_key ; while let Some ( ovlp_key ) = unsafe { self . segments . get_unchecked ( at_s ) } . overlapping
        /*@
            invariant
                links(m0),
                head(m0, src_key),
                self.segments@ == m0,
                self.events == old(self).events,
                self.active_segments == old(self).active_segments,
                path(m0, s, src_key),
                s.last() == at_s,
            ensures
                m0[at_s].overlapping is None,
            decreases m0.dom().len() - s.len(),
        @*/
        { /*@ proof {
            assert(link_ok(m0, at_s));
            lemma_path_push(m0, s, src_key, ovlp_key);
            s = s.push(ovlp_key);
            lemma_path(m0, s, src_key);
        } @*/ at_s = ovlp_key ; }
        unsafe { self . segments . get_unchecked_mut ( at_s ) } . overlapping = Some(tgt_key) ;
        unsafe { self.segments.get_unchecked_mut(tgt_key) }.is_overlapping = true;
        /*@ proof {
            lemma_path(m0, s, src_key);
            assert(at_s != tgt_key) by {
                if s.len() > 1 {
                    assert(m0[s[s.len() - 1]].is_overlapping);
                }
            }
            assert(self.segments@ =~= m0.insert(at_s, Segment { overlapping: Some(tgt_key), ..m0[at_s] }).insert(
                tgt_key,
                Segment { is_overlapping: true, ..m0[tgt_key] },
            ));
            lemma_chained(m0, self.segments@, src_key, tgt_key, s);
        } @*/
    }
//@@ end
//@@ fn handle_event self=Sweep
//@@ sub `handle_event < F >` => `handle_event`
//@@ sub `cb : & mut F` => `cb : & mut Vec < ( Segment < C > , EventType ) >`
//@@ sub `where F : for < 'a > FnMut ( & 'a Segment < C > , EventType ) ,` => ``
//@@ sub `cb ( $*s , $*t )` => `cb . push ( ( ( $*s ) . dup ( ) , $*t ) )`
//@@ sub `for $k in $p . into_iter ( ) . chain ( $n . into_iter ( ) ) { $*b }` => `let mut turn : usize = 0 ; while turn < 2 { let step = if turn == 0 { $p } else { $n } ; turn = turn + 1 ; if let Some ( $k ) = step { $*b } }`
    fn handle_event(&mut self, event: Event<C::Scalar>, cb : & mut Vec < ( Segment < C > , EventType ) >) -> (ret: bool) /*@
        requires
            exists|ex: Option<usize>| #[trigger]
                inv(old(self).segments@, old(self).events@.insert(event), old(self).active_segments.keys(), Some(pt(event.point)), ex) && (ex is Some ==> event.ty
                    == LineRight),
            forall|f: Event<C::Scalar>| #[trigger] old(self).events@.contains(f) ==> ev_le(event, f),
            recs(old(cb)@, pt(event.point)),
            started(old(self).segments@, old(self).active_segments.keys()),
        ensures
            started(final(self).segments@, final(self).active_segments.keys()),
            passes(old(self).segments@, old(self).events@.insert(event), final(self).segments@, final(self).events@, Some(pt(event.point))),
            live(old(self).segments@, old(self).events@.insert(event), pt(event.point)) ==> final(cb)@.len() > 0 || live(
                final(self).segments@,
                final(self).events@,
                pt(event.point),
            ),
            forall|ex: Option<usize>| #[trigger]
                inv(old(self).segments@, old(self).events@.insert(event), old(self).active_segments.keys(), Some(pt(event.point)), ex) && (ex is Some ==> event.ty
                    == LineRight) ==> inv(final(self).segments@, final(self).events@, final(self).active_segments.keys(), Some(pt(event.point)), ex),
            recs(final(cb)@, pt(event.point)),
            event.ty == LineRight ==> {
                &&& ret == current(old(self).segments@, event)
                &&& forall|f: Event<C::Scalar>| #[trigger]
                    final(self).events@.contains(f) ==> old(self).events@.contains(f) || lex(event.point, f.point) == Ordering::Less
                &&& final(self).active_segments.keys() == if ret {
                    old(self).active_segments.keys().remove(event.segment_key)
                } else {
                    old(self).active_segments.keys()
                }
                &&& forall|j: usize| #[trigger]
                    head(old(self).segments@, j) && !old(self).active_segments.keys().contains(j) ==> head(final(self).segments@, j) && final(self).segments@[j]
                        == old(self).segments@[j]
            },
        decreases (if event.ty == LineLeft { 1int } else { 0int }),
    @*/ {
        /*@ let ghost (m0, h0, act0, k, p) = (self.segments@, self.events@, self.active_segments.keys(), event.segment_key, pt(event.point));
        let ghost ex0 = choose|ex: Option<usize>| #[trigger] inv(m0, h0.insert(event), act0, Some(p), ex) && (ex is Some ==> event.ty == LineRight);
        proof {
            assert(h0.insert(event).contains(event));
            assert(ev_ok(m0, h0.insert(event), act0, ex0, event));
            lemma_popped(m0, h0, event);
            if event.ty != LineLeft && (event.ty == LineRight ==> !current(m0, event)) {
                assert forall|ex: Option<usize>| #[trigger] inv(m0, h0.insert(event), act0, Some(p), ex) implies inv(m0, h0, act0, Some(p), ex) by {
                    lemma_outdated_inv(m0, h0, act0, Some(p), ex, event);
                }
            }
            if event.ty == LineLeft {
                lemma_start_inv(m0, h0, act0, event);
            }
            if event.ty == LineRight && current(m0, event) {
                lemma_ending(m0, h0, act0, ex0, event);
            }
        } @*/
        let mut segment = match self.segment_for_event(&event) {
            Some(s) => s,
            None => return false,
        }
        . dup ( );
        let prev = self.active_segments.prev_key(segment.key(), &self.segments);
        let next = self.active_segments.next_key(segment.key(), &self.segments);
        match &event.ty {
            LineLeft => {
                let mut should_add = true;
                /*@ let ghost mut a = k;
                let ghost mut s = seq![k];
                proof {
                    assert(forall|f: Event<C::Scalar>| #[trigger] h0.contains(f) ==> ev_le(event, f));
                } @*/
                let mut turn : usize = 0 ; while turn < 2
                /*@
                    invariant_except_break
                        should_add,
                        inv(self.segments@, self.events@, self.active_segments.keys(), Some(p), Some(k)),
                        segment == self.segments@[k],
                        forall|f: Event<C::Scalar>| #[trigger] self.events@.contains(f) ==> ev_le(event, f),
                        turn == 0 && prev is Some ==> self.active_segments.keys().contains(prev->0),
                        turn <= 1 && next is Some ==> self.active_segments.keys().contains(next->0),
                        a == k && s == seq![k],
                    invariant
                        turn <= 2,
                        event.ty == LineLeft,
                        event.segment_key == k,
                        pt(event.point) == p,
                        recs(cb@, p),
                        prev is Some && next is Some ==> prev != next,
                        m0 == old(self).segments@ && h0 == old(self).events@,
                        inv(m0, h0.insert(event), act0, Some(p), None),
                        started(self.segments@, self.active_segments.keys()),
                        passes(m0, h0.insert(event), self.segments@, self.events@, Some(p)),
                    ensures
                        should_add ==> inv(self.segments@, self.events@, self.active_segments.keys(), Some(p), Some(k)),
                        !should_add ==> inv(self.segments@, self.events@, self.active_segments.keys(), Some(p), None),
                        path(self.segments@, s, a),
                        s.last() == k,
                        !self.segments@[a].is_overlapping,
                        self.segments@[k].geom is Line,
                        pt(fst(self.segments@[k].geom)) == p,
                    decreases 2 - turn,
                @*/
                { let step = if turn == 0 { prev } else { next } ; turn = turn + 1 ; if let Some ( adj_key ) = step {
                    /*@ let ghost (m1, h1, act1) = (self.segments@, self.events@, self.active_segments.keys());
                    proof {
                        assert(act1.contains(adj_key));
                        assert(head(m1, adj_key) && head(m1, k));
                        assert(seg_ok(adj_key, m1[adj_key]) && seg_ok(k, m1[k]));
                        assert(h1.contains(right_ev(m1[adj_key])));
                        assert(ev_le(event, right_ev(m1[adj_key])));
                        lemma_rank(LineLeft, LineRight);
                        assert(lexr(p, pt(snd(m1[adj_key].geom))) == Ordering::Less);
                    } @*/
                    let adj_segment = self
                        .segments
                        .get_mut(adj_key)
                        .expect("active segment not found in storage");
                    /*@ let ghost ag = m1[adj_key].geom; @*/
                    if let Some(adj_intersection) =
                        segment.geom.intersect_line_ordered(&adj_segment.geom)
                    {
                        /*@ let ghost r = adj_intersection;
                        proof {
                            assert(self.segments@ =~= m1);
                            assume(exact(segment.geom, ag, Some(r)));
                            lemma_common(segment.geom, ag, r);
                            if r is Line {
                                lemma_start(segment.geom, ag, r);
                            }
                        } @*/
                        let adj_overlap_key = self.adjust_one_segment(adj_key, adj_intersection);
                        /*@ let ghost (m2, h2) = (self.segments@, self.events@);
                        proof {
                            assert(inv(m1, h1, act1, Some(p), Some(k)));
                            assert(inv(m2, h2, act1, Some(p), Some(k)));
                            assert(m2[k] == m1[k]);
                            lemma_passes(m0, h0.insert(event), m1, h1, m2, h2, Some(p), None, Some(p));
                            lemma_started(m1, m2, act1, adj_key);
                        } @*/
                        let handle_end_event = {
                            let int_pt = adj_intersection.first();
                            int_pt != unsafe { self.segments.get_unchecked(adj_key) }.geom.first()
                                && int_pt == segment.geom.first()
                        };
                        if handle_end_event {
                            /*@ let ghost e0 = event;
                            proof {
                                assert(h2.contains(right_ev(m2[adj_key])));
                            } @*/
                            let event = self.events.pop().unwrap();
                            /*@ proof {
                                assert forall|w: Event<C::Scalar>| #[trigger] h2.contains(w) implies rev(ev_cmp(w, event)) != Ordering::Greater by {
                                    assert(vstd::std_specs::cmp::OrdSpec::cmp_spec(&w, &event) != Ordering::Greater);
                                }
                                lemma_special(m1, h1, m2, h2, adj_key, r, adj_overlap_key, e0, event);
                                assert(current(m2, event)) by {
                                    assert(seg_ok(adj_key, m2[adj_key]));
                                }
                                assert(pt(event.point) == p);
                                assert(self.events@.insert(event) == h2);
                                assert(inv(self.segments@, self.events@.insert(event), self.active_segments.keys(), Some(pt(event.point)), Some(k)));
                            } @*/
                            let done = self.handle_event(event, cb);
                            rt_assert(done)
                            /*@ ;
                            proof {
                                assert(inv(self.segments@, self.events@, self.active_segments.keys(), Some(p), Some(k)));
                                assert(head(self.segments@, k) && self.segments@[k] == m2[k]);
                                lemma_passes(m0, h0.insert(e0), m2, h2, self.segments@, self.events@, Some(p), Some(p), Some(p));
                            } @*/
                        }
                        /*@ else {
                            proof {
                                lemma_later(m1, h1, m2, h2, adj_key, r, adj_overlap_key, event);
                            }
                        }
                        let ghost (m3, h3, act3) = (self.segments@, self.events@, self.active_segments.keys());
                        proof {
                            assert(inv(m3, h3, act3, Some(p), Some(k)));
                            assert(forall|f: Event<C::Scalar>| #[trigger] h3.contains(f) ==> ev_le(event, f));
                            if adj_overlap_key is Some {
                                let j = adj_overlap_key->0;
                                assert(head(m3, j) && m3[j] == m2[j]);
                                assert(j != k);
                            }
                        } @*/
                        let seg_overlap_key =
                            self.adjust_one_segment(event.segment_key, adj_intersection);
                        /*@ let ghost (m4, h4) = (self.segments@, self.events@);
                        proof {
                            assert(inv(m4, h4, act3, Some(p), Some(k)));
                            assert(seg_ok(k, m4[k]));
                            lemma_later(m3, h3, m4, h4, k, r, seg_overlap_key, event);
                            lemma_passes(m0, h0.insert(event), m3, h3, m4, h4, Some(p), None, Some(p));
                            lemma_started(m3, m4, act3, k);
                        } @*/
                        segment = unsafe { self.segments.get_unchecked(event.segment_key) }. dup ( );
                        rt_assert(
                            adj_overlap_key.is_some() ==
                            seg_overlap_key.is_some());
                        if let Some(adj_ovl_key) = adj_overlap_key {
                            let tgt_key = seg_overlap_key.unwrap();
                            /*@ proof {
                                assert(head(m4, adj_ovl_key) && m4[adj_ovl_key] == m3[adj_ovl_key]);
                                assert(tgt_key == k);
                            } @*/
                            self.chain_overlap(adj_ovl_key, tgt_key);
                            /*@ proof {
                                lemma_chained_inv(m4, h4, act3, Some(p), self.segments@, adj_ovl_key, tgt_key);
                                assert(m4.contains_key(adj_ovl_key));
                                lemma_chained_passes(m4, h4, act3, Some(p), self.segments@, adj_ovl_key, tgt_key);
                                lemma_passes(m0, h0.insert(event), m4, h4, self.segments@, h4, Some(p), Some(p), Some(p));
                                if !self.segments@[adj_ovl_key].left_event_done {
                                    assert(head(self.segments@, adj_ovl_key));
                                    assert(live(self.segments@, h4, p));
                                }
                            } @*/
                            if tgt_key == event.segment_key {
                                if unsafe { self.segments.get_unchecked(adj_ovl_key) }
                                    .left_event_done
                                {
                                    should_add = false;
                                    /*@ proof {
                                        a = adj_ovl_key;
                                        s = choose|t: Seq<usize>| #[trigger] path(self.segments@, t, adj_ovl_key) && t.last() == tgt_key;
                                    } @*/
                                    break;
                                }
                                return true;
                            }
                        }
                    } /*@ else {
                        proof {
                            assert(self.segments@ =~= m1);
                        }
                    } @*/ } }
                /*@ let ghost act4 = self.active_segments.keys(); @*/
                if should_add {
                    unsafe {
                        self.active_segments
                            .add_key(event.segment_key, &self.segments);
                    }
                }
                /*@ let ghost (m5, h5, act5) = (self.segments@, self.events@, self.active_segments.keys());
                let ghost g = m5[k].geom;
                let ghost n = cb@.len();
                proof {
                    if should_add {
                        lemma_added_inv(m5, h5, act4, Some(p), k);
                    }
                    assert(inv(m5, h5, act5, Some(p), None));
                    lemma_path(m5, s, a);
                } @*/
                let mut segment_key = Some(event.segment_key);
                while let Some(key) = segment_key
                /*@
                    invariant
                        links(m5),
                        event.ty == LineLeft,
                        path(m5, s, a),
                        !m5[a].is_overlapping,
                        s.len() <= m5.dom().len(),
                        segment_key matches Some(c) ==> s.last() == c && same(m5[c].geom, g),
                        g is Line && pt(fst(g)) == p,
                        flagged(m5, self.segments@),
                        forall|j: usize| #[trigger] m5.contains_key(j) && m5[j].left_event_done ==> self.segments@[j].left_event_done,
                        segment_key == Some(k) || self.segments@[k].left_event_done,
                        m5.contains_key(k),
                        self.events@ == h5,
                        self.active_segments.keys() == act5,
                        telling(cb@, p, n as int, LineLeft, segment_key, g),
                        segment_key is None ==> cb@.len() > n,
                    ensures
                        segment_key is None,
                    decreases m5.dom().len() - s.len() + (if segment_key is Some { 1int } else { 0int }),
                @*/
                {
                    /*@ proof {
                        assert(m5.contains_key(key) && seg_ok(key, m5[key]) && link_ok(m5, key));
                    } @*/
                    let segment = &unsafe { self.segments.get_unchecked(key) };
                    /*@ let ghost sg = **segment;
                    proof {
                        lemma_tell(cb@, p, n as int, sg, LineLeft, g);
                    } @*/
                    cb . push ( ( ( segment ) . dup ( ) , event.ty ) );
                    segment_key = segment.overlapping;
                    /*@ proof {
                        if segment_key is Some {
                            lemma_path_push(m5, s, a, segment_key->0);
                            s = s.push(segment_key->0);
                            lemma_path(m5, s, a);
                        }
                    } @*/
                    /*@ let ghost mb = self.segments@; @*/
                    unsafe { self.segments.get_unchecked_mut(key) }.left_event_done = true;
                    /*@ proof {
                        assert(self.segments@.dom() =~= m5.dom());
                        assert forall|j: usize| #[trigger] m5.contains_key(j) implies self.segments@[j] == (Segment {
                            left_event_done: self.segments@[j].left_event_done,
                            ..m5[j]
                        }) by {
                            assert(mb[j] == (Segment { left_event_done: mb[j].left_event_done, ..m5[j] }));
                        }
                    } @*/
                }
                /*@ proof {
                    lemma_flag_inv(m5, h5, act5, Some(p), None, self.segments@);
                    assert forall|j: usize| #[trigger] act5.contains(j) implies self.segments@[j].left_event_done by {
                        assert(head(m5, j));
                        assert(j != k ==> act4.contains(j));
                    }
                    assert forall|j: usize| #[trigger] head(m5, j) implies head(self.segments@, j) && self.segments@[j].geom == m5[j].geom by {
                        assert(m5.contains_key(j));
                    }
                    lemma_live(m5, h5, self.segments@, h5, k);
                    lemma_passes(m0, h0.insert(event), m5, h5, self.segments@, h5, Some(p), None, Some(p));
                } @*/
            }
            LineRight => {
                self.active_segments
                    .remove_key(event.segment_key, &self.segments);
                let mut segment_key = Some(event.segment_key);
                /*@ let ghost n = cb@.len();
                let ghost g = m0[k].geom;
                let ghost act1 = act0.remove(k);
                let ghost mut s = Seq::<usize>::empty(); @*/
                while let Some(key) = segment_key
                /*@
                    invariant
                        links(m0),
                        head(m0, k),
                        event.ty == LineRight,
                        s.len() > 0 ==> path(m0, s, k) && segment_key == m0[s.last()].overlapping,
                        s.len() == 0 ==> segment_key == Some(k),
                        segment_key matches Some(c) ==> m0.contains_key(c) && same(m0[c].geom, g),
                        g is Line && pt(snd(g)) == p,
                        dropped(m0, self.segments@, s),
                        self.events@ == h0,
                        self.active_segments.keys() == act1,
                        telling(cb@, p, n as int, LineRight, segment_key, g),
                        segment_key is None ==> cb@.len() > n,
                    ensures
                        segment_key is None,
                    decreases m0.dom().len() - s.len(),
                @*/
                {
                    /*@ let ghost s0 = s;
                    let ghost mb = self.segments@;
                    proof {
                        assert(m0.contains_key(key) && seg_ok(key, m0[key]) && link_ok(m0, key));
                        if s.len() > 0 {
                            lemma_path_push(m0, s, k, key);
                        }
                        s = s.push(key);
                        assert(path(m0, s, k));
                        lemma_path(m0, s, k);
                        assert(!s0.contains(key)) by {
                            if s0.contains(key) {
                                let i = choose|i: int| 0 <= i < s0.len() && s0[i] == key;
                                assert(s[i] == key && s[s.len() - 1] == key);
                            }
                        }
                        assert(mb.contains_key(key));
                    } @*/
                    let segment = &unsafe { self.segments.get_unchecked(key) };
                    /*@ let ghost sg = **segment;
                    proof {
                        lemma_tell(cb@, p, n as int, sg, LineRight, g);
                    } @*/
                    cb . push ( ( ( segment ) . dup ( ) , event.ty ) );
                    segment_key = segment.overlapping;
                    self.segments.remove(key);
                    /*@ proof {
                        assert forall|j: usize| s.contains(j) <==> s0.contains(j) || j == key by {
                            if s0.contains(j) {
                                let i = choose|i: int| 0 <= i < s0.len() && s0[i] == j;
                                assert(s[i] == j);
                            }
                            assert(s[s.len() - 1] == key);
                        }
                    } @*/
                }
                /*@ let ghost m1 = self.segments@;
                proof {
                    assert forall|ex: Option<usize>| #[trigger] inv(m0, h0.insert(event), act0, Some(p), ex) implies inv(m1, h0, act1, Some(p), ex) by {
                        lemma_dropped_inv(m0, h0, act0, ex, event, m1, s);
                    }
                    assert(inv(m1, h0, act1, Some(p), ex0));
                    lemma_dropped_inv(m0, h0, act0, ex0, event, m1, s);
                    lemma_dropped_passes(m0, h0, act0, ex0, event, m1);
                    assert forall|j: usize| #[trigger] act1.contains(j) implies m1[j].left_event_done by {
                        assert(act0.contains(j) && head(m0, j));
                    }
                } @*/
                if let (Some(prev_key), Some(next_key)) = (prev, next) {
                    let prev_geom = unsafe { self.segments.get_unchecked(prev_key) }.geom;
                    let next_geom = unsafe { self.segments.get_unchecked(next_key) }.geom;
                    /*@ proof {
                        assert(act1.contains(prev_key) && act1.contains(next_key));
                        assert(head(m1, prev_key) && head(m1, next_key));
                        assert(seg_ok(prev_key, m1[prev_key]) && seg_ok(next_key, m1[next_key]));
                    } @*/
                    if let Some(adj_intersection) = prev_geom.intersect_line_ordered(&next_geom) {
                        /*@ let ghost r = adj_intersection;
                        proof {
                            assume(exact(prev_geom, next_geom, Some(r)));
                            assume(clear(prev_geom, next_geom, p, Some(r)));
                            lemma_common(prev_geom, next_geom, r);
                        } @*/
                        let first = self
                            .adjust_one_segment(prev_key, adj_intersection)
                            .is_none();
                        /*@ let ghost (m2, h2) = (self.segments@, self.events@);
                        proof {
                            assert forall|ex: Option<usize>| #[trigger] inv(m0, h0.insert(event), act0, Some(p), ex) implies inv(m2, h2, act1, Some(p), ex) by {
                                assert(inv(m1, h0, act1, Some(p), ex));
                            }
                            assert(m2[next_key] == m1[next_key]);
                            lemma_passes(m0, h0.insert(event), m1, h0, m2, h2, Some(p), None, Some(p));
                            assert(inv(m1, h0, act1, Some(p), ex0));
                            lemma_started(m1, m2, act1, prev_key);
                        } @*/
                        let second = self
                            .adjust_one_segment(next_key, adj_intersection)
                            .is_none();
                        /*@ proof {
                            assert forall|ex: Option<usize>| #[trigger] inv(m0, h0.insert(event), act0, Some(p), ex) implies inv(
                                self.segments@,
                                self.events@,
                                act1,
                                Some(p),
                                ex,
                            ) by {
                                assert(inv(m2, h2, act1, Some(p), ex));
                            }
                            lemma_passes(m0, h0.insert(event), m2, h2, self.segments@, self.events@, Some(p), None, Some(p));
                            assert(inv(m2, h2, act1, Some(p), ex0));
                            lemma_started(m2, self.segments@, act1, next_key);
                        } @*/
                        rt_assert(
                            first && second);
                    }
                }
            }
            PointLeft => {
                let mut turn : usize = 0 ; while turn < 2
                /*@
                    invariant
                        turn <= 2,
                        event.ty == PointLeft,
                        pt(event.point) == p,
                        segment.geom is Point && pt(fst(segment.geom)) == p,
                        inv(self.segments@, self.events@, self.active_segments.keys(), Some(p), None),
                        prev is Some ==> self.active_segments.keys().contains(prev->0),
                        next is Some ==> self.active_segments.keys().contains(next->0),
                        cb@ == old(cb)@,
                        started(self.segments@, self.active_segments.keys()),
                        passes(m0, h0.insert(event), self.segments@, self.events@, Some(p)),
                    decreases 2 - turn,
                @*/
                { let step = if turn == 0 { prev } else { next } ; turn = turn + 1 ; if let Some ( adj_key ) = step {
                    /*@ let ghost (m1, h1, act1) = (self.segments@, self.events@, self.active_segments.keys());
                    proof {
                        assert(act1.contains(adj_key));
                        assert(head(m1, adj_key));
                        assert(seg_ok(adj_key, m1[adj_key]));
                    }
                    let ghost ag = m1[adj_key].geom; @*/
                    let adj_segment = self
                        .segments
                        .get_mut(adj_key)
                        .expect("active segment not found in storage");
                    if let Some(adj_intersection) =
                        segment.geom.intersect_line_ordered(&adj_segment.geom)
                    {
                        /*@ proof {
                            assert(self.segments@ =~= m1);
                            lemma_exact_point(segment.geom, ag, adj_intersection);
                            lemma_common(segment.geom, ag, adj_intersection);
                            lemma_on_point(pt(fst(adj_intersection)), p);
                            assert(inv(m1, h1, act1, Some(p), None));
                        } @*/
                        let adj_overlap_key = self.adjust_one_segment(adj_key, adj_intersection);
                        /*@ proof {
                            lemma_passes(m0, h0.insert(event), m1, h1, self.segments@, self.events@, Some(p), None, Some(p));
                            lemma_started(m1, self.segments@, act1, adj_key);
                        } @*/
                        rt_assert(adj_overlap_key.is_none());
                    } /*@ else {
                        proof {
                            assert(self.segments@ =~= m1);
                        }
                    } @*/ } }
                /*@ let ghost l0 = cb@; @*/
                cb . push ( ( ( &segment ) . dup ( ) , event.ty ) );
                /*@ proof {
                    lemma_tell_point(l0, p, segment);
                } @*/
            }
            PointRight => {
            }
        }
        true
    }
//@@ end
//@@ fn next_event self=Sweep
//@@ sub `next_event < F >` => `next_event`
//@@ sub `mut cb : F` => `cb : & mut Vec < ( Segment < C > , EventType ) >`
//@@ sub `where F : for < 'a > FnMut ( & 'a Segment < C > , EventType ) ,` => ``
//@@ sub `& mut cb` => `cb`
    fn next_event(&mut self, cb : & mut Vec < ( Segment < C > , EventType ) >) -> (ret: Option<SweepPoint<C::Scalar>>) /*@
        requires
            exists|lo: Option<Spot>| #[trigger] ready(old(self).segments@, old(self).events@, old(self).active_segments.keys(), lo),
            old(cb)@.len() == 0,
            started(old(self).segments@, old(self).active_segments.keys()),
        ensures
            started(final(self).segments@, final(self).active_segments.keys()),
            ret is None <==> old(self).events@.len() == 0,
            ret is None ==> final(cb)@ == old(cb)@ && exists|lo: Option<Spot>| #[trigger] ready(final(self).segments@, final(self).events@, final(self).active_segments.keys(), lo),
            ret matches Some(r) ==> {
                &&& exists|v: Event<C::Scalar>| #[trigger] soonest(old(self).events@, v) && v.point == r
                &&& ready(final(self).segments@, final(self).events@, final(self).active_segments.keys(), Some(pt(r)))
                &&& recs(final(cb)@, pt(r))
                &&& passes(old(self).segments@, old(self).events@, final(self).segments@, final(self).events@, Some(pt(r)))
                &&& live(old(self).segments@, old(self).events@, pt(r)) ==> final(cb)@.len() > 0 || live(final(self).segments@, final(self).events@, pt(r))
            },
    @*/ {
        /*@ let ghost h0 = self.events@;
        let ghost lo = choose|lo: Option<Spot>| #[trigger] ready(self.segments@, self.events@, self.active_segments.keys(), lo);
        let ghost (m0, act) = (self.segments@, self.active_segments.keys()); @*/
        match
        self.events.pop(){ Some (event) => Some ( {
            /*@ proof {
                assert forall|w: Event<C::Scalar>| #[trigger] h0.contains(w) implies ev_le(event, w) by {
                    assert(vstd::std_specs::cmp::OrdSpec::cmp_spec(&w, &event) != Ordering::Greater);
                    lemma_ev(w, event);
                }
                assert(soonest(h0, event));
                assert(h0.remove(event).insert(event) =~= h0);
                assert forall|f: Event<C::Scalar>| #[trigger] self.events@.contains(f) implies ev_le(event, f) by {
                    assert(h0.contains(f));
                }
                lemma_advance(m0, h0, act, lo, event);
                assert(inv(m0, self.events@.insert(event), act, Some(super::pt(event.point)), None));
            } @*/
            let pt = event.point;
            /*@ let ghost at = super::pt(event.point);
            proof {
                assert(inv(self.segments@, self.events@.insert(event), self.active_segments.keys(), Some(at), None));
            } @*/
            self.handle_event(event, cb);
            pt
        }) , None => /*@ {
            proof {
                assert(ready(self.segments@, self.events@, self.active_segments.keys(), lo));
            } @*/ None /*@ } @*/ }
    }
//@@ end
//@@ fn peek_point self=Sweep
    fn peek_point(&self) -> (ret: Option<SweepPoint<C::Scalar>>) /*@
        ensures
            ret is None <==> self.events@.len() == 0,
            ret matches Some(r) ==> exists|v: Event<C::Scalar>| #[trigger] soonest(self.events@, v) && v.point == r,
    @*/ {
        /*@ proof {
            assert forall|e: Event<C::Scalar>, w: Event<C::Scalar>| vstd::std_specs::cmp::OrdSpec::cmp_spec(&w, &e) != Ordering::Greater implies #[trigger] ev_le(e, w) by {
                lemma_ev(w, e);
            }
        } @*/
        match
        self.events.peek(){ Some (e) => Some ( /*@ {
            proof {
                assert(soonest(self.events@, *e));
            } @*/ e.point /*@ } @*/ ) , None => None }
    }
//@@ end
//@@ fn prev_active self=Sweep
    fn prev_active(&self, c: &Crossing<C>) -> (ret: Option<&Segment<C>>) /*@
        requires
            c.at_left,
            exists|lo: Option<Spot>| #[trigger] ready(self.segments@, self.events@, self.active_segments.keys(), lo),
        ensures
            ret matches Some(s) ==> self.active_segments.keys().contains(s.key) && self.segments@.contains_key(s.key) && *s == self.segments@[s.key]
                && self.active_segments.below(s.key, c.key),
    @*/ {
        /*@ proof {
            let lo = choose|lo: Option<Spot>| #[trigger] ready(self.segments@, self.events@, self.active_segments.keys(), lo);
            assert forall|k: usize| #[trigger] self.active_segments.keys().contains(k) implies head(self.segments@, k) && seg_ok(k, self.segments@[k]) by {
                assert(head(self.segments@, k));
                assert(self.segments@.contains_key(k));
            }
        } @*/

        rt_assert(c.at_left);
        match
        self.active_segments
            .prev_key(c.key, &self.segments){ Some (k) => Some ( unsafe { self.segments.get_unchecked(k) }) , None => None }
    }
//@@ end
}

// ---- crossings.rs ----------------------------------------------------------------------------
//@@ struct Crossing derives=Debug,Clone,Copy
struct Crossing<C: Crossable> {
    crossable: C,
    line: LineOrPoint<C::Scalar>,
    first_segment: bool,
    has_overlap: bool,
    at_left: bool,
    key: usize,
}
//@@ end

// the record of a piece
spec fn record<C: Crossable>(s: Segment<C>, ty: EventType) -> Crossing<C> {
    Crossing {
        crossable: s.crossable,
        line: s.geom,
        first_segment: s.first_segment,
        has_overlap: s.overlapping is Some,
        at_left: ty == LineLeft,
        key: s.key,
    }
}

// a part of its input that starts (at_left) or ends at p
spec fn cross_ok<C: Crossable>(c: Crossing<C>, p: Spot) -> bool {
    &&& lop_wf(c.line)
    &&& within(c.line, inp(c.crossable))
    &&& c.first_segment ==> pt(fst(c.line)) == pt(fst(inp(c.crossable)))
    &&& if c.at_left {
        c.line is Line && pt(fst(c.line)) == p
    } else {
        pt(snd(c.line)) == p
    }
}

spec fn runs_on<C: Crossable>(l: Seq<Crossing<C>>, i: int) -> bool {
    l[i].has_overlap ==> i + 1 < l.len() && l[i + 1].at_left == l[i].at_left && same(l[i].line, l[i + 1].line)
}

// the records of one point
spec fn batch<C: Crossable>(l: Seq<Crossing<C>>, p: Spot) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] cross_ok(l[i], p)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] runs_on(l, i)
}

proof fn lemma_batch<C: Crossable>(was: Seq<Crossing<C>>, told: Log<C>, l: Seq<Crossing<C>>, p: Spot)
    requires
        batch(was, p),
        recs(told, p),
        l == was + Seq::new(told.len(), |i: int| record(told[i].0, told[i].1)),
    ensures
        batch(l, p),
{
    let n = was.len();
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] cross_ok(l[i], p) by {
        if i < n {
            assert(cross_ok(was[i], p));
        } else {
            assert(rec_at(told, p, i - n));
        }
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] runs_on(l, i) by {
        if i < n {
            assert(runs_on(was, i));
            assert(l[i] == was[i]);
            if l[i].has_overlap {
                assert(l[i + 1] == was[i + 1]);
            }
        } else {
            assert(rec_next(told, i - n));
            assert(rec_at(told, p, i - n));
            assert(l[i] == record(told[i - n].0, told[i - n].1));
            if l[i].has_overlap {
                assert(l[i + 1] == record(told[i - n + 1].0, told[i - n + 1].1));
            }
        }
    }
}

impl<C: Crossable> Crossing<C> {
//@@ fn from_segment self=Crossing
    fn from_segment(segment: &Segment<C>, event_ty: EventType) -> (ret: Crossing<C>) /*@
        ensures
            ret == record(*segment, event_ty),
    @*/ {
        Crossing {
            crossable: segment.crossable. dup ( ),
            line: segment.geom,
            first_segment: segment.first_segment,
            has_overlap: segment.overlapping.is_some(),
            at_left: event_ty == EventType::LineLeft,
            key: segment.key,
        }
    }
//@@ end
}

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(A)]
//@@ struct CrossingsIter
//@@ sub `CrossingsIter < C >` => `CrossingsIter < C , A >`
//@@ sub `C : Crossable + Clone ,` => `C : Crossable , A : Access < SegmentType = Segment < C > > ,`
//@@ sub `Sweep < C >` => `Sweep < C , A >`
struct CrossingsIter < C , A >
where
    C : Crossable , A : Access < SegmentType = Segment < C > > ,
{
    sweep: Sweep < C , A >,
    segments: Vec<Crossing<C>>,
}
//@@ end

// what is due at q is queued there
proof fn lemma_due<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>, act: Set<usize>, q: Spot)
    requires
        exists|lo: Option<Spot>| #[trigger] ready(m, h, act, lo),
        live(m, h, q),
    ensures
        exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && pt(e.point) == q,
{
    let lo = choose|lo: Option<Spot>| #[trigger] ready(m, h, act, lo);
    if exists|e: Event<C::Scalar>| #[trigger] h.contains(e) && e.ty == PointLeft && pt(e.point) == q {
    } else {
        let j = choose|j: usize| #[trigger] head(m, j) && (pt(snd(m[j].geom)) == q || pt(fst(m[j].geom)) == q && h.contains(left_ev(m[j])));
        assert(h.contains(right_ev(m[j])));
    }
}

proof fn lemma_none<C: Crossable>(m: Pieces<C>, h: Queue<C::Scalar>)
    requires
        h.len() == 0,
    ensures
        lively(m, h),
{
    assert forall|e: Event<C::Scalar>| #[trigger] h.contains(e) implies live(m, h, pt(e.point)) by {
        lemma_some(h, e);
    }
}

impl<C: Crossable, A: Access<SegmentType = Segment<C>>> CrossingsIter<C, A> {
//@@ fn from_iter self=CrossingsIter trait=FromIterator
//@@ sub `from_iter < T : IntoIterator < Item = C > >` => `from_iter < T : Items < C > >`
//@@ sub `iter . into_iter ( )` => `iter`
    fn from_iter<T: Items < C >>(iter: T) -> (ret: Self) /*@
        requires
            16 * iter.rest().len() <= usize::MAX,
        ensures
            steady(ret.sweep.segments@, ret.sweep.events@, ret.sweep.active_segments.keys()),
            loaded(ret.sweep.segments@, ret.sweep.events@, iter.rest(), iter.rest().len() as int),
            ret.segments@.len() == 0,
            // every end of an input is due
            forall|i: int| 0 <= i < iter.rest().len() ==> live(ret.sweep.segments@, ret.sweep.events@, pt(fst(inp(#[trigger] iter.rest()[i])))) && live(
                ret.sweep.segments@,
                ret.sweep.events@,
                pt(snd(inp(iter.rest()[i]))),
            ),
    @*/ {
        let iter = iter;
        let (size, _) = iter.size_hint();
        let sweep = Sweep::new(iter);
        let segments = Vec::with_capacity(4 * size);
        /*@ proof {
            let (m, h, all) = (sweep.segments@, sweep.events@, iter.rest());
            assert forall|i: int| 0 <= i < all.len() implies live(m, h, pt(fst(inp(#[trigger] all[i])))) && live(m, h, pt(snd(inp(all[i])))) by {
                lemma_placed(m, h, all, i);
            }
        } @*/
        Self { sweep, segments }
    }
//@@ end
//@@ fn intersections_mut self=CrossingsIter
    fn intersections_mut(&mut self) -> (ret: &mut [Crossing<C>]) /*@
        ensures
            ret@ == old(self).segments@,
            final(self).segments@ == final(ret)@,
            final(self).sweep == old(self).sweep,
    @*/ {
        &mut self.segments
    }
//@@ end
//@@ fn intersections self=CrossingsIter
    fn intersections(&self) -> (ret: &[Crossing<C>]) /*@
        ensures
            ret@ == self.segments@,
    @*/ {
        &self.segments
    }
//@@ end
    #[verifier::exec_allows_no_decreases_clause]
//@@ fn next self=CrossingsIter trait=Iterator
//@@ sub `Option < Self :: Item >` => `Option < Coordinate < C :: Scalar > >`
//@@ sub `self . sweep . next_event ( | $s , $t | { $*b } )` => `{ let mut told = Vec :: new ( ) ; let at = self . sweep . next_event ( & mut told ) ; let mut nth : usize = 0 ; while nth < told . len ( ) { let ( $s , $t ) = ( & told [ nth ] . 0 , told [ nth ] . 1 ) ; $*b ; nth = nth + 1 ; } at }`
    fn next(&mut self) -> (ret: Option < Coordinate < C :: Scalar > >) /*@
        requires
            steady(old(self).sweep.segments@, old(self).sweep.events@, old(self).sweep.active_segments.keys()),
        ensures
            steady(final(self).sweep.segments@, final(self).sweep.events@, final(self).sweep.active_segments.keys()),
            ret is None <==> final(self).segments@.len() == 0,
            ret is None <==> old(self).sweep.events@.len() == 0,
            ret is None ==> final(self).sweep.events@.len() == 0,
            ret matches Some(c) ==> {
                &&& live(old(self).sweep.segments@, old(self).sweep.events@, at(c))
                &&& forall|q: Spot| #[trigger] live(old(self).sweep.segments@, old(self).sweep.events@, q) ==> q == at(c) || live(final(self).sweep.segments@, final(self).sweep.events@, q)
                &&& batch(final(self).segments@, at(c))
                &&& forall|e: Event<C::Scalar>| #[trigger] old(self).sweep.events@.contains(e) ==> lexr(at(c), pt(e.point)) != Ordering::Greater
                &&& forall|e: Event<C::Scalar>| #[trigger] final(self).sweep.events@.contains(e) ==> lexr(at(c), pt(e.point)) == Ordering::Less
            },
    @*/ {
        /*@ let ghost (m0, h0) = (self.sweep.segments@, self.sweep.events@); @*/
        let segments = &mut self.segments;
        segments.clear();
        let mut last_point = self.sweep.peek_point();
        /*@ let ghost first = last_point; @*/
        while last_point == self.sweep.peek_point() && self.sweep.peek_point().is_some()
        /*@
            invariant
                exists|lo: Option<Spot>| #[trigger] ready(self.sweep.segments@, self.sweep.events@, self.sweep.active_segments.keys(), lo),
                started(self.sweep.segments@, self.sweep.active_segments.keys()),
                first is None ==> last_point is None && segments@.len() == 0 && self.sweep.events@.len() == 0 && self.sweep.segments@ == m0 && h0.len() == 0,
                first matches Some(r) ==> {
                    &&& passes(m0, h0, self.sweep.segments@, self.sweep.events@, Some(pt(r)))
                    &&& live(m0, h0, pt(r)) ==> segments@.len() > 0 || live(self.sweep.segments@, self.sweep.events@, pt(r))
                },
                first is Some ==> last_point is Some && pt(last_point->0) == pt(first->0) && batch(segments@, pt(last_point->0)),
                first matches Some(r) ==> exists|v: Event<C::Scalar>| #[trigger] soonest(h0, v) && v.point == r,
                self.sweep.events@ == h0 || last_point is Some && ready(self.sweep.segments@, self.sweep.events@, self.sweep.active_segments.keys(), Some(pt(last_point->0))),
            ensures
                self.sweep.events@.len() == 0 || exists|v: Event<C::Scalar>| #[trigger]
                    soonest(self.sweep.events@, v) && (last_point is None || pt(v.point) != pt(last_point->0)),
        @*/
        {
            /*@ let ghost hb = self.sweep.events@;
            let ghost (mb, before, nb) = (self.sweep.segments@, last_point, segments@.len()); @*/
            last_point = { let mut told = Vec :: new ( ) ; let at = self . sweep . next_event ( & mut told ) ; let mut nth : usize = 0 ; /*@ let ghost now = self.sweep;
            proof {
                let v = choose|v: Event<C::Scalar>| #[trigger] soonest(hb, v) && v.point == at->0;
                assert forall|w: Event<C::Scalar>| #[trigger] soonest(hb, w) implies pt(w.point) == pt(v.point) by {
                    lemma_soonest(hb, v, w);
                }
            }
            let ghost was = segments@;
            @*/ while nth < told . len ( )
            /*@
                invariant
                    at is Some,
                    self.sweep == now,
                    batch(was, pt(at->0)),
                    recs(told@, pt(at->0)),
                    nth <= told@.len(),
                    segments@ == was + Seq::new(nth as nat, |i: int| record(told@[i].0, told@[i].1)),
                decreases told@.len() - nth,
            @*/
            { let ( seg , ty ) = ( & told [ nth ] . 0 , told [ nth ] . 1 ) ; segments.push(Crossing::from_segment(seg, ty)) ; nth = nth + 1 ; }
            /*@ proof {
                lemma_batch(was, told@, segments@, pt(at->0));
                lemma_passes(m0, h0, mb, hb, self.sweep.segments@, self.sweep.events@, Some(pt(first->0)), Some(pt(first->0)), Some(pt(first->0)));
            } @*/ at };
        }
        /*@ proof {
            if first is Some {
                let v = choose|v: Event<C::Scalar>| #[trigger] soonest(h0, v) && v.point == first->0;
                assert(forall|e: Event<C::Scalar>| #[trigger] h0.contains(e) ==> ev_le(v, e));
            }
            assert forall|e: Event<C::Scalar>| #[trigger] self.sweep.events@.contains(e) && last_point is Some implies lexr(pt(last_point->0), pt(e.point)) == Ordering::Less by {
                lemma_some(self.sweep.events@, e);
                let v = choose|v: Event<C::Scalar>| #[trigger] soonest(self.sweep.events@, v) && pt(v.point) != pt(last_point->0);
                assert(ev_le(v, e));
                assert(due(Some(pt(last_point->0)), pt(v.point)));
            }
        } @*/
        /*@ proof {
            if first is Some {
                let v = choose|v: Event<C::Scalar>| #[trigger] soonest(h0, v) && v.point == first->0;
                assert(h0.contains(v));
                assert(live(m0, h0, pt(v.point)));
                let (m, h) = (self.sweep.segments@, self.sweep.events@);
                if live(m, h, pt(first->0)) {
                    lemma_due(m, h, self.sweep.active_segments.keys(), pt(first->0));
                }
                assert forall|e: Event<C::Scalar>| #[trigger] h.contains(e) implies live(m, h, pt(e.point)) by {
                    if h0.contains(e) {
                        assert(live(m0, h0, pt(e.point)));
                    }
                }
            } else {
                lemma_none(self.sweep.segments@, self.sweep.events@);
            }
        } @*/
        if segments.is_empty() {
            None
        } else {
            match
            last_point{ Some (p) => Some ( p.coord()) , None => None }
        }
    }
//@@ end
}

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(A)]
//@@ struct Intersections
//@@ sub `Intersections < C : Crossable + Clone >` => `Intersections < C : Crossable , A : Access < SegmentType = Segment < C > > >`
//@@ sub `CrossingsIter < C >` => `CrossingsIter < C , A >`
struct Intersections < C : Crossable , A : Access < SegmentType = Segment < C > > > {
    inner: CrossingsIter < C , A >,
    idx: usize,
    jdx: usize,
    is_overlap: bool,
    pt: Option<Coordinate<C::Scalar>>,
}
//@@ end

// the pair after (i, j)
spec fn succ(n: int, i: int, j: int) -> (int, int) {
    if j + 1 < n {
        (i, j + 1)
    } else {
        (i + 1, i + 2)
    }
}

spec fn last_pair(n: int, i: int, j: int) -> bool {
    j + 1 >= n && i + 2 >= n
}

// which pairs are reported: both end here or begin here for the first time; overlaps where they begin, if one does for the first time
spec fn shown<C: Crossable>(a: Crossing<C>, b: Crossing<C>, overlap: bool) -> bool {
    if overlap {
        a.at_left && (a.first_segment || b.first_segment)
    } else {
        (!a.at_left || a.first_segment) && (!b.at_left || b.first_segment)
    }
}

// records joined by the overlap flag are the same piece on the same side
proof fn lemma_runs<C: Crossable>(l: Seq<Crossing<C>>, p: Spot, i: int, j: int)
    requires
        batch(l, p),
        0 <= i <= j < l.len(),
        forall|n: int| i <= n < j ==> (#[trigger] l[n]).has_overlap,
    ensures
        l[i].at_left == l[j].at_left,
        same(l[i].line, l[j].line),
    decreases j - i,
{
    if i < j {
        lemma_runs(l, p, i, j - 1);
        assert(runs_on(l, j - 1));
    }
}

// inputs with pieces at p meet there
proof fn lemma_meet<C: Crossable>(a: Crossing<C>, b: Crossing<C>, p: Spot)
    requires
        cross_ok(a, p),
        cross_ok(b, p),
    ensures
        forall|r: Option<LineIntersection<C::Scalar>>| #[trigger] isect_spec(a.crossable.seg(), b.crossable.seg(), r) ==> r is Some,
{
    lemma_normal(a.crossable.seg());
    lemma_normal(b.crossable.seg());
    let (s, t) = (a.crossable.seg(), b.crossable.seg());
    lemma_on_seg_sym(p, at(s.end), at(s.start));
    lemma_on_seg_sym(p, at(t.end), at(t.start));
    assert(on_seg(p, at(s.start), at(s.end)));
    assert(on_seg(p, at(t.start), at(t.end)));
    assert(meets(at(s.start), at(s.end), at(t.start), at(t.end)));
}

// (i, j) is a pair of records of the last point
spec fn paired<C: Crossable>(l: Seq<Crossing<C>>, i: usize, j: usize, overlap: bool, p: Option<Coordinate<C::Scalar>>) -> bool {
    &&& p is Some
    &&& i < j < l.len()
    &&& batch(l, at(p->0))
    &&& overlap <==> forall|n: int| i <= n < j ==> (#[trigger] l[n]).has_overlap
}

// between two calls (i is counted on after the end)
spec fn poised<C: Crossable>(l: Seq<Crossing<C>>, i: usize, j: usize, overlap: bool, p: Option<Coordinate<C::Scalar>>) -> bool {
    if p is Some {
        paired(l, i, j, overlap, p)
    } else {
        l.len() == 0
    }
}

impl<C: Crossable, A: Access<SegmentType = Segment<C>>> Intersections<C, A> {
//@@ fn from_iter self=Intersections trait=FromIterator
//@@ sub `from_iter < T : IntoIterator < Item = C > >` => `from_iter < T : Items < C > >`
//@@ sub `FromIterator :: from_iter` => `CrossingsIter :: from_iter`
    fn from_iter<T: Items < C >>(iter: T) -> (ret: Self) /*@
        requires
            16 * iter.rest().len() <= usize::MAX,
        ensures
            steady(ret.inner.sweep.segments@, ret.inner.sweep.events@, ret.inner.sweep.active_segments.keys()),
            loaded(ret.inner.sweep.segments@, ret.inner.sweep.events@, iter.rest(), iter.rest().len() as int),
            poised(ret.inner.segments@, ret.idx, ret.jdx, ret.is_overlap, ret.pt),
            ret.pt is None && ret.idx == 0 && ret.jdx == 0,
    @*/ {
        Self {
            inner: CrossingsIter :: from_iter(iter),
            idx: 0,
            jdx: 0,
            is_overlap: false,
            pt: None,
        }
    }
//@@ end
//@@ fn intersection self=Intersections
//@@ sub `int` => `common`
    fn intersection(&mut self) -> (ret: Option<(C, C, LineIntersection<C::Scalar>)>) /*@
        requires
            paired(old(self).inner.segments@, old(self).idx, old(self).jdx, old(self).is_overlap, old(self).pt),
        ensures
            final(self).inner.segments@ == old(self).inner.segments@,
            final(self).inner.sweep == old(self).inner.sweep,
            (final(self).idx, final(self).jdx, final(self).is_overlap, final(self).pt) == (old(self).idx, old(self).jdx, old(self).is_overlap, old(self).pt),
            ret is Some <==> shown(old(self).inner.segments@[old(self).idx as int], old(self).inner.segments@[old(self).jdx as int], old(self).is_overlap),
            ret matches Some((a, b, i)) ==> a == old(self).inner.segments@[old(self).idx as int].crossable && b == old(self).inner.segments@[old(self).jdx as int].crossable
                && isect_spec(a.seg(), b.seg(), Some(i)),
    @*/ {
        /*@ proof {
            let l = self.inner.segments@;
            assert(cross_ok(l[self.idx as int], at(self.pt->0)) && cross_ok(l[self.jdx as int], at(self.pt->0)));
            if self.is_overlap {
                lemma_runs(l, at(self.pt->0), self.idx as int, self.jdx as int);
            }
            lemma_meet(l[self.idx as int], l[self.jdx as int], at(self.pt->0));
        } @*/
        let (si, sj) = {
            let segments = self.inner.intersections_mut();
            (&segments[self.idx], &segments[self.jdx])
        };
        let should_compute = if self.is_overlap {
            rt_assert(si.at_left == sj.at_left);
            si.at_left && (si.first_segment || sj.first_segment)
        } else {
            (!si.at_left || si.first_segment) && (!sj.at_left || sj.first_segment)
        };
        if should_compute {
            let si = si.crossable. dup ( );
            let sj = sj.crossable. dup ( );
            let common = line_intersection(si.line(), sj.line())
                .expect("line_intersection returned `None` disagreeing with `CrossingsIter`");
            Some((si, sj, common))
        } else {
            None
        }
    }
//@@ end
    #[verifier::exec_allows_no_decreases_clause]
//@@ fn step self=Intersections
    fn step(&mut self) -> (ret: bool) /*@
        requires
            poised(old(self).inner.segments@, old(self).idx, old(self).jdx, old(self).is_overlap, old(self).pt),
            steady(old(self).inner.sweep.segments@, old(self).inner.sweep.events@, old(self).inner.sweep.active_segments.keys()),
            old(self).pt is None ==> old(self).idx < usize::MAX - 1 && old(self).jdx < usize::MAX,
        ensures
            poised(final(self).inner.segments@, final(self).idx, final(self).jdx, final(self).is_overlap, final(self).pt),
            steady(final(self).inner.sweep.segments@, final(self).inner.sweep.events@, final(self).inner.sweep.active_segments.keys()),
            ret <==> final(self).pt is Some,
            ret ==> paired(final(self).inner.segments@, final(self).idx, final(self).jdx, final(self).is_overlap, final(self).pt),
            // the pairs of a batch in order, then the next batch
            ret ==> succ(old(self).inner.segments@.len() as int, old(self).idx as int, old(self).jdx as int) == (final(self).idx as int, final(self).jdx as int) && final(self).inner.segments@ == old(self).inner.segments@ && final(self).inner.sweep == old(self).inner.sweep && final(self).pt == old(self).pt || last_pair(old(self).inner.segments@.len() as int, old(self).idx as int, old(self).jdx as int)
                && final(self).idx == 0 && final(self).jdx == 1,
            !ret ==> final(self).inner.sweep.events@.len() == 0 && last_pair(old(self).inner.segments@.len() as int, old(self).idx as int, old(self).jdx as int),
    @*/ {
        /*@ let ghost mut now = self.inner.sweep; @*/
        let seg_len = self.inner.intersections_mut().len();
        if 1 + self.jdx < seg_len {
            self.is_overlap =
                self.is_overlap && self.inner.intersections_mut()[self.jdx].has_overlap;
            self.jdx += 1;
        } else {
            self.idx += 1;
            if 1 + self.idx >= seg_len {
                loop
                /*@
                    invariant
                        steady(self.inner.sweep.segments@, self.inner.sweep.events@, self.inner.sweep.active_segments.keys()),
                        self.idx < usize::MAX,
                        self.jdx < usize::MAX,
                        last_pair(old(self).inner.segments@.len() as int, old(self).idx as int, old(self).jdx as int),
                    ensures
                        self.pt is Some,
                        self.inner.sweep == now,
                        self.inner.segments@.len() > 1,
                        batch(self.inner.segments@, at(self.pt->0)),
                @*/
                {
                    self.pt = self.inner.next();
                    /*@ proof {
                        now = self.inner.sweep;
                    } @*/
                    if self.pt.is_none() {
                        return false;
                    }
                    if self.inner.intersections_mut().len() > 1 {
                        /*@ proof {
                            assert(self.inner.sweep == now);
                        } @*/
                        break;
                    }
                }
                self.idx = 0;
            }
            self.is_overlap = self.inner.intersections_mut()[self.idx].has_overlap;
            self.jdx = self.idx + 1;
        }
        /*@ proof {
            assert(self.inner.sweep == now);
        } @*/
        true
    }
//@@ end
    #[verifier::exec_allows_no_decreases_clause]
//@@ fn next self=Intersections trait=Iterator
//@@ sub `Option < Self :: Item >` => `Option < ( C , C , LineIntersection < C :: Scalar > ) >`
    fn next(&mut self) -> (ret: Option < ( C , C , LineIntersection < C :: Scalar > ) >) /*@
        requires
            poised(old(self).inner.segments@, old(self).idx, old(self).jdx, old(self).is_overlap, old(self).pt),
            steady(old(self).inner.sweep.segments@, old(self).inner.sweep.events@, old(self).inner.sweep.active_segments.keys()),
            old(self).pt is None ==> old(self).idx < usize::MAX - 1 && old(self).jdx < usize::MAX,
        ensures
            poised(final(self).inner.segments@, final(self).idx, final(self).jdx, final(self).is_overlap, final(self).pt),
            steady(final(self).inner.sweep.segments@, final(self).inner.sweep.events@, final(self).inner.sweep.active_segments.keys()),
            ret is None ==> final(self).inner.sweep.events@.len() == 0,
            ret matches Some((a, b, i)) ==> isect_spec(a.seg(), b.seg(), Some(i)),
    @*/ {
        loop
        /*@
            invariant
                poised(self.inner.segments@, self.idx, self.jdx, self.is_overlap, self.pt),
            steady(self.inner.sweep.segments@, self.inner.sweep.events@, self.inner.sweep.active_segments.keys()),
                self.pt is None ==> self.idx < usize::MAX - 1 && self.jdx < usize::MAX,
        @*/
        {
            if !self.step() {
                return None;
            }
            if let Some(result) = self.intersection() {
                return Some(result);
            }
        }
    }
//@@ end
}
