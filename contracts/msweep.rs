// ---- monotone/sweep.rs -----------------------------------------------------------------------
//@@ global `mut self : Pin < & mut Self >` => `& mut self`
//@@ global `self : Pin < & mut Self >` => `& mut self`
//@@ global `self . as_mut ( )` => `self`
//@@ global `. clone ( )` => `. dup ( )`
//@@ global `T :: Ker :: orient2d` => `orient2d`
type Links<T> = Vec<Link<T>>;

//@@ struct SweepEvent file=src/monotone/sweep.rs
struct SweepEvent<T: GeoNum> {
    pt: SweepPoint<T>,
    ty: VertexType,
    links: Links<T>,
}
//@@ end

// ---- assumed: the ordered set of active segments (Access for BTreeSet): asserts that fail refuse
#[verifier::external_body]
struct Keys {
    p: Vec<usize>,
}

impl Keys {
    uninterp spec fn keys(&self) -> Set<usize>;

    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures
            r.keys() == Set::<usize>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn next_key<T: GeoNum>(&self, key: usize, storage: &Slab<Segment<T>>) -> (r: Option<usize>)
        requires
            storage@.contains_key(key),
        ensures
            r matches Some(k) ==> self.keys().contains(k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    unsafe fn add_key<T: GeoNum>(&mut self, key: usize, storage: &Slab<Segment<T>>)
        requires
            storage@.contains_key(key),
        ensures
            final(self).keys() == old(self).keys().insert(key),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn remove_key<T: GeoNum>(&mut self, key: usize, storage: &Slab<Segment<T>>)
        requires
            storage@.contains_key(key),
        ensures
            final(self).keys() == old(self).keys().remove(key),
    {
        unimplemented!()
    }
}

impl<V> Slab<V> {
    // &slab[k]
    #[verifier::external_body]
    fn at(&self, k: usize) -> (r: &V)
        requires
            self@.contains_key(k),
        ensures
            *r == self@[k],
    {
        unimplemented!()
    }

    // &mut slab[k]
    #[verifier::external_body]
    fn at_mut(&mut self, k: usize) -> (r: &mut V)
        requires
            old(self)@.contains_key(k),
        ensures
            *r == old(self)@[k],
            final(self)@ == old(self)@.insert(k, *final(r)),
    {
        unimplemented!()
    }
}

#[verifier::reject_recursive_types(T)]
//@@ struct Sweep file=src/monotone/sweep.rs
//@@ sub `# [ pin ]` => ``
//@@ sub `_pin : PhantomPinned ,` => ``
//@@ sub `BTreeSet < Active < Segment < T > > >` => `Keys`
    struct Sweep<T: GeoNum> {
        segments: Slab<Segment<T>>,
        pt_key: usize,
        events: Vec<Event<T>>,
        active_segments: Keys,
    }
//@@ end

// ---- assumed: geo types ----------------------------------------------------------------------
struct Polygon<T: GeoNum> {
    ext: LineString<T>,
    ints: Vec<LineString<T>>,
}

impl<T: GeoNum> Polygon<T> {
    fn exterior(&self) -> (r: &LineString<T>)
        ensures
            *r == self.ext,
    {
        &self.ext
    }

    fn interiors(&self) -> (r: &Vec<LineString<T>>)
        ensures
            *r == self.ints,
    {
        &self.ints
    }

    // a polygon in memory
    #[verifier::external_body]
    fn coords_count(&self) -> (r: usize)
        ensures
            r < usize::MAX / 2,
    {
        unimplemented!()
    }
}

// the side of a ring its inside is on
uninterp spec fn inside<T: GeoNum>(r: LineString<T>) -> WindingOrder;

impl<T: GeoNum> LineString<T> {
    #[verifier::external_body]
    fn is_closed(&self) -> (r: bool)
        ensures
            r ==> pts(*self).len() == 0 || pts(*self)[0] == pts(*self).last(),
    {
        unimplemented!()
    }

    fn coords_count(&self) -> (r: usize)
        ensures
            r == pts(*self).len(),
    {
        self.0.len()
    }

    #[verifier::external_body]
    fn winding_order(&self) -> (r: Option<WindingOrder>)
        ensures
            r matches Some(w) ==> w == inside(*self),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn origin<T: GeoNum>() -> (r: Coordinate<T>) {
    unimplemented!()
}

// assumed: sort_unstable sorts by Ord::cmp
#[verifier::external_body]
fn sort_events<E: Ord>(v: &mut Vec<E>)
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==> final(v)@[i].cmp_spec(&final(v)@[j]) != Ordering::Greater,
{
    unimplemented!()
}

// the edges of a ring with the polygon on its side w
spec fn ring_edges(c: Seq<Spot>, w: WindingOrder) -> Multiset<Look>
    decreases c.len(),
{
    if c.len() < 2 {
        Multiset::empty()
    } else if c[c.len() - 2] == c.last() {
        ring_edges(c.drop_last(), w)
    } else {
        ring_edges(c.drop_last(), w).insert(edge_look(c[c.len() - 2], c.last(), w))
    }
}

spec fn hole_edges<T: GeoNum>(s: Seq<LineString<T>>) -> Multiset<Look>
    decreases s.len(),
{
    if s.len() == 0 {
        Multiset::empty()
    } else {
        hole_edges(s.drop_last()).add(ring_edges(pts(s.last()), flip(inside(s.last()))))
    }
}

spec fn edges<T: GeoNum>(p: Polygon<T>) -> Multiset<Look> {
    ring_edges(pts(p.ext), inside(p.ext)).add(hole_edges(p.ints@))
}

proof fn lemma_none<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>)
    requires
        ev.len() == 0,
    ensures
        rights(ev, m) == Multiset::<Look>::empty(),
        lefts(ev, m) == Multiset::<Look>::empty(),
{
}

spec fn stored<T: GeoNum>(a: Set<usize>, m: Map<usize, Segment<T>>) -> bool {
    forall|j: usize| #[trigger] a.contains(j) ==> m.contains_key(j)
}

spec fn sound<T: GeoNum>(s: Sweep<T>) -> bool {
    &&& running(s.events@, s.segments@, s.pt_key)
    &&& stored(s.active_segments.keys(), s.segments@)
}

// the event that takes the sweep from a to b
spec fn happens<T: GeoNum>(n: Now<T>, a: Sweep<T>, e: SweepEvent<T>, b: Sweep<T>) -> bool {
    &&& n.p == pt(e.pt) && n.ty == e.ty && n.ls == e.links@
    &&& n.r0 == rights(a.events@, a.segments@) && n.l0 == lefts(a.events@, a.segments@) && n.d0 == due(a.events@)
    &&& n.r1 == rights(b.events@, b.segments@) && n.l1 == lefts(b.events@, b.segments@) && n.d1 == due(b.events@)
    &&& told(n)
}

spec fn happened<T: GeoNum>(a: Sweep<T>, e: SweepEvent<T>, b: Sweep<T>) -> Now<T> {
    choose|n: Now<T>| happens(n, a, e, b)
}

// the other end of the edge of an event
spec fn far<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>) -> Spot {
    if e.ty is LineLeft {
        look(m[e.segment_key]).1
    } else {
        look(m[e.segment_key]).0
    }
}

// does b lie on the side of the edge from (or to) p to (or from) a that the polygon is on
spec fn faces(p: Spot, left: bool, a: Spot, b: Spot, w: WindingOrder) -> bool {
    let o = if left { turn(area(p, a, b)) } else { turn(area(a, p, b)) };
    if w is Clockwise {
        o == Orientation::Clockwise
    } else {
        o == Orientation::CounterClockwise
    }
}

spec fn kind<T: GeoNum>(x: Event<T>, y: Event<T>, m: Map<usize, Segment<T>>, p: Spot) -> VertexType {
    let l = look(m[x.segment_key]);
    let f = faces(p, x.ty is LineLeft, far(x, m), far(y, m), l.2);
    if x.ty != y.ty {
        VertexType::Continue
    } else if x.ty is LineLeft {
        if f { VertexType::Start } else { VertexType::Split }
    } else {
        if f { VertexType::End } else { VertexType::Merge }
    }
}

proof fn lemma_area_turn(p: Spot, a: Spot, b: Spot)
    ensures
        area(a, p, b) == -area(p, a, b),
{
    reveal(cross);
    lemma_turn(p.0 - a.0, p.1 - a.1, b.0 - p.0, b.1 - p.1);
    lemma_turn(a.0 - p.0, a.1 - p.1, b.0 - p.0, b.1 - p.1);
    assert((p.0 - a.0) * (b.1 - a.1) == (p.0 - a.0) * (b.1 - p.1 + (p.1 - a.1)));
    assert((p.1 - a.1) * (b.0 - a.0) == (p.1 - a.1) * (b.0 - p.0 + (p.0 - a.0)));
}

proof fn lemma_turn(u: real, v: real, x: real, y: real)
    ensures
        u * (y + v) - v * (x + u) == u * y - v * x,
        (0real - u) * y - (0real - v) * x == -(u * y - v * x),
{
    assert(u * (y + v) - v * (x + u) == u * y - v * x) by (nonlinear_arith);
    assert((0real - u) * y - (0real - v) * x == -(u * y - v * x)) by (nonlinear_arith);
}

// what the last two events start and end
proof fn lemma_shape<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, k: usize, p: Spot)
    requires
        events_ok(ev, m, k),
        ev.len() >= 2,
        pt(ev.last().point) == p,
        pt(ev[ev.len() - 2].point) == p,
        pulls(ev.last(), m, p) + pulls(ev[ev.len() - 2], m, p) == 0,
    ensures
        ({
            let (e1, e2) = (ev.last(), ev[ev.len() - 2]);
            let (a, b) = (far(e1, m), far(e2, m));
            let (v, w) = (look(m[e1.segment_key]).2, look(m[e2.segment_key]).2);
            let (ins, outs) = (ins2(ev, m), outs2(ev, m));
            &&& e1.ty is LineLeft && e2.ty is LineLeft ==> v != w && ins =~= Multiset::empty() && outs =~= if v is Clockwise { fan(p, a, b) } else { fan(p, b, a) }
            &&& e1.ty is LineRight && e2.ty is LineRight ==> v != w && outs =~= Multiset::empty() && ins =~= if v is Clockwise { close(a, b, p) } else { close(b, a, p) }
            &&& e1.ty is LineRight && e2.ty is LineLeft ==> v == w && lexr(a, b) == Ordering::Less && lexr(b, a) == Ordering::Greater && ins =~= Multiset::empty().insert((a, p, v)) && outs =~= Multiset::empty().insert((p, b, v))
            &&& e1.ty is LineLeft && e2.ty is LineRight ==> v == w && lexr(b, a) == Ordering::Less && lexr(a, b) == Ordering::Greater && ins =~= Multiset::empty().insert((b, p, v)) && outs =~= Multiset::empty().insert((p, a, v))
            &&& e1.ty is LineLeft || e1.ty is LineRight
            &&& e2.ty is LineLeft || e2.ty is LineRight
        }),
{
    let n = ev.len() as int;
    assert(event_ok(ev[n - 1], m, k) && event_ok(ev[n - 2], m, k));
    let (s, t) = (look(m[ev[n - 1].segment_key]), look(m[ev[n - 2].segment_key]));
    assert(lexr(s.0, s.1) == Ordering::Less && lexr(t.0, t.1) == Ordering::Less);
}

// the segments in the middle of an event: as before it but for helpers, which are in order before it and after it
spec fn tuned<T: GeoNum>(m0: Map<usize, Segment<T>>, m: Map<usize, Segment<T>>, k: usize, r0: Multiset<Look>, d0: Set<Spot>, r1: Multiset<Look>, d1: Set<Spot>) -> bool {
    kept(m0, m, k) && m.contains_key(k) && helped(m, r0, d0) && helped(m, r1, d1)
}

proof fn lemma_tune<T: GeoNum>(m0: Map<usize, Segment<T>>, m: Map<usize, Segment<T>>, k: usize, r0: Multiset<Look>, d0: Set<Spot>, r1: Multiset<Look>, d1: Set<Spot>, j: usize, s: Segment<T>)
    requires
        tuned(m0, m, k, r0, d0, r1, d1),
        m.contains_key(j),
        alike(m[j], s),
        s == m[j] || unmerged(s),
    ensures
        tuned(m0, m.insert(j, s), k, r0, d0, r1, d1),
{
    let w = m.insert(j, s);
    assert forall|i: usize| w.contains_key(i) implies helper_ok(#[trigger] w[i], r0, d0) && helper_ok(w[i], r1, d1) by {
        assert(m.contains_key(i));
        assert(helper_ok(m[i], r0, d0) && helper_ok(m[i], r1, d1));
    }
    assert forall|i: usize| m0.contains_key(i) && i != k implies alike(#[trigger] m0[i], w[i]) by {
        assert(alike(m0[i], m[i]));
    }
}

proof fn lemma_tune_last<T: GeoNum>(m0: Map<usize, Segment<T>>, m: Map<usize, Segment<T>>, k: usize, r0: Multiset<Look>, d0: Set<Spot>, r1: Multiset<Look>, d1: Set<Spot>, j: usize, s: Segment<T>)
    requires
        tuned(m0, m, k, r0, d0, r1, d1),
        m.contains_key(j),
        alike(m[j], s),
        helper_ok(s, r1, d1),
    ensures
        kept(m0, m.insert(j, s), k),
        m.insert(j, s).contains_key(k),
        helped(m.insert(j, s), r1, d1),
{
    let w = m.insert(j, s);
    assert forall|i: usize| w.contains_key(i) implies helper_ok(#[trigger] w[i], r1, d1) by {
        assert(m.contains_key(i));
        assert(helper_ok(m[i], r1, d1));
    }
    assert forall|i: usize| m0.contains_key(i) && i != k implies alike(#[trigger] m0[i], w[i]) by {
        assert(alike(m0[i], m[i]));
    }
}

spec fn now<T: GeoNum>(a: Sweep<T>, p: Spot, ty: VertexType, ls: Seq<Link<T>>) -> Now<T> {
    let (ev, m) = (a.events@, a.segments@);
    Now {
        p,
        ty,
        ls,
        r0: rights(ev, m),
        l0: lefts(ev, m),
        d0: due(ev),
        r1: rights(rest(ev), m),
        l1: lefts(rest(ev), m),
        d1: due(rest(ev)),
        ins: ins2(ev, m),
        outs: outs2(ev, m),
    }
}

proof fn lemma_told<T: GeoNum>(a: Sweep<T>, b: Sweep<T>, m0: Map<usize, Segment<T>>, p: Spot, ty: VertexType, ls: Seq<Link<T>>, e: SweepEvent<T>)
    requires
        running(a.events@, m0, a.pt_key),
        m0 == a.segments@,
        a.events@.len() >= 2,
        pt(a.events@.last().point) == p,
        pt(a.events@[a.events@.len() - 2].point) == p,
        a.events@.len() > 2 ==> pt(a.events@[a.events@.len() - 3].point) != p,
        b.events@ == rest(a.events@),
        b.pt_key == a.pt_key,
        kept(m0, b.segments@, a.pt_key),
        b.segments@.contains_key(a.pt_key),
        helped(b.segments@, rights(rest(a.events@), m0), due(rest(a.events@))),
        says(now(a, p, ty, ls)),
        e.ty == ty && e.links@ == ls && pt(e.pt) == p,
    ensures
        running(b.events@, b.segments@, b.pt_key),
        happens(happened(a, e, b), a, e, b),
{
    let ev = a.events@;
    let k = a.pt_key;
    lemma_event(ev, m0, k, p);
    lemma_kept(b.events@, m0, b.segments@, k);
    let n = now(a, p, ty, ls);
    assert(n.r0 =~= n.r1.add(n.ins) && n.l0 =~= n.l1.add(n.outs));
    assert(after(n));
    assert forall|q: Spot| #[trigger] weight(b.events@, b.segments@, q) == 0 by {
        assert(weight(rest(ev), m0, q) == 0);
    }
    assert(happens(n, a, e, b));
}

// a sweep that has not started, its events in no order
spec fn prior<T: GeoNum>(s: Sweep<T>) -> bool {
    &&& events_ok(s.events@, s.segments@, s.pt_key)
    &&& forall|j: usize| s.segments@.contains_key(j) ==> #[trigger] unmerged(s.segments@[j])
    &&& rights(s.events@, s.segments@) =~= lefts(s.events@, s.segments@)
}

spec fn unmerged<T: GeoNum>(s: Segment<T>) -> bool {
    s.helper matches Some(h) ==> !h.is_merge
}

spec fn fresh<T: GeoNum>(s: Sweep<T>) -> bool {
    prior(s) && level(s.events@, s.segments@)
}

// the weights when a ring is drawn from a to b
spec fn trail<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, a: Spot, b: Spot, w: WindingOrder) -> bool {
    forall|q: Spot| #[trigger] weight(ev, m, q) == times(sg(w), q == a) - times(sg(w), q == b)
}

proof fn lemma_trail_none<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, c: Seq<Spot>, w: WindingOrder)
    requires
        level(ev, m),
        c.len() > 0,
    ensures
        trail(ev, m, c[0], c[0], w),
{
    assert forall|q: Spot| #[trigger] weight(ev, m, q) == times(sg(w), q == c[0]) - times(sg(w), q == c[0]) by {
        assert(weight(ev, m, q) == 0);
    }
}

// one more edge of a ring
proof fn lemma_edge<T: GeoNum>(a: Sweep<T>, b: Sweep<T>, k: usize, s: Segment<T>, x: Event<T>, y: Event<T>, o: Spot, from: Spot, to: Spot, w: WindingOrder)
    requires
        prior(a),
        trail(a.events@, a.segments@, o, from, w),
        !a.segments@.contains_key(k),
        b.segments@ == a.segments@.insert(k, s),
        b.events@ == a.events@ + seq![x, y],
        b.pt_key == a.pt_key,
        from != to,
        segment_ok(s),
        look(s) == edge_look(from, to, w),
        unmerged(s),
        x.ty is LineLeft && y.ty is LineRight,
        x.segment_key == k && y.segment_key == k,
        pt(x.point) == look(s).0 && pt(y.point) == look(s).1,
    ensures
        prior(b),
        trail(b.events@, b.segments@, o, to, w),
        rights(b.events@, b.segments@) =~= rights(a.events@, a.segments@).insert(edge_look(from, to, w)),
{
    let ev = b.events@;
    let m = b.segments@;
    assert(kept(a.segments@, m, a.pt_key));
    lemma_kept(a.events@, a.segments@, m, a.pt_key);
    let u = a.events@.push(x);
    assert(ev =~= u.push(y));
    assert(ev.drop_last() =~= u && u.drop_last() =~= a.events@);
    assert(rights(ev, m) == rights(u, m).add(ending(y, m)) && rights(u, m) == rights(a.events@, m).add(ending(x, m)));
    assert(lefts(ev, m) == lefts(u, m).add(starting(y, m)) && lefts(u, m) == lefts(a.events@, m).add(starting(x, m)));
    assert forall|i: int| 0 <= i < ev.len() implies event_ok(#[trigger] ev[i], m, b.pt_key) by {
        if i < a.events@.len() {
            assert(event_ok(a.events@[i], m, a.pt_key));
        }
    }
    assert forall|q: Spot| #[trigger] weight(ev, m, q) == times(sg(w), q == o) - times(sg(w), q == to) by {
        let f = |e: Event<T>| pulls(e, m, q);
        assert(total(ev, f) == total(u, f) + f(y) && total(u, f) == total(a.events@, f) + f(x));
        assert(weight(a.events@, m, q) == weight(a.events@, a.segments@, q));
        assert(weight(a.events@, a.segments@, q) == times(sg(w), q == o) - times(sg(w), q == from));
    }
}

proof fn lemma_sorted<T: GeoNum>(a: Sweep<T>, b: Sweep<T>)
    requires
        fresh(a),
        a.active_segments.keys() == Set::<usize>::empty(),
        b.segments == a.segments && b.pt_key == a.pt_key && b.active_segments == a.active_segments,
        b.events@.to_multiset() == a.events@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < b.events@.len() ==> rev(ev_cmp(#[trigger] b.events@[i], #[trigger] b.events@[j])) != Ordering::Greater,
    ensures
        sound(b),
        rights(b.events@, b.segments@) == rights(a.events@, a.segments@),
        lefts(b.events@, b.segments@) == rights(a.events@, a.segments@),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = a.events@;
    let y = b.events@;
    let m = a.segments@;
    assert forall|i: int| 0 <= i < y.len() implies event_ok(#[trigger] y[i], m, a.pt_key) by {
        assert(y.contains(y[i]));
        assert(y.to_multiset().count(y[i]) > 0);
        assert(x.contains(y[i]));
        let j = x.index_of(y[i]);
        assert(event_ok(x[j], m, a.pt_key));
    }
    assert forall|l: Look| #[trigger] rights(y, m).count(l) == rights(x, m).count(l) && lefts(y, m).count(l) == lefts(x, m).count(l) by {
        lemma_counts(x, m, l);
        lemma_counts(y, m, l);
        lemma_total_perm(y, x, |e: Event<T>| one(ends_as(e, m, l)));
        lemma_total_perm(y, x, |e: Event<T>| one(starts_as(e, m, l)));
    }
    assert forall|l: Look| #[trigger] lefts(y, m).count(l) == lefts(x, m).count(l) by {
        assert(rights(y, m).count(l) == rights(x, m).count(l));
    }
    assert(rights(y, m) =~= rights(x, m));
    assert(lefts(y, m) =~= lefts(x, m));
    assert forall|q: Spot| #[trigger] weight(y, m, q) == 0 by {
        lemma_total_perm(y, x, |e: Event<T>| pulls(e, m, q));
        assert(weight(x, m, q) == 0);
    }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies lexr(pt((#[trigger] y[j]).point), pt((#[trigger] y[i]).point)) != Ordering::Greater by {
        assert(rev(ev_cmp(y[i], y[j])) != Ordering::Greater);
        lemma_lex_total(y[i].point, y[j].point, y[i].point);
    }
    lemma_found_events(y, m);
    lemma_due(y);
    assert forall|l: Look| #[trigger] rights(y, m).contains(l) implies due(y).contains(l.1) by {
        let i = choose|i: int| 0 <= i < y.len() && #[trigger] ends_as(y[i], m, l);
        assert(event_ok(y[i], m, a.pt_key));
    }
    assert forall|j: usize| m.contains_key(j) implies helper_ok(#[trigger] m[j], rights(y, m), due(y)) by {
        assert(unmerged(m[j]));
    }
}

impl<T: GeoNum> Sweep<T> {
//@@ fn get_next_segments self=Sweep file=src/monotone/sweep.rs
    fn get_next_segments(&self) -> (ret: Option<(SweepPoint<T>, usize)>) /*@
        ensures
            ret is None <==> self.events@.len() == 0,
            ret matches Some(r) ==> r.1 < self.events@.len() && r.0 == self.events@.last().point
                && (forall|i: int| r.1 <= i < self.events@.len() ==> pt((#[trigger] self.events@[i]).point) == pt(r.0))
                && (r.1 > 0 ==> pt(self.events@[r.1 - 1].point) != pt(r.0)),
    @*/ {
        let events_left = self.events.len();
        if events_left == 0 {
            return None;
        }
        let mut start_idx = events_left - 1;
        let next_point = self.events[start_idx].point;
        while start_idx > 0 /*@
            invariant
                start_idx < self.events@.len(),
                forall|i: int| start_idx <= i < self.events@.len() ==> pt((#[trigger] self.events@[i]).point) == pt(next_point),
            ensures
                start_idx > 0 ==> pt(self.events@[start_idx - 1].point) != pt(next_point),
            decreases start_idx,
        @*/ {
            if self.events[start_idx - 1].point != next_point {
                break;
            }
            start_idx -= 1;
        }
        Some((next_point, start_idx))
    }
//@@ end

//@@ fn find_intersection_type self=Sweep file=src/monotone/sweep.rs asserts=may
//@@ sub `let this = self . project ( ) ;` => `let this = & mut * self ;`
//@@ sub `& this . segments [ $*k ]` => `this . segments . at ( $*k )`
//@@ sub `. expect ( $*x )` => `. or_stop ( )`
    fn find_intersection_type(
        & mut self,
        pt: SweepPoint<T>,
        start_idx: usize,
    ) -> (ret: Intersection<T>) /*@
        requires
            events_ok(old(self).events@, old(self).segments@, old(self).pt_key),
            old(self).events@.len() >= 2,
            start_idx < old(self).events@.len(),
            forall|i: int| start_idx <= i < old(self).events@.len() ==> xy((#[trigger] old(self).events@[i]).point) == xy(pt),
        ensures
            start_idx == old(self).events@.len() - 2,
            final(self).events@ == rest(old(self).events@),
            final(self).segments == old(self).segments,
            final(self).pt_key == old(self).pt_key,
            final(self).active_segments == old(self).active_segments,
            ret.event_1 == old(self).events@.last(),
            ret.event_2 == old(self).events@[old(self).events@.len() - 2],
            xy(ret.other_1) == far(ret.event_1, old(self).segments@),
            xy(ret.other_2) == far(ret.event_2, old(self).segments@),
            ret.interior == look(old(self).segments@[ret.event_1.segment_key]).2,
            ret.ty == kind(ret.event_1, ret.event_2, old(self).segments@, xy(pt)),
    @*/ {
        rt_refuse(
            start_idx ==
            self.events.len() - 2);
        /*@ let ghost ev = self.events@; proof { assert(event_ok(ev[ev.len() - 1], self.segments@, self.pt_key)); assert(event_ok(ev[ev.len() - 2], self.segments@, self.pt_key)); assert(ev.drop_last().drop_last() =~= rest(ev)); } @*/ let this = & mut * self ;
        let e1 = this.events.pop().unwrap();
        let e2 = this.events.pop().unwrap();
        let s1 = this . segments . at ( e1.segment_key );
        rt_assert(s1.geom.is_line());
        let s2 = this . segments . at ( e2.segment_key );
        rt_assert(s2.geom.is_line());
        let other_1 = match e1.ty {
            EventType::LineLeft => s1.geom.line().end,
            EventType::LineRight => s1.geom.line().start,
            _ => rt_panic(),
        };
        let other_2 = match e2.ty {
            EventType::LineLeft => s2.geom.line().end,
            EventType::LineRight => s2.geom.line().start,
            _ => rt_panic(),
        };
        rt_assert(pt == e1.point);
        rt_assert(pt == e2.point);
        let orientation = orient2d(other_1, pt.coord(), other_2);
        let winding = winding_order_from_orientation(orientation);
        let int_winding = s1.interior_winding();
        /*@ proof { lemma_area_turn(xy(pt), at(other_1), at(other_2)); } @*/
        let ty = match (e1.ty, e2.ty) {
            (EventType::LineRight, EventType::LineRight) => {
                let winding = winding. or_stop ( );
                if winding == int_winding {
                    VertexType::End
                } else {
                    VertexType::Merge
                }
            }
            (EventType::LineRight, EventType::LineLeft)
            | (EventType::LineLeft, EventType::LineRight) => VertexType::Continue,
            (EventType::LineLeft, EventType::LineLeft) => {
                let winding = winding. or_stop ( );
                if winding != int_winding {
                    VertexType::Start
                } else {
                    VertexType::Split
                }
            }
            _ => rt_panic(),
        };
        Intersection {
            ty,
            event_1: e1,
            event_2: e2,
            other_1: other_1.into(),
            other_2: other_2.into(),
            orientation,
            interior: int_winding,
        }
    }
//@@ end

//@@ fn storage_index_mut self=Sweep file=src/monotone/sweep.rs
//@@ sub `Pin < & mut Segment < T > >` => `& mut Segment < T >`
//@@ sub `unsafe { self . map_unchecked_mut ( | s | & mut s . segments [ $*k ] ) }` => `self . segments . at_mut ( $*k )`
    fn storage_index_mut(& mut self, key: usize) -> (ret: & mut Segment < T >) /*@
        requires
            old(self).segments@.contains_key(key),
        ensures
            *ret == old(self).segments@[key],
            final(self).segments@ == old(self).segments@.insert(key, *final(ret)),
            final(self).pt_key == old(self).pt_key,
            final(self).events == old(self).events,
            final(self).active_segments == old(self).active_segments,
    @*/ {
        self . segments . at_mut ( key )
    }
//@@ end

//@@ fn store_point self=Sweep file=src/monotone/sweep.rs
//@@ sub `unsafe { * self . storage_index_mut ( pt_key ) . get_unchecked_mut ( ) = $*v ; }` => `* self . storage_index_mut ( pt_key ) = $*v ;`
    fn store_point(& mut self, coord: Coordinate<T>) /*@
        requires
            old(self).segments@.contains_key(old(self).pt_key),
        ensures
            kept(old(self).segments@, final(self).segments@, old(self).pt_key),
            final(self).segments@.contains_key(old(self).pt_key) && final(self).segments@[old(self).pt_key].helper is None,
            forall|j: usize| final(self).segments@.contains_key(j) && j != old(self).pt_key ==> old(self).segments@.contains_key(j) && #[trigger] final(self).segments@[j] == old(self).segments@[j],
            final(self).pt_key == old(self).pt_key,
            final(self).events == old(self).events,
            final(self).active_segments == old(self).active_segments,
    @*/ {
        let pt_key = self.pt_key;
        * self . storage_index_mut ( pt_key ) = Segment::new_point(pt_key, coord) ;
    }
//@@ end

//@@ fn add_closed_ring self=Sweep file=src/monotone/sweep.rs asserts=may
//@@ sub `. expect ( $*x )` => `. or_stop ( )`
//@@ sub `for line in ring . lines ( ) { $*b }` => `let mut at_line : usize = 0 ; while at_line + 1 < ring . 0 . len ( ) { let line = Line :: new ( ring . 0 [ at_line ] , ring . 0 [ at_line + 1 ] ) ; at_line = at_line + 1 ; $*b }`
//@@ sub `let entry = self . segments . vacant_entry ( ) ;` => `let entry = self . segments . vacant_key ( ) ;`
//@@ sub `entry . key ( )` => `entry`
//@@ sub `for ev in entry . insert ( $*v ) . events ( ) { $*b }` => `let evs = self . segments . put ( entry , $*v ) . events ( ) ; let mut at_ev : usize = 0 ; while at_ev < 2 { let ev = evs [ at_ev ] . dup ( ) ; $*b at_ev = at_ev + 1 ; }`
    fn add_closed_ring(&mut self, ring: &LineString<T>, is_hole: bool) /*@
        requires
            fresh(*old(self)),
        ensures
            fresh(*final(self)),
            rights(final(self).events@, final(self).segments@) =~= rights(old(self).events@, old(self).segments@).add(ring_edges(pts(*ring), if is_hole { flip(inside(*ring)) } else { inside(*ring) })),
            final(self).pt_key == old(self).pt_key,
            final(self).active_segments == old(self).active_segments,
    @*/ {
        rt_refuse(ring.is_closed());
        rt_refuse(ring.coords_count() > 3);
        let winding = {
            let winding = ring.winding_order(). or_stop ( );
            if is_hole {
                winding_inverse(winding)
            } else {
                winding
            }
        };
        /*@ let ghost c = pts(*ring);
        let ghost was = *self;
        proof {
            assert(c.take(1).len() == 1);
            assert(rights(self.events@, self.segments@) =~= rights(was.events@, was.segments@).add(ring_edges(c.take(1), winding)));
            lemma_trail_none(self.events@, self.segments@, c, winding);
        } @*/
        let mut at_line : usize = 0 ; while at_line + 1 < ring . 0 . len ( ) /*@
            invariant
                3 < ring.0@.len() <= usize::MAX, c == pts(*ring), at_line < ring.0@.len(),
                prior(*self), self.pt_key == was.pt_key, self.active_segments == was.active_segments,
                rights(self.events@, self.segments@) =~= rights(was.events@, was.segments@).add(ring_edges(c.take(at_line + 1), winding)),
                trail(self.events@, self.segments@, c[0], c[at_line as int], winding),
            decreases ring.0@.len() - at_line,
        @*/ { /*@ let ghost i = at_line as int; let ghost mid = *self; @*/ let line = Line :: new ( ring . 0 [ at_line ] , ring . 0 [ at_line + 1 ] ) ; at_line = at_line + 1 ; /*@ proof { assert(c.take(at_line + 1).drop_last() =~= c.take(at_line as int)); assert(c[i] == at(line.start) && c[i + 1] == at(line.end)); } @*/ if line.start == line.end {
                continue;
            }
            let entry = self . segments . vacant_key ( ) ;
            let segment = Segment::new(entry, line, winding. dup ( ));
            let evs = self . segments . put ( entry , segment ) . events ( ) ;
            /*@ proof { assert(evs@.take(0) =~= Seq::empty()); assert(self.events@ =~= mid.events@ + evs@.take(0)); } @*/
            let mut at_ev : usize = 0 ; while at_ev < 2 /*@
                invariant
                    at_ev <= 2, evs@.len() == 2, self.events@ == mid.events@ + evs@.take(at_ev as int),
                    self.segments@ == mid.segments@.insert(entry, segment), self.pt_key == mid.pt_key, self.active_segments == mid.active_segments,
                decreases 2 - at_ev,
            @*/ { /*@ proof { assert(evs@.take(at_ev + 1) =~= evs@.take(at_ev as int).push(evs@[at_ev as int])); assert(mid.events@ + evs@.take(at_ev + 1) =~= (mid.events@ + evs@.take(at_ev as int)).push(evs@[at_ev as int])); } @*/ let ev = evs [ at_ev ] . dup ( ) ; self.events.push(ev); at_ev = at_ev + 1 ; }
            /*@ proof {
                assert(evs@.take(2) =~= seq![evs@[0], evs@[1]]);
                lemma_edge(mid, *self, entry, segment, evs@[0], evs@[1], c[0], c[i], c[i + 1], winding);
            } @*/ }
        /*@ proof {
            assert(c.take(c.len() as int) =~= c);
        } @*/
    }
//@@ end

//@@ fn from_polygon self=Sweep file=src/monotone/sweep.rs asserts=may
//@@ sub `let entry = segments . vacant_entry ( ) ;` => `let entry = segments . vacant_key ( ) ;`
//@@ sub `entry . key ( )` => `entry`
//@@ sub `entry . insert ( $*v )` => `segments . put ( entry , $*v )`
//@@ sub `Coordinate :: zero ( )` => `origin ( )`
//@@ sub `_pin : PhantomPinned ,` => ``
//@@ sub `BTreeSet :: new ( )` => `Keys :: new ( )`
//@@ sub `for hole in poly . interiors ( ) { $*b }` => `let mut at_hole : usize = 0 ; while at_hole < poly . interiors ( ) . len ( ) { let hole = & poly . interiors ( ) [ at_hole ] ; $*b at_hole = at_hole + 1 ; }`
//@@ sub `sweep . events . sort_unstable ( )` => `sort_events ( & mut sweep . events )`
    fn from_polygon(poly: &Polygon<T>) -> (ret: Self) /*@
        ensures
            sound(ret),
            rights(ret.events@, ret.segments@) == edges(*poly),
            lefts(ret.events@, ret.segments@) == edges(*poly),
    @*/ {
        let n = poly.coords_count();
        let mut segments = Slab::with_capacity(n + 1);
        let events = Vec::with_capacity(2 * n);
        let entry = segments . vacant_key ( ) ;
        let pt_key = entry;
        rt_refuse(pt_key == 0);
        segments . put ( entry , Segment::new_point(pt_key, origin ( )) );
        let mut sweep = Sweep {
            segments,
            events,
            pt_key,
            active_segments: Keys :: new ( ),
        };
        /*@ proof { lemma_none(sweep.events@, sweep.segments@); } @*/ sweep.add_closed_ring(poly.exterior(), false);
        /*@ proof { assert(poly.ints@.take(0).len() == 0); assert(rights(sweep.events@, sweep.segments@) =~= ring_edges(pts(poly.ext), inside(poly.ext)).add(hole_edges(poly.ints@.take(0)))); } @*/
        let mut at_hole : usize = 0 ; while at_hole < poly . interiors ( ) . len ( ) /*@
            invariant
                at_hole <= poly.ints@.len(), fresh(sweep), sweep.active_segments.keys() == Set::<usize>::empty(),
                rights(sweep.events@, sweep.segments@) =~= ring_edges(pts(poly.ext), inside(poly.ext)).add(hole_edges(poly.ints@.take(at_hole as int))),
            decreases poly.ints@.len() - at_hole,
        @*/ { /*@ proof { assert(poly.ints@.take(at_hole + 1).drop_last() =~= poly.ints@.take(at_hole as int)); } @*/ let hole = & poly . interiors ( ) [ at_hole ] ; sweep.add_closed_ring(hole, true); at_hole = at_hole + 1 ; }
        /*@ proof { assert(poly.ints@.take(poly.ints@.len() as int) =~= poly.ints@); } let ghost unsorted = sweep; @*/ sort_events ( & mut sweep . events ); /*@ proof {
            let y = sweep.events@;
            assert forall|i: int, j: int| 0 <= i < j < y.len() implies rev(ev_cmp(#[trigger] y[i], #[trigger] y[j])) != Ordering::Greater by {
                assert(vstd::std_specs::cmp::OrdSpec::cmp_spec(&y[i], &y[j]) != Ordering::Greater);
            }
            lemma_sorted(unsorted, sweep);
        } @*/
        sweep
    }
//@@ end

//@@ fn process_event self=Sweep file=src/monotone/sweep.rs
//@@ sub `let mut handle_remove = | e : & Event < T > | { if ! $*c { return ; } $*b } ; handle_remove ( $*x ) ; handle_remove ( $*y ) ;` => `{ let e = $*x ; if $*c { $*b } } { let e = $*y ; if $*c { $*b } }`
//@@ sub `let mut handle_insert = | e : & Event < T > | { if ! $*c { return ; } $*b } ; handle_insert ( $*x ) ; handle_insert ( $*y ) ;` => `{ let e = $*x ; if $*c { $*b } } { let e = $*y ; if $*c { $*b } }`
//@@ sub `let mut fix_up = | force : bool , is_merge : bool | { $*b } ; match ixn . ty { VertexType :: Continue => { if $*c { fix_up ( $f1 , $m1 ) ; } $*q } VertexType :: Split => fix_up ( $f2 , $m2 ) , VertexType :: Merge => fix_up ( $f3 , $m3 ) , $*s }` => `match ixn . ty { VertexType :: Continue => { if $*c { let force = $f1 ; let is_merge = $m1 ; $*b } $*q } VertexType :: Split => { let force = $f2 ; let is_merge = $m2 ; $*b } VertexType :: Merge => { let force = $f3 ; let is_merge = $m3 ; $*b } $*s }`
//@@ sub `let this = self . as_mut ( ) . project ( ) ;` => ``
//@@ sub `* this . pt_key` => `self . pt_key`
//@@ sub `this . active_segments` => `self . active_segments`
//@@ sub `& this . segments` => `& self . segments`
//@@ sub `. expect ( $*x )` => `. or_stop ( )`
//@@ sub `& self . segments [ $*k ]` => `self . segments . at ( $*k )`
    fn process_event(& mut self) -> (ret: Option<SweepEvent<T>>) /*@
        requires
            sound(*old(self)),
        ensures
            match ret {
                Some(e) => sound(*final(self)) && happens(happened(*old(self), e, *final(self)), *old(self), e, *final(self)) && final(self).events@.len() < old(self).events@.len(),
                None => old(self).events@.len() == 0 && *final(self) == *old(self),
            },
    @*/ { /*@ let ghost was = *self; let ghost ev = self.events@; let ghost m0 = self.segments@; let ghost k = self.pt_key; proof { lemma_not_one(ev, m0); } @*/
        let mut links = Links::new();
        let (pt, segs) = match self.get_next_segments() {
            Some(e) => e,
            None => return None,
        };
        let ixn = self.find_intersection_type(pt, segs);
        /*@ let ghost p = xy(pt);
        let ghost (e1, e2) = (ixn.event_1, ixn.event_2);
        let ghost (r0, d0, r1, d1) = (rights(ev, m0), due(ev), rights(rest(ev), m0), due(rest(ev)));
        let ghost (ins, outs) = (ins2(ev, m0), outs2(ev, m0));
        proof {
            lemma_event(ev, m0, k, p);
            lemma_shape(ev, m0, k, p);
            assert(event_ok(ev[ev.len() - 1], m0, k) && event_ok(ev[ev.len() - 2], m0, k));
            assert forall|l: Look| #[trigger] ins.contains(l) implies r0.contains(l) by {
                assert(r0.count(l) == r1.count(l) + ins.count(l));
            }
        } @*/
        self.store_point(pt.coord());
        /*@ proof {
            assert forall|j: usize| self.segments@.contains_key(j) implies helper_ok(#[trigger] self.segments@[j], r0, d0) && helper_ok(self.segments@[j], r1, d1) by {
                if j != k {
                    assert(self.segments@[j] == m0[j]);
                    assert(helper_ok(m0[j], r0, d0) && helper_ok(m0[j], r1, d1));
                }
            }
            assert(tuned(m0, self.segments@, k, r0, d0, r1, d1));
        } @*/
        { let e = &ixn.event_1 ; if (match e.ty { EventType::LineRight => true, _ => false }) { /*@ let ghost mA = self.segments@; let ghost ls = links@; proof { assert(helper_ok(mA[e.segment_key], r0, d0)); } @*/ let segment = self.storage_index_mut(e.segment_key);
            if let Some(helper) = &segment.helper() {
                if helper.is_merge() {
                    let pt2 = helper.point();
                    segment.helper_mut().unwrap().reset_merge();
                    links.push(Link::Merge {
                        prev: pt2,
                        next: pt,
                        limbs: None,
                    });
                }
            }
            
            /*@ proof {
                let s = self.segments@[e.segment_key];
                assert(self.segments@ =~= mA.insert(e.segment_key, s));
                lemma_tune(m0, mA, k, r0, d0, r1, d1, e.segment_key, s);
                if links@.len() > ls.len() {
                    assert(links@ =~= ls.push(links@.last()));
                    assert(merge_ok(links@.last(), p, d0, ins));
                }
                assert forall|i: int| 0 <= i < links@.len() implies merge_ok(#[trigger] links@[i], p, d0, ins) by {
                    if i < ls.len() {
                        assert(merge_ok(ls[i], p, d0, ins));
                    }
                }
            } @*/ self . active_segments
                .remove_key(e.segment_key, & self . segments); } } { let e = &ixn.event_2 ; if (match e.ty { EventType::LineRight => true, _ => false }) { /*@ let ghost mA = self.segments@; let ghost ls = links@; proof { assert(helper_ok(mA[e.segment_key], r0, d0)); } @*/ let segment = self.storage_index_mut(e.segment_key);
            if let Some(helper) = &segment.helper() {
                if helper.is_merge() {
                    let pt2 = helper.point();
                    segment.helper_mut().unwrap().reset_merge();
                    links.push(Link::Merge {
                        prev: pt2,
                        next: pt,
                        limbs: None,
                    });
                }
            }
            
            /*@ proof {
                let s = self.segments@[e.segment_key];
                assert(self.segments@ =~= mA.insert(e.segment_key, s));
                lemma_tune(m0, mA, k, r0, d0, r1, d1, e.segment_key, s);
                if links@.len() > ls.len() {
                    assert(links@ =~= ls.push(links@.last()));
                    assert(merge_ok(links@.last(), p, d0, ins));
                }
                assert forall|i: int| 0 <= i < links@.len() implies merge_ok(#[trigger] links@[i], p, d0, ins) by {
                    if i < ls.len() {
                        assert(merge_ok(ls[i], p, d0, ins));
                    }
                }
            } @*/ self . active_segments
                .remove_key(e.segment_key, & self . segments); } }
        /*@ proof { assert(merges(links@, links@.len() as int, p, d0, ins)); assert(alike(m0[e1.segment_key], self.segments@[e1.segment_key])); assert(alike(m0[e2.segment_key], self.segments@[e2.segment_key])); assert(ixn.ty is Continue ==> look(m0[e1.segment_key]).2 == look(m0[e2.segment_key]).2); } let ghost mB = self.segments@; let ghost lsB = links@; @*/ let winding = {
            let s1 = self . segments . at ( ixn.event_1.segment_key );
            let s2 = self . segments . at ( ixn.event_2.segment_key );
            if (match ixn.ty { VertexType::Continue => true, _ => false }) {
                rt_assert(
                    &s1.interior_winding() ==
                    &s2.interior_winding());
            }
            s1.interior_winding()
        };
        match ixn . ty { VertexType :: Continue => { if winding == WindingOrder::CounterClockwise { let force = false ; let is_merge = false ; let next = {
                
                self . active_segments
                    .next_key(self . pt_key, & self . segments)
                    . or_stop ( )
            };
            /*@ proof { assert(self.segments@.contains_key(next)); assert(helper_ok(mB[next], r0, d0)); } @*/
            let segment = self.storage_index_mut(next);
            let helper = segment
                .helper()
                . or_stop ( );
            let (top, bot) = if ixn.interior != WindingOrder::Clockwise {
                (ixn.other_1, ixn.other_2)
            } else {
                (ixn.other_2, ixn.other_1)
            };
            if helper.is_merge() || force {
                let pt2 = helper.point();
                links.push(if helper.is_merge() {
                    Link::Merge {
                        prev: pt2,
                        next: pt,
                        limbs: Some((top, bot)),
                    }
                } else {
                    Link::Split {
                        prev: pt2,
                        next: pt,
                        top,
                        bot,
                    }
                });
                if !is_merge {
                    segment.helper_mut().unwrap().reset_merge();
                }
            }
            /*@ let ghost mC = self.segments@; @*/
            let segment = self.storage_index_mut(next);
            let helper = segment.helper_mut().unwrap();
            *helper.point_mut() = pt;
            if is_merge {
                helper.set_merge();
            }
            /*@ proof {
                let s = self.segments@[next];
                assert(self.segments@ =~= mB.insert(next, s));
                if is_merge {
                    lemma_tune_last(m0, mB, k, r0, d0, r1, d1, next, s);
                } else {
                    lemma_tune(m0, mB, k, r0, d0, r1, d1, next, s);
                }
                if links@.len() > lsB.len() {
                    assert(links@ =~= lsB.push(links@.last()));
                }
                assert forall|i: int| 0 <= i < lsB.len() implies merge_ok(#[trigger] links@[i], p, d0, ins) by {
                    assert(merge_ok(lsB[i], p, d0, ins));
                }
            } @*/ } let (pt1, pt2) = {
                    if ixn.other_1 > ixn.other_2 {
                        (ixn.other_2, ixn.other_1)
                    } else if ixn.other_1 < ixn.other_2 {
                        (ixn.other_1, ixn.other_2)
                    } else {
                        rt_panic();
                    }
                };
                links.push(Link::Continue {
                    prev: pt1,
                    curr: pt,
                    next: pt2,
                    interior: ixn.interior,
                }); } VertexType :: Split => { let force = true ; let is_merge = false ; let next = {
                
                self . active_segments
                    .next_key(self . pt_key, & self . segments)
                    . or_stop ( )
            };
            /*@ proof { assert(self.segments@.contains_key(next)); assert(helper_ok(mB[next], r0, d0)); } @*/
            let segment = self.storage_index_mut(next);
            let helper = segment
                .helper()
                . or_stop ( );
            let (top, bot) = if ixn.interior != WindingOrder::Clockwise {
                (ixn.other_1, ixn.other_2)
            } else {
                (ixn.other_2, ixn.other_1)
            };
            if helper.is_merge() || force {
                let pt2 = helper.point();
                links.push(if helper.is_merge() {
                    Link::Merge {
                        prev: pt2,
                        next: pt,
                        limbs: Some((top, bot)),
                    }
                } else {
                    Link::Split {
                        prev: pt2,
                        next: pt,
                        top,
                        bot,
                    }
                });
                if !is_merge {
                    segment.helper_mut().unwrap().reset_merge();
                }
            }
            /*@ let ghost mC = self.segments@; @*/
            let segment = self.storage_index_mut(next);
            let helper = segment.helper_mut().unwrap();
            *helper.point_mut() = pt;
            if is_merge {
                helper.set_merge();
            }
            /*@ proof {
                let s = self.segments@[next];
                assert(self.segments@ =~= mB.insert(next, s));
                if is_merge {
                    lemma_tune_last(m0, mB, k, r0, d0, r1, d1, next, s);
                } else {
                    lemma_tune(m0, mB, k, r0, d0, r1, d1, next, s);
                }
                if links@.len() > lsB.len() {
                    assert(links@ =~= lsB.push(links@.last()));
                }
                assert forall|i: int| 0 <= i < lsB.len() implies merge_ok(#[trigger] links@[i], p, d0, ins) by {
                    assert(merge_ok(lsB[i], p, d0, ins));
                }
            } @*/ } VertexType :: Merge => { let force = false ; let is_merge = true ; let next = {
                
                self . active_segments
                    .next_key(self . pt_key, & self . segments)
                    . or_stop ( )
            };
            /*@ proof { assert(self.segments@.contains_key(next)); assert(helper_ok(mB[next], r0, d0)); } @*/
            let segment = self.storage_index_mut(next);
            let helper = segment
                .helper()
                . or_stop ( );
            let (top, bot) = if ixn.interior != WindingOrder::Clockwise {
                (ixn.other_1, ixn.other_2)
            } else {
                (ixn.other_2, ixn.other_1)
            };
            if helper.is_merge() || force {
                let pt2 = helper.point();
                links.push(if helper.is_merge() {
                    Link::Merge {
                        prev: pt2,
                        next: pt,
                        limbs: Some((top, bot)),
                    }
                } else {
                    Link::Split {
                        prev: pt2,
                        next: pt,
                        top,
                        bot,
                    }
                });
                if !is_merge {
                    segment.helper_mut().unwrap().reset_merge();
                }
            }
            /*@ let ghost mC = self.segments@; @*/
            let segment = self.storage_index_mut(next);
            let helper = segment.helper_mut().unwrap();
            *helper.point_mut() = pt;
            if is_merge {
                helper.set_merge();
            }
            /*@ proof {
                let s = self.segments@[next];
                assert(self.segments@ =~= mB.insert(next, s));
                if is_merge {
                    lemma_tune_last(m0, mB, k, r0, d0, r1, d1, next, s);
                } else {
                    lemma_tune(m0, mB, k, r0, d0, r1, d1, next, s);
                }
                if links@.len() > lsB.len() {
                    assert(links@ =~= lsB.push(links@.last()));
                }
                assert forall|i: int| 0 <= i < lsB.len() implies merge_ok(#[trigger] links@[i], p, d0, ins) by {
                    assert(merge_ok(lsB[i], p, d0, ins));
                }
            } @*/ } VertexType::End => {
                let (top, bot) = if ixn.interior == WindingOrder::Clockwise {
                    (ixn.other_1, ixn.other_2)
                } else {
                    (ixn.other_2, ixn.other_1)
                };
                links.push(Link::End { top, bot, sink: pt });
            }
            VertexType::Start => {
                let (top, bot) = if ixn.interior == WindingOrder::Clockwise {
                    (ixn.other_1, ixn.other_2)
                } else {
                    (ixn.other_2, ixn.other_1)
                };
                links.push(Link::Start { root: pt, top, bot });
            } }
        { let e = &ixn.event_1 ; if (match e.ty { EventType::LineLeft => true, _ => false }) { 
            unsafe {
                self . active_segments
                    .add_key(e.segment_key, & self . segments);
            } } } { let e = &ixn.event_2 ; if (match e.ty { EventType::LineLeft => true, _ => false }) { 
            unsafe {
                self . active_segments
                    .add_key(e.segment_key, & self . segments);
            } } }
        /*@ proof { lemma_told(was, *self, m0, p, ixn.ty, links@, SweepEvent { pt, links, ty: ixn.ty }); } @*/ Some(SweepEvent {
            pt,
            links,
            ty: ixn.ty,
        })
    }
//@@ end
}
