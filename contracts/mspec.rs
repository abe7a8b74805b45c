// ---- the state of the sweep ------------------------------------------------------------------
spec fn total<T: GeoNum>(ev: Seq<Event<T>>, f: spec_fn(Event<T>) -> int) -> int
    decreases ev.len(),
{
    if ev.len() == 0 {
        0
    } else {
        total(ev.drop_last(), f) + f(ev.last())
    }
}

proof fn lemma_total_remove<T: GeoNum>(ev: Seq<Event<T>>, i: int, f: spec_fn(Event<T>) -> int)
    requires
        0 <= i < ev.len(),
    ensures
        total(ev, f) == total(ev.remove(i), f) + f(ev[i]),
    decreases ev.len(),
{
    if i == ev.len() - 1 {
        assert(ev.remove(i) =~= ev.drop_last());
    } else {
        lemma_total_remove(ev.drop_last(), i, f);
        assert(ev.remove(i).drop_last() =~= ev.drop_last().remove(i));
        assert(ev.remove(i).last() == ev.last());
    }
}

proof fn lemma_total_perm<T: GeoNum>(a: Seq<Event<T>>, b: Seq<Event<T>>, f: spec_fn(Event<T>) -> int)
    requires
        a.to_multiset() == b.to_multiset(),
    ensures
        total(a, f) == total(b, f),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() == 0 {
        assert(b.len() == 0);
    } else {
        let x = a.last();
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let i = b.index_of(x);
        let c = b.remove(i);
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(c.to_multiset() =~= b.to_multiset().remove(x));
        assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x));
        lemma_total_perm(a.drop_last(), c, f);
        lemma_total_remove(b, i, f);
    }
}

proof fn lemma_total_same<T: GeoNum>(a: Seq<Event<T>>, f: spec_fn(Event<T>) -> int, g: spec_fn(Event<T>) -> int)
    requires
        forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i]) == g(a[i]),
    ensures
        total(a, f) == total(a, g),
    decreases a.len(),
{
    if a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies f(#[trigger] b[i]) == g(b[i]) by {
            assert(b[i] == a[i]);
        }
        lemma_total_same(b, f, g);
        assert(f(a[a.len() - 1]) == g(a[a.len() - 1]));
    }
}

// the edges whose right ends are to come
spec fn rights<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>) -> Multiset<Look>
    decreases ev.len(),
{
    if ev.len() == 0 {
        Multiset::empty()
    } else {
        rights(ev.drop_last(), m).add(ending(ev.last(), m))
    }
}

spec fn ending<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>) -> Multiset<Look> {
    if e.ty is LineRight {
        Multiset::empty().insert(look(m[e.segment_key]))
    } else {
        Multiset::empty()
    }
}

spec fn lefts<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>) -> Multiset<Look>
    decreases ev.len(),
{
    if ev.len() == 0 {
        Multiset::empty()
    } else {
        lefts(ev.drop_last(), m).add(starting(ev.last(), m))
    }
}

spec fn starting<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>) -> Multiset<Look> {
    if e.ty is LineLeft {
        Multiset::empty().insert(look(m[e.segment_key]))
    } else {
        Multiset::empty()
    }
}

// the points to come
spec fn due<T: GeoNum>(ev: Seq<Event<T>>) -> Set<Spot> {
    ev.map_values(|e: Event<T>| pt(e.point)).to_set()
}

proof fn lemma_due<T: GeoNum>(ev: Seq<Event<T>>)
    ensures
        forall|q: Spot| #[trigger] due(ev).contains(q) <==> exists|i: int| 0 <= i < ev.len() && pt((#[trigger] ev[i]).point) == q,
        forall|i: int| 0 <= i < ev.len() ==> due(ev).contains(pt((#[trigger] ev[i]).point)),
{
    let s = ev.map_values(|e: Event<T>| pt(e.point));
    assert forall|i: int| 0 <= i < ev.len() implies due(ev).contains(pt((#[trigger] ev[i]).point)) by {
        assert(s[i] == pt(ev[i].point));
    }
    assert forall|q: Spot| #[trigger] due(ev).contains(q) implies exists|i: int| 0 <= i < ev.len() && pt((#[trigger] ev[i]).point) == q by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == q;
        assert(pt(ev[i].point) == q);
    }
}

spec fn ends_as<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>, l: Look) -> bool {
    e.ty is LineRight && look(m[e.segment_key]) == l
}

spec fn starts_as<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>, l: Look) -> bool {
    e.ty is LineLeft && look(m[e.segment_key]) == l
}

proof fn lemma_counts<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, l: Look)
    ensures
        rights(ev, m).count(l) == total(ev, |e: Event<T>| one(ends_as(e, m, l))),
        lefts(ev, m).count(l) == total(ev, |e: Event<T>| one(starts_as(e, m, l))),
    decreases ev.len(),
{
    if ev.len() > 0 {
        lemma_counts(ev.drop_last(), m, l);
    }
}

proof fn lemma_total_found<T: GeoNum>(ev: Seq<Event<T>>, f: spec_fn(Event<T>) -> int)
    requires
        total(ev, f) != 0,
    ensures
        exists|i: int| 0 <= i < ev.len() && f(#[trigger] ev[i]) != 0,
    decreases ev.len(),
{
    if ev.len() > 0 {
        let b = ev.drop_last();
        if f(ev.last()) != 0 {
            assert(f(ev[ev.len() - 1]) != 0);
        } else {
            lemma_total_found(b, f);
            let i = choose|i: int| 0 <= i < b.len() && f(#[trigger] b[i]) != 0;
            assert(ev[i] == b[i]);
        }
    }
}

proof fn lemma_found_events<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>)
    ensures
        forall|l: Look| #[trigger] rights(ev, m).contains(l) ==> exists|i: int| 0 <= i < ev.len() && #[trigger] ends_as(ev[i], m, l),
        forall|l: Look| #[trigger] lefts(ev, m).contains(l) ==> exists|i: int| 0 <= i < ev.len() && #[trigger] starts_as(ev[i], m, l),
{
    assert forall|l: Look| #[trigger] rights(ev, m).contains(l) implies exists|i: int| 0 <= i < ev.len() && #[trigger] ends_as(ev[i], m, l) by {
        let f = |e: Event<T>| one(ends_as(e, m, l));
        lemma_counts(ev, m, l);
        lemma_total_found(ev, f);
        let i = choose|i: int| 0 <= i < ev.len() && f(#[trigger] ev[i]) != 0;
        assert(ends_as(ev[i], m, l));
    }
    assert forall|l: Look| #[trigger] lefts(ev, m).contains(l) implies exists|i: int| 0 <= i < ev.len() && #[trigger] starts_as(ev[i], m, l) by {
        let f = |e: Event<T>| one(starts_as(e, m, l));
        lemma_counts(ev, m, l);
        lemma_total_found(ev, f);
        let i = choose|i: int| 0 <= i < ev.len() && f(#[trigger] ev[i]) != 0;
        assert(starts_as(ev[i], m, l));
    }
}

// an end of an edge pulls on its point: at every point the pulls of the ends there are balanced
spec fn pulls<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>, q: Spot) -> int {
    if pt(e.point) != q {
        0
    } else if e.ty is LineLeft {
        sg(look(m[e.segment_key]).2)
    } else {
        -sg(look(m[e.segment_key]).2)
    }
}

spec fn weight<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, q: Spot) -> int {
    total(ev, |e: Event<T>| pulls(e, m, q))
}

spec fn event_ok<T: GeoNum>(e: Event<T>, m: Map<usize, Segment<T>>, k: usize) -> bool {
    let s = m[e.segment_key];
    &&& e.ty is LineLeft || e.ty is LineRight
    &&& m.contains_key(e.segment_key) && e.segment_key != k
    &&& segment_ok(s)
    &&& pt(e.point) == if e.ty is LineLeft { look(s).0 } else { look(s).1 }
}

spec fn events_ok<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, k: usize) -> bool {
    &&& m.contains_key(k)
    &&& forall|i: int| 0 <= i < ev.len() ==> event_ok(#[trigger] ev[i], m, k)
}

// two segments that differ in their helper only
spec fn alike<T: GeoNum>(a: Segment<T>, b: Segment<T>) -> bool {
    a.geom == b.geom && (a.helper is Some <==> b.helper is Some)
}

// the segments but that at k keep their edges
spec fn kept<T: GeoNum>(a: Map<usize, Segment<T>>, b: Map<usize, Segment<T>>, k: usize) -> bool {
    &&& forall|j: usize| #[trigger] a.contains_key(j) ==> b.contains_key(j)
    &&& forall|j: usize| a.contains_key(j) && j != k ==> alike(#[trigger] a[j], b[j])
}

proof fn lemma_kept<T: GeoNum>(ev: Seq<Event<T>>, a: Map<usize, Segment<T>>, b: Map<usize, Segment<T>>, k: usize)
    requires
        events_ok(ev, a, k),
        kept(a, b, k),
    ensures
        events_ok(ev, b, k),
        rights(ev, b) == rights(ev, a),
        lefts(ev, b) == lefts(ev, a),
        forall|q: Spot| #[trigger] weight(ev, b, q) == weight(ev, a, q),
    decreases ev.len(),
{
    assert forall|i: int| 0 <= i < ev.len() implies event_ok(#[trigger] ev[i], b, k) by {
        assert(event_ok(ev[i], a, k));
        assert(alike(a[ev[i].segment_key], b[ev[i].segment_key]));
    }
    if ev.len() > 0 {
        let e = ev.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies event_ok(#[trigger] e[i], a, k) by {
            assert(event_ok(ev[i], a, k));
        }
        lemma_kept(e, a, b, k);
        let x = ev.last();
        assert(event_ok(ev[ev.len() - 1], a, k));
        assert(alike(a[x.segment_key], b[x.segment_key]));
        assert(ending(x, a) == ending(x, b) && starting(x, a) == starting(x, b));
        assert forall|q: Spot| #[trigger] weight(ev, b, q) == weight(ev, a, q) by {
            assert(weight(e, b, q) == weight(e, a, q));
            assert(pulls(x, a, q) == pulls(x, b, q));
        }
    }
}

// the last event comes first
spec fn ordered<T: GeoNum>(ev: Seq<Event<T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ev.len() ==> lexr(pt((#[trigger] ev[j]).point), pt((#[trigger] ev[i]).point)) != Ordering::Greater
}

// edges of which more right ends than left ends are to come have started
spec fn linked(r: Multiset<Look>, l: Multiset<Look>, d: Set<Spot>) -> bool {
    &&& tidy(r, l, d)
    &&& forall|k: Look| #[trigger] r.count(k) > l.count(k) ==> !d.contains(k.0)
}

// the chains that wait to be merged wait at an earlier point, where no edge to come starts
spec fn helper_ok<T: GeoNum>(s: Segment<T>, r: Multiset<Look>, d: Set<Spot>) -> bool {
    s.helper matches Some(h) ==> h.is_merge ==> !d.contains(pt(h.point)) && forall|k: Look| #[trigger] r.contains(k) ==> k.0 != pt(h.point)
}

spec fn helped<T: GeoNum>(m: Map<usize, Segment<T>>, r: Multiset<Look>, d: Set<Spot>) -> bool {
    forall|j: usize| m.contains_key(j) ==> helper_ok(#[trigger] m[j], r, d)
}

spec fn level<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>) -> bool {
    forall|q: Spot| #[trigger] weight(ev, m, q) == 0
}

spec fn running<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, k: usize) -> bool {
    &&& events_ok(ev, m, k)
    &&& ordered(ev)
    &&& level(ev, m)
    &&& linked(rights(ev, m), lefts(ev, m), due(ev))
    &&& helped(m, rights(ev, m), due(ev))
}

proof fn lemma_not_one<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>)
    requires
        level(ev, m),
    ensures
        ev.len() != 1,
{
    if ev.len() == 1 {
        reveal_with_fuel(total, 2);
        let q = pt(ev[0].point);
        assert(weight(ev, m, q) == 0);
        assert(pulls(ev[0], m, q) != 0);
    }
}

// what ends and starts at the last two events
spec fn ins2<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>) -> Multiset<Look> {
    ending(ev[ev.len() - 2], m).add(ending(ev.last(), m))
}

spec fn outs2<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>) -> Multiset<Look> {
    starting(ev[ev.len() - 2], m).add(starting(ev.last(), m))
}

spec fn rest<T: GeoNum>(ev: Seq<Event<T>>) -> Seq<Event<T>> {
    ev.take(ev.len() - 2)
}

// .. and the edges to come after them
proof fn lemma_links(r0: Multiset<Look>, l0: Multiset<Look>, d0: Set<Spot>, r1: Multiset<Look>, l1: Multiset<Look>, d1: Set<Spot>, ins: Multiset<Look>, outs: Multiset<Look>, p: Spot)
    requires
        linked(r0, l0, d0),
        r0 =~= r1.add(ins),
        l0 =~= l1.add(outs),
        d0.contains(p),
        d1 =~= d0.remove(p),
        forall|l: Look| #[trigger] r1.contains(l) ==> d1.contains(l.1),
        forall|l: Look| #[trigger] l1.contains(l) ==> lexr(p, l.0) == Ordering::Less && lexr(l.0, l.1) == Ordering::Less,
        forall|l: Look| #[trigger] ins.contains(l) ==> l.1 == p,
        forall|l: Look| #[trigger] outs.contains(l) ==> l.0 == p && lexr(l.0, l.1) == Ordering::Less,
    ensures
        linked(r1, l1, d1),
        forall|l: Look| #[trigger] outs.contains(l) ==> d1.contains(l.1),
        forall|l: Look| #[trigger] r1.contains(l) ==> r0.contains(l),
        outs =~= Multiset::<Look>::empty() ==> forall|l: Look| #[trigger] r1.contains(l) ==> l.0 != p,
{
    assert forall|l: Look| #[trigger] outs.contains(l) implies d1.contains(l.1) by {
        assert(l0.count(l) <= r0.count(l));
        assert(r0.contains(l));
    }
    assert forall|l: Look| #[trigger] l1.count(l) <= r1.count(l) by {
        assert(l0.count(l) <= r0.count(l));
        if ins.contains(l) {
            assert(!l1.contains(l));
        }
    }
    assert forall|l: Look| #[trigger] r1.count(l) > l1.count(l) implies !d1.contains(l.0) by {
        if !outs.contains(l) {
            assert(r0.count(l) > l0.count(l));
        }
    }
    if outs =~= Multiset::<Look>::empty() {
        assert forall|l: Look| #[trigger] r1.contains(l) implies l.0 != p by {
            if l.0 == p {
                assert(!l1.contains(l));
                assert(r0.count(l) > l0.count(l));
            }
        }
    }
}

// no event at p is left, and the balance stays
proof fn lemma_rest<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, k: usize, p: Spot)
    requires
        events_ok(ev, m, k),
        ordered(ev),
        level(ev, m),
        ev.len() >= 2,
        pt(ev.last().point) == p,
        pt(ev[ev.len() - 2].point) == p,
        ev.len() > 2 ==> pt(ev[ev.len() - 3].point) != p,
    ensures
        events_ok(rest(ev), m, k),
        ordered(rest(ev)),
        level(rest(ev), m),
        forall|i: int| 0 <= i < rest(ev).len() ==> lexr(p, pt((#[trigger] rest(ev)[i]).point)) == Ordering::Less,
        due(ev).contains(p),
        due(rest(ev)) =~= due(ev).remove(p),
        pulls(ev.last(), m, p) + pulls(ev[ev.len() - 2], m, p) == 0,
{
    let n = ev.len() as int;
    let t = rest(ev);
    let (a, b) = (ev.last(), ev[n - 2]);
    let u = ev.drop_last();
    assert(u.drop_last() =~= t && u.last() == b);
    assert forall|i: int| 0 <= i < t.len() implies event_ok(#[trigger] t[i], m, k) && pt(t[i].point) != p && lexr(p, pt(t[i].point)) == Ordering::Less by {
        assert(event_ok(ev[i], m, k));
        assert(lexr(pt(ev[n - 1].point), pt(ev[i].point)) != Ordering::Greater);
        assert(lexr(pt(ev[n - 1].point), pt(ev[n - 3].point)) != Ordering::Greater);
        if i < n - 3 {
            assert(lexr(pt(ev[n - 3].point), pt(ev[i].point)) != Ordering::Greater);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies lexr(pt((#[trigger] t[j]).point), pt((#[trigger] t[i]).point)) != Ordering::Greater by {
        assert(t[i] == ev[i] && t[j] == ev[j]);
    }
    let f = |e: Event<T>| pulls(e, m, p);
    if total(t, f) != 0 {
        lemma_total_found(t, f);
    }
    assert(total(ev, f) == total(u, f) + f(a) && total(u, f) == total(t, f) + f(b));
    assert(weight(ev, m, p) == 0);
    assert forall|q: Spot| #[trigger] weight(t, m, q) == 0 by {
        let g = |e: Event<T>| pulls(e, m, q);
        assert(weight(ev, m, q) == 0);
        assert(total(ev, g) == total(u, g) + g(a) && total(u, g) == total(t, g) + g(b));
    }
    lemma_due(ev);
    lemma_due(t);
    assert(due(ev).contains(pt(ev[n - 1].point)));
    assert forall|q: Spot| #[trigger] due(t).contains(q) <==> due(ev).remove(p).contains(q) by {
        if due(t).contains(q) {
            let i = choose|i: int| 0 <= i < t.len() && pt((#[trigger] t[i]).point) == q;
            assert(t[i] == ev[i]);
        }
        if due(ev).contains(q) && q != p {
            let i = choose|i: int| 0 <= i < ev.len() && pt((#[trigger] ev[i]).point) == q;
            assert(t[i] == ev[i]);
        }
    }
    assert(due(t) =~= due(ev).remove(p));
}

proof fn lemma_event<T: GeoNum>(ev: Seq<Event<T>>, m: Map<usize, Segment<T>>, k: usize, p: Spot)
    requires
        running(ev, m, k),
        ev.len() >= 2,
        pt(ev.last().point) == p,
        pt(ev[ev.len() - 2].point) == p,
        ev.len() > 2 ==> pt(ev[ev.len() - 3].point) != p,
    ensures
        running(rest(ev), m, k),
        rights(ev, m) =~= rights(rest(ev), m).add(ins2(ev, m)),
        lefts(ev, m) =~= lefts(rest(ev), m).add(outs2(ev, m)),
        due(ev).contains(p),
        due(rest(ev)) =~= due(ev).remove(p),
        forall|l: Look| #[trigger] outs2(ev, m).contains(l) ==> due(rest(ev)).contains(l.1),
        pulls(ev.last(), m, p) + pulls(ev[ev.len() - 2], m, p) == 0,
        ev.last().ty is LineRight && ev[ev.len() - 2].ty is LineRight ==> forall|l: Look| #[trigger] rights(rest(ev), m).contains(l) ==> l.0 != p,
{
    let n = ev.len() as int;
    let t = rest(ev);
    let a = ev.last();
    let b = ev[n - 2];
    let u = ev.drop_last();
    lemma_rest(ev, m, k, p);
    assert(u.drop_last() =~= t && u.last() == b);
    let r1 = rights(t, m);
    let l1 = lefts(t, m);
    let ins = ins2(ev, m);
    let outs = outs2(ev, m);
    assert(rights(ev, m) == rights(u, m).add(ending(a, m)) && rights(u, m) == r1.add(ending(b, m)));
    assert(lefts(ev, m) == lefts(u, m).add(starting(a, m)) && lefts(u, m) == l1.add(starting(b, m)));
    assert(rights(ev, m) =~= r1.add(ins));
    assert(lefts(ev, m) =~= l1.add(outs));
    assert(event_ok(ev[n - 1], m, k) && event_ok(ev[n - 2], m, k));
    lemma_due(t);
    lemma_found_events(t, m);
    assert forall|l: Look| #[trigger] r1.contains(l) implies due(t).contains(l.1) by {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] ends_as(t[i], m, l);
        assert(event_ok(t[i], m, k));
    }
    assert forall|l: Look| #[trigger] l1.contains(l) implies lexr(p, l.0) == Ordering::Less && lexr(l.0, l.1) == Ordering::Less by {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] starts_as(t[i], m, l);
        assert(event_ok(t[i], m, k));
    }
    lemma_links(rights(ev, m), lefts(ev, m), due(ev), r1, l1, due(t), ins, outs, p);
    assert forall|j: usize| m.contains_key(j) implies helper_ok(#[trigger] m[j], r1, due(t)) by {
        assert(helper_ok(m[j], rights(ev, m), due(ev)));
    }
    if a.ty is LineRight && b.ty is LineRight {
        assert(outs =~= Multiset::empty());
    }
}
