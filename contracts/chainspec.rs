// ---- the chains under construction ---------------------------------------------------------
// a chain: its label, its partner, its vertices
struct Cv {
    w: WindingOrder,
    other: int,
    path: Seq<Spot>,
    done: bool,
}

spec fn cv<T: GeoNum>(c: Chain<T>) -> Cv {
    Cv { w: c.interior, other: c.other as int, path: spots(c.coords@), done: c.done }
}

spec fn cvs<T: GeoNum>(s: Seq<Chain<T>>) -> Seq<Cv> {
    s.map_values(|c: Chain<T>| cv(c))
}

// an upper chain counts +1, a lower one -1
spec fn sg(w: WindingOrder) -> int {
    if w is Clockwise {
        1
    } else {
        -1
    }
}

proof fn lemma_sg(w: WindingOrder, x: int)
    ensures
        sg(w) * x == if w is Clockwise { x } else { -x },
{
    if w is Clockwise {
        assert(sg(w) == 1);
        assert(1 * x == x);
    } else {
        assert(sg(w) == -1);
        assert((-1) * x == -x);
    }
}

spec fn one(b: bool) -> int {
    if b {
        1
    } else {
        0
    }
}

spec fn times(k: int, b: bool) -> int {
    if b {
        k
    } else {
        0
    }
}

// how often a path takes the step e
spec fn steps(p: Seq<Spot>, e: (Spot, Spot)) -> int
    decreases p.len(),
{
    if p.len() < 2 {
        0
    } else {
        steps(p.drop_last(), e) + one((p[p.len() - 2], p.last()) == e)
    }
}

proof fn lemma_steps(p: Seq<Spot>, x: Spot, e: (Spot, Spot))
    ensures
        steps(p.push(x), e) == steps(p, e) + one(p.len() > 0 && (p.last(), x) == e),
        p.len() >= 2 ==> steps(p, e) == steps(p.drop_last(), e) + one((p[p.len() - 2], p.last()) == e),
{
    assert(p.push(x).drop_last() =~= p);
}

// an open chain that ends with the step from l.0 to l.1
spec fn looks_at(c: Cv, l: Look) -> int {
    one(!c.done && c.path.len() >= 2 && c.w == l.2 && c.path[c.path.len() - 2] == l.0 && c.path.last() == l.1)
}

// an open chain that ends at q
spec fn ends_at(c: Cv, q: Spot) -> bool {
    !c.done && c.path.len() >= 1 && c.path.last() == q
}

spec fn pull(c: Cv, q: Spot) -> int {
    if ends_at(c, q) {
        sg(c.w)
    } else {
        0
    }
}

spec fn sum(s: Seq<Cv>, f: spec_fn(Cv) -> int) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        sum(s.drop_last(), f) + f(s.last())
    }
}

// how many open chains look along l
spec fn n_look(s: Seq<Cv>, l: Look) -> int {
    sum(s, |c: Cv| looks_at(c, l))
}

// the balance of upper and lower chains that end at q
spec fn balance(s: Seq<Cv>, q: Spot) -> int {
    sum(s, |c: Cv| pull(c, q))
}

// the balance of upper and lower chains that take the step e
spec fn tally(s: Seq<Cv>, e: (Spot, Spot)) -> int {
    sum(s, |c: Cv| sg(c.w) * steps(c.path, e))
}

proof fn lemma_sum_set(s: Seq<Cv>, i: int, c: Cv, f: spec_fn(Cv) -> int)
    requires
        0 <= i < s.len(),
    ensures
        sum(s.update(i, c), f) == sum(s, f) - f(s[i]) + f(c),
    decreases s.len(),
{
    let t = s.update(i, c);
    if i == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        lemma_sum_set(s.drop_last(), i, c, f);
        assert(t.drop_last() =~= s.drop_last().update(i, c));
    }
}

proof fn lemma_sum_same(s: Seq<Cv>, f: spec_fn(Cv) -> int, g: spec_fn(Cv) -> int)
    requires
        forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i]),
    ensures
        sum(s, f) == sum(s, g),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) == g(t[i]) by {
            assert(t[i] == s[i]);
        }
        lemma_sum_same(t, f, g);
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
    }
}

proof fn lemma_sum_add(s: Seq<Cv>, f: spec_fn(Cv) -> int, g: spec_fn(Cv) -> int, h: spec_fn(Cv) -> int, k: int)
    requires
        forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]) == f(s[i]) + k * g(s[i]),
    ensures
        sum(s, h) == sum(s, f) + k * sum(s, g),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies h(#[trigger] t[i]) == f(t[i]) + k * g(t[i]) by {
            assert(t[i] == s[i]);
        }
        lemma_sum_add(t, f, g, h, k);
        assert(h(s[s.len() - 1]) == f(s[s.len() - 1]) + k * g(s[s.len() - 1]));
        assert(k * (sum(t, g) + g(s.last())) == k * sum(t, g) + k * g(s.last())) by (nonlinear_arith);
    } else {
        assert(k * 0 == 0);
    }
}

// a sum over terms that are zero but at a few places
proof fn lemma_sum_zero(s: Seq<Cv>, f: spec_fn(Cv) -> int)
    requires
        forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == 0,
    ensures
        sum(s, f) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) == 0 by {
            assert(t[i] == s[i]);
        }
        lemma_sum_zero(t, f);
        assert(f(s[s.len() - 1]) == 0);
    }
}

proof fn lemma_sum_two(s: Seq<Cv>, i: int, j: int, f: spec_fn(Cv) -> int)
    requires
        0 <= i < j < s.len(),
        forall|k: int| 0 <= k < s.len() && k != i && k != j ==> f(#[trigger] s[k]) == 0,
    ensures
        sum(s, f) == f(s[i]) + f(s[j]),
    decreases s.len(),
{
    let t = s.drop_last();
    if j == s.len() - 1 {
        lemma_sum_one(t, i, f);
    } else {
        assert forall|k: int| 0 <= k < t.len() && k != i && k != j implies f(#[trigger] t[k]) == 0 by {
            assert(t[k] == s[k]);
        }
        lemma_sum_two(t, i, j, f);
        assert(f(s[s.len() - 1]) == 0);
    }
}

proof fn lemma_sum_one(s: Seq<Cv>, i: int, f: spec_fn(Cv) -> int)
    requires
        0 <= i < s.len(),
        forall|k: int| 0 <= k < s.len() && k != i ==> f(#[trigger] s[k]) == 0,
    ensures
        sum(s, f) == f(s[i]),
    decreases s.len(),
{
    let t = s.drop_last();
    assert forall|k: int| 0 <= k < t.len() && k != i implies f(#[trigger] t[k]) == 0 by {
        assert(t[k] == s[k]);
    }
    if i == s.len() - 1 {
        lemma_sum_zero(t, f);
    } else {
        lemma_sum_one(t, i, f);
        assert(f(s[s.len() - 1]) == 0);
    }
}

// terms that are not negative: a positive one shows
proof fn lemma_sum_pos(s: Seq<Cv>, i: int, f: spec_fn(Cv) -> int)
    requires
        0 <= i < s.len(),
        forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) >= 0,
    ensures
        sum(s, f) >= f(s[i]),
    decreases s.len(),
{
    reveal_with_fuel(sum, 2);
    let t = s.drop_last();
    assert forall|k: int| 0 <= k < t.len() implies f(#[trigger] t[k]) >= 0 by {
        assert(t[k] == s[k]);
    }
    if i == s.len() - 1 {
        if t.len() > 0 {
            lemma_sum_pos(t, 0, f);
            assert(f(t[0]) >= 0);
        }
    } else {
        lemma_sum_pos(t, i, f);
        assert(t[i] == s[i]);
        assert(f(s[s.len() - 1]) >= 0);
    }
}

// the measures after one chain is replaced
proof fn lemma_set(s: Seq<Cv>, i: int, c: Cv)
    requires
        0 <= i < s.len(),
    ensures
        forall|l: Look| #[trigger] n_look(s.update(i, c), l) == n_look(s, l) - looks_at(s[i], l) + looks_at(c, l),
        forall|q: Spot| #[trigger] balance(s.update(i, c), q) == balance(s, q) - pull(s[i], q) + pull(c, q),
        forall|e: (Spot, Spot)|
            #[trigger] tally(s.update(i, c), e) == tally(s, e) - sg(s[i].w) * steps(s[i].path, e) + sg(c.w) * steps(c.path, e),
{
    assert forall|l: Look| #[trigger] n_look(s.update(i, c), l) == n_look(s, l) - looks_at(s[i], l) + looks_at(c, l) by {
        lemma_sum_set(s, i, c, |c: Cv| looks_at(c, l));
    }
    assert forall|q: Spot| #[trigger] balance(s.update(i, c), q) == balance(s, q) - pull(s[i], q) + pull(c, q) by {
        lemma_sum_set(s, i, c, |c: Cv| pull(c, q));
    }
    assert forall|e: (Spot, Spot)|
        #[trigger] tally(s.update(i, c), e) == tally(s, e) - sg(s[i].w) * steps(s[i].path, e) + sg(c.w) * steps(c.path, e) by {
        lemma_sum_set(s, i, c, |c: Cv| sg(c.w) * steps(c.path, e));
    }
}

// .. and after one is added
proof fn lemma_grow(s: Seq<Cv>, c: Cv)
    ensures
        forall|l: Look| #[trigger] n_look(s.push(c), l) == n_look(s, l) + looks_at(c, l),
        forall|q: Spot| #[trigger] balance(s.push(c), q) == balance(s, q) + pull(c, q),
        forall|e: (Spot, Spot)| #[trigger] tally(s.push(c), e) == tally(s, e) + sg(c.w) * steps(c.path, e),
{
    assert(s.push(c).drop_last() =~= s);
}

// a chain that has moved on to x
spec fn moved(c: Cv, x: Spot) -> Cv {
    Cv { path: c.path.push(x), ..c }
}

proof fn lemma_moved(s: Seq<Cv>, i: int, x: Spot)
    requires
        0 <= i < s.len(),
        !s[i].done,
        s[i].path.len() >= 2,
    ensures
        ({
            let c = s[i];
            let t = s.update(i, moved(s[i], x));
            let p = c.path.last();
            let o = c.path[c.path.len() - 2];
            &&& forall|l: Look| #[trigger] n_look(t, l) == n_look(s, l) - one(l == (o, p, c.w)) + one(l == (p, x, c.w))
            &&& forall|q: Spot| #[trigger] balance(t, q) == balance(s, q) - times(sg(c.w), q == p) + times(sg(c.w), q == x)
            &&& forall|e: (Spot, Spot)| #[trigger] tally(t, e) == tally(s, e) + times(sg(c.w), e == (p, x))
        }),
{
    let (c, m) = (s[i], moved(s[i], x));
    let t = s.update(i, m);
    let (p, o) = (c.path.last(), c.path[c.path.len() - 2]);
    lemma_set(s, i, m);
    assert(m.path[m.path.len() - 2] == p && m.path.last() == x);
    assert forall|l: Look| #[trigger] n_look(t, l) == n_look(s, l) - one(l == (o, p, c.w)) + one(l == (p, x, c.w)) by {
        assert(looks_at(c, l) == one(l == (o, p, c.w)));
        assert(looks_at(m, l) == one(l == (p, x, c.w)));
    }
    assert forall|e: (Spot, Spot)| #[trigger] tally(t, e) == tally(s, e) + times(sg(c.w), e == (p, x)) by {
        lemma_steps(c.path, x, e);
        assert(sg(c.w) * (steps(c.path, e) + one((p, x) == e)) == sg(c.w) * steps(c.path, e) + sg(c.w) * one((p, x) == e)) by (nonlinear_arith);
    }
}

// chains come in pairs of an upper and a lower one
spec fn in_pairs(s: Seq<Cv>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] pair_ok(s, i)
}

spec fn pair_ok(s: Seq<Cv>, i: int) -> bool {
    let c = s[i];
    &&& c.path.len() >= 2
    &&& 0 <= c.other < s.len()
    &&& s[c.other].other == i && s[c.other].w == flip(c.w) && s[c.other].done == c.done
}

// the edges still to start
spec fn bal(m: Multiset<Look>, e: (Spot, Spot)) -> int {
    m.count((e.0, e.1, WindingOrder::Clockwise)) - m.count((e.0, e.1, WindingOrder::CounterClockwise))
}

// before an event: `rights` and `lefts` are the edges whose right and left ends are still to come, `due` the points to come,
// `goal` the balance of the polygon's own edges
spec fn ready(s: Seq<Cv>, rights: Multiset<Look>, lefts: Multiset<Look>, due: Set<Spot>, goal: spec_fn((Spot, Spot)) -> int) -> bool {
    &&& in_pairs(s)
    &&& forall|l: Look| due.contains(l.1) ==> #[trigger] n_look(s, l) == rights.count(l) - lefts.count(l)
    &&& forall|q: Spot| !due.contains(q) ==> #[trigger] balance(s, q) == 0
    &&& forall|e: (Spot, Spot)| #[trigger] tally(s, e) == goal(e) - bal(lefts, e)
}

// ---- what an event says --------------------------------------------------------------------
// two edges that open at p, the polygon between them
spec fn fan(p: Spot, top: Spot, bot: Spot) -> Multiset<Look> {
    Multiset::empty().insert((p, top, WindingOrder::Clockwise)).insert((p, bot, WindingOrder::CounterClockwise))
}

// two edges that close at p, one with the polygon below, one above
spec fn close(top: Spot, bot: Spot, p: Spot) -> Multiset<Look> {
    Multiset::empty().insert((top, p, WindingOrder::Clockwise)).insert((bot, p, WindingOrder::CounterClockwise))
}

// chains that wait at an earlier point, where no edge that ends at p starts, are drawn to p
spec fn merge_ok<T: GeoNum>(l: Link<T>, p: Spot, due: Set<Spot>, ins: Multiset<Look>) -> bool {
    match l {
        Link::Merge { prev, next, limbs } => {
            &&& pt(next) == p
            &&& !due.contains(pt(prev))
            &&& forall|k: Look| #[trigger] ins.contains(k) ==> k.0 != pt(prev)
        },
        _ => false,
    }
}

spec fn merges<T: GeoNum>(ls: Seq<Link<T>>, n: int, p: Spot, due: Set<Spot>, ins: Multiset<Look>) -> bool {
    forall|k: int| 0 <= k < n ==> merge_ok(#[trigger] ls[k], p, due, ins)
}

// an event: its point, kind and links; before and after it the edges whose right and left ends are to come and the points to come;
// the edges that end (`ins`) and start (`outs`) there
struct Now<T: GeoNum> {
    p: Spot,
    ty: VertexType,
    ls: Seq<Link<T>>,
    r0: Multiset<Look>,
    l0: Multiset<Look>,
    d0: Set<Spot>,
    r1: Multiset<Look>,
    l1: Multiset<Look>,
    d1: Set<Spot>,
    ins: Multiset<Look>,
    outs: Multiset<Look>,
}

spec fn says<T: GeoNum>(e: Now<T>) -> bool {
    let (p, ty, ls, due, ins, outs) = (e.p, e.ty, e.ls, e.d0, e.ins, e.outs);
    let n = ls.len() as int;
    match ty {
        VertexType::Start => {
            &&& n == 1
            &&& ins =~= Multiset::empty()
            &&& ls[0] matches Link::Start { root, top, bot } && pt(root) == p && outs =~= fan(p, pt(top), pt(bot))
        },
        VertexType::Split => {
            &&& n == 1
            &&& ins =~= Multiset::empty()
            &&& match ls[0] {
                Link::Merge { prev, next, limbs } => merge_ok(ls[0], p, due, ins) && (limbs matches Some(l) && outs =~= fan(p, pt(l.1), pt(l.0))),
                Link::Split { prev, next, top, bot } => pt(next) == p && outs =~= fan(p, pt(bot), pt(top)),
                _ => false,
            }
        },
        VertexType::Merge => {
            &&& merges(ls, n, p, due, ins)
            &&& outs =~= Multiset::empty()
            &&& exists|a: Spot, b: Spot| ins =~= #[trigger] close(a, b, p)
        },
        VertexType::End => {
            &&& n > 0 && merges(ls, n - 1, p, due, ins)
            &&& outs =~= Multiset::empty()
            &&& ls[n - 1] matches Link::End { top, bot, sink } && pt(sink) == p && ins =~= close(pt(top), pt(bot), p)
        },
        VertexType::Continue => {
            &&& n > 0 && merges(ls, n - 1, p, due, ins)
            &&& ls[n - 1] matches Link::Continue { prev, curr, next, interior } && pt(curr) == p
                && ins =~= Multiset::empty().insert((pt(prev), p, interior))
                && outs =~= Multiset::empty().insert((p, pt(next), interior))
        },
    }
}

// edges whose left end is to come have their right end to come
spec fn tidy(rights: Multiset<Look>, lefts: Multiset<Look>, due: Set<Spot>) -> bool {
    &&& forall|k: Look| #[trigger] lefts.count(k) <= rights.count(k)
    &&& forall|k: Look| #[trigger] rights.contains(k) ==> due.contains(k.1)
}

// what is still to come after the event
spec fn after<T: GeoNum>(e: Now<T>) -> bool {
    &&& e.r0 =~= e.r1.add(e.ins) && e.l0 =~= e.l1.add(e.outs)
    &&& e.d0.contains(e.p) && e.d1 =~= e.d0.remove(e.p)
    &&& tidy(e.r1, e.l1, e.d1)
    &&& forall|k: Look| #[trigger] e.outs.contains(k) ==> e.d1.contains(k.1)
}

spec fn told<T: GeoNum>(e: Now<T>) -> bool {
    says(e) && after(e)
}

// the balance at the point of the event when k links are done: that of an edge to be continued
spec fn owed<T: GeoNum>(e: Now<T>, k: int) -> int {
    if e.ty is Continue && k < e.ls.len() {
        sg(onward(e).2)
    } else {
        0
    }
}

spec fn onward<T: GeoNum>(e: Now<T>) -> Look {
    match e.ls[e.ls.len() - 1] {
        Link::Continue { prev, curr, next, interior } => (pt(prev), e.p, interior),
        _ => arbitrary(),
    }
}

type Goal = spec_fn((Spot, Spot)) -> int;

// the chains when k links of the event are done
spec fn midway<T: GeoNum>(s: Seq<Cv>, k: int, e: Now<T>, goal: Goal) -> bool {
    let fin = k == e.ls.len();
    &&& in_pairs(s)
    &&& forall|l: Look| e.d0.contains(l.1) && l.1 != e.p ==> #[trigger] n_look(s, l) == e.r0.count(l) - e.l0.count(l) + times(e.outs.count(l) as int, fin)
    &&& forall|q: Spot| !e.d0.contains(q) ==> #[trigger] balance(s, q) == 0
    &&& balance(s, e.p) == owed(e, k)
    &&& forall|g: (Spot, Spot)| #[trigger] tally(s, g) == goal(g) - bal(e.l0, g) + times(bal(e.outs, g), fin)
    &&& e.ty is Continue && !fin ==> n_look(s, onward(e)) == 1 && n_look(s, (onward(e).0, e.p, flip(onward(e).2))) == 0
}

// at most two edges end at p: the chains that end there are those that look along them
proof fn lemma_balance(s: Seq<Cv>, p: Spot, a: Look, b: Look, na: int, nb: int)
    requires
        a.1 == p && b.1 == p && a != b,
        n_look(s, a) == na,
        n_look(s, b) == nb,
        in_pairs(s),
        forall|l: Look| l.1 == p && l != a && l != b ==> #[trigger] n_look(s, l) == 0,
    ensures
        balance(s, p) == sg(a.2) * na + sg(b.2) * nb,
{
    let (fa, fb, h) = (|c: Cv| looks_at(c, a), |c: Cv| looks_at(c, b), |c: Cv| pull(c, p));
    let g = |c: Cv| sg(a.2) * looks_at(c, a);
    assert forall|i: int| 0 <= i < s.len() implies h(#[trigger] s[i]) == g(s[i]) + sg(b.2) * fb(s[i]) by {
        let c = s[i];
        assert(pair_ok(s, i));
        if ends_at(c, p) {
            let l: Look = (c.path[c.path.len() - 2], p, c.w);
            lemma_has_look(s, i, l);
            assert(l == a || l == b);
        }
        assert(sg(a.2) * 1 == sg(a.2) && sg(a.2) * 0 == 0 && sg(b.2) * 1 == sg(b.2) && sg(b.2) * 0 == 0);
    }
    let z = |c: Cv| 0int;
    lemma_sum_zero(s, z);
    lemma_sum_add(s, z, fa, g, sg(a.2));
    lemma_sum_add(s, g, fb, h, sg(b.2));
}

proof fn lemma_has_look(s: Seq<Cv>, i: int, l: Look)
    requires
        0 <= i < s.len(),
        looks_at(s[i], l) == 1,
    ensures
        n_look(s, l) >= 1,
{
    lemma_sum_pos(s, i, |c: Cv| looks_at(c, l));
}

proof fn lemma_enter<T: GeoNum>(s: Seq<Cv>, e: Now<T>, goal: Goal)
    requires
        ready(s, e.r0, e.l0, e.d0, goal),
        told(e),
    ensures
        midway(s, 0, e, goal),
{
    let (p, ls) = (e.p, e.ls);
    // looks that end at p
    assert forall|l: Look| l.1 == p implies #[trigger] n_look(s, l) == e.ins.count(l) by {
        assert(n_look(s, l) == e.r0.count(l) - e.l0.count(l));
        if e.r1.count(l) > 0 {
            assert(e.r1.contains(l));
        }
        if e.outs.count(l) > 0 {
            assert(e.outs.contains(l));
        }
        assert(e.l1.count(l) <= e.r1.count(l));
    }
    let (cw, ccw) = (WindingOrder::Clockwise, WindingOrder::CounterClockwise);
    match e.ty {
        VertexType::Start | VertexType::Split => {
            lemma_balance(s, p, (p, p, cw), (p, p, ccw), 0, 0);
        },
        VertexType::Merge => {
            let (a, b) = choose|a: Spot, b: Spot| e.ins =~= #[trigger] close(a, b, p);
            lemma_balance(s, p, (a, p, cw), (b, p, ccw), 1, 1);
        },
        VertexType::End => {
            if let Link::End { top, bot, sink } = ls[ls.len() - 1] {
                lemma_balance(s, p, (pt(top), p, cw), (pt(bot), p, ccw), 1, 1);
            }
        },
        VertexType::Continue => {
            if let Link::Continue { prev, curr, next, interior } = ls[ls.len() - 1] {
                lemma_balance(s, p, (pt(prev), p, interior), (pt(prev), p, flip(interior)), 1, 0);
                assert(sg(interior) * 1 + sg(flip(interior)) * 0 == sg(interior));
            }
        },
    }
    assert forall|g: (Spot, Spot)| ls.len() == 0 implies bal(e.outs, g) == 0 by {
    }
}

proof fn lemma_leave<T: GeoNum>(s: Seq<Cv>, e: Now<T>, goal: Goal)
    requires
        midway(s, e.ls.len() as int, e, goal),
        told(e),
    ensures
        ready(s, e.r1, e.l1, e.d1, goal),
{
    assert forall|l: Look| e.d1.contains(l.1) implies #[trigger] n_look(s, l) == e.r1.count(l) - e.l1.count(l) by {
        assert(e.d0.contains(l.1) && l.1 != e.p);
        assert(e.ins.count(l) == 0);
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(s, g) == goal(g) - bal(e.l1, g) by {
        let (a, b) = ((g.0, g.1, WindingOrder::Clockwise), (g.0, g.1, WindingOrder::CounterClockwise));
        assert(e.l0.count(a) == e.l1.count(a) + e.outs.count(a) && e.l0.count(b) == e.l1.count(b) + e.outs.count(b));
    }
}

// ---- one link ------------------------------------------------------------------------------
// a new pair of chains
proof fn lemma_new_pair(s: Seq<Cv>, a: Cv, b: Cv)
    requires
        in_pairs(s),
        a.path.len() >= 2 && b.path.len() >= 2,
        a.other == s.len() + 1 && b.other == s.len(),
        b.w == flip(a.w) && a.done == b.done,
    ensures
        in_pairs(s.push(a).push(b)),
{
    let t = s.push(a).push(b);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] pair_ok(t, i) by {
        if i < s.len() {
            assert(pair_ok(s, i));
        }
    }
}

// a chain changes its path only
proof fn lemma_same_pairs(s: Seq<Cv>, i: int, c: Cv)
    requires
        in_pairs(s),
        0 <= i < s.len(),
        c.path.len() >= 2,
        c == (Cv { path: c.path, ..s[i] }),
    ensures
        in_pairs(s.update(i, c)),
{
    let t = s.update(i, c);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] pair_ok(t, j) by {
        assert(pair_ok(s, j));
        assert(pair_ok(s, i));
    }
}

proof fn lemma_start<T: GeoNum>(s: Seq<Cv>, a: Cv, b: Cv, e: Now<T>, goal: Goal)
    requires
        midway(s, 0, e, goal),
        told(e),
        e.ty is Start,
        e.ls[0] matches Link::Start { root, top, bot } && a.path =~= seq![e.p, pt(top)] && b.path =~= seq![e.p, pt(bot)],
        a.w is Clockwise && b.w is CounterClockwise,
        !a.done && !b.done,
        a.other == s.len() + 1 && b.other == s.len(),
    ensures
        midway(s.push(a).push(b), 1, e, goal),
{
    let t = s.push(a).push(b);
    lemma_new_pair(s, a, b);
    lemma_grow(s, a);
    lemma_grow(s.push(a), b);
    lemma_two(e.p, a.path.last(), a);
    lemma_two(e.p, b.path.last(), b);
    let (x, y) = ((e.p, a.path.last(), a.w), (e.p, b.path.last(), b.w));
    assert(e.outs.contains(x) && e.outs.contains(y));
    assert forall|l: Look| e.d0.contains(l.1) && l.1 != e.p implies #[trigger] n_look(t, l) == e.r0.count(l) - e.l0.count(l) + e.outs.count(l) by {
        assert(n_look(s, l) == e.r0.count(l) - e.l0.count(l));
        assert(looks_at(a, l) == one(l == x) && looks_at(b, l) == one(l == y));
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(t, g) == goal(g) - bal(e.l0, g) + bal(e.outs, g) by {
        assert(tally(s, g) == goal(g) - bal(e.l0, g));
    }
    assert forall|q: Spot| !e.d0.contains(q) implies #[trigger] balance(t, q) == 0 by {
        assert(balance(s, q) == 0);
    }
}

// a chain of one step
proof fn lemma_two(a: Spot, b: Spot, c: Cv)
    requires
        c.path =~= seq![a, b],
    ensures
        forall|g: (Spot, Spot)| #[trigger] steps(c.path, g) == one(g == (a, b)),
        forall|g: (Spot, Spot)| sg(c.w) * #[trigger] steps(c.path, g) == times(sg(c.w), g == (a, b)),
{
    reveal_with_fuel(steps, 3);
    assert forall|g: (Spot, Spot)| #[trigger] steps(c.path, g) == one(g == (a, b)) by {
        assert(c.path.drop_last().len() == 1);
    }
    assert forall|g: (Spot, Spot)| sg(c.w) * #[trigger] steps(c.path, g) == times(sg(c.w), g == (a, b)) by {
        assert(sg(c.w) * 1 == sg(c.w) && sg(c.w) * 0 == 0);
    }
}

proof fn lemma_continue<T: GeoNum>(s: Seq<Cv>, i: int, k: int, e: Now<T>, goal: Goal)
    requires
        midway(s, k, e, goal),
        told(e),
        e.ty is Continue,
        k == e.ls.len() - 1,
        0 <= i < s.len(),
        ends_at(s[i], e.p),
        s[i].path[s[i].path.len() - 2] == onward(e).0,
    ensures
        s[i].w == onward(e).2,
        e.ls[k] matches Link::Continue { prev, curr, next, interior } && midway(s.update(i, moved(s[i], pt(next))), k + 1, e, goal) && pt(next) != e.p,
{
    if let Link::Continue { prev, curr, next, interior } = e.ls[k] {
        let (c, x) = (s[i], pt(next));
        assert(pair_ok(s, i));
        let t = s.update(i, moved(c, x));
        if c.w != interior {
            lemma_has_look(s, i, (pt(prev), e.p, flip(interior)));
        }
        lemma_moved(s, i, x);
        lemma_same_pairs(s, i, moved(c, x));
        let o = (e.p, x, interior);
        assert(e.outs.contains(o));
        assert forall|l: Look| e.d0.contains(l.1) && l.1 != e.p implies #[trigger] n_look(t, l) == e.r0.count(l) - e.l0.count(l) + e.outs.count(l) by {
            assert(n_look(s, l) == e.r0.count(l) - e.l0.count(l));
        }
        assert forall|g: (Spot, Spot)| #[trigger] tally(t, g) == goal(g) - bal(e.l0, g) + bal(e.outs, g) by {
            assert(tally(s, g) == goal(g) - bal(e.l0, g));
        }
        assert forall|q: Spot| !e.d0.contains(q) implies #[trigger] balance(t, q) == 0 by {
            assert(balance(s, q) == 0);
        }
    }
}

// there is a chain to continue
proof fn lemma_found(s: Seq<Cv>, l: Look) -> (i: int)
    requires
        n_look(s, l) > 0,
    ensures
        0 <= i < s.len(),
        looks_at(s[i], l) == 1,
{
    if forall|i: int| 0 <= i < s.len() ==> looks_at(#[trigger] s[i], l) == 0 {
        lemma_sum_zero(s, |c: Cv| looks_at(c, l));
    }
    choose|i: int| 0 <= i < s.len() && looks_at(#[trigger] s[i], l) != 0
}

// the chains when those before i that wait at m have been drawn to p: `up` upper and `down` lower ones
spec fn drawn<T: GeoNum>(a: Seq<Cv>, s: Seq<Cv>, i: int, m: Spot, e: Now<T>, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>, up: int, down: int) -> bool {
    let p = e.p;
    let split = e.ty is Split;
    let top = pt(limbs->Some_0.0);
    let bot = pt(limbs->Some_0.1);
    &&& in_pairs(s)
    &&& s.len() == a.len()
    &&& forall|l: Look| l.1 != m && (l.1 != p || l.0 != m) ==> #[trigger] n_look(s, l) == n_look(a, l) + times(up, split && l == (p, bot, WindingOrder::Clockwise))
        + times(down, split && l == (p, top, WindingOrder::CounterClockwise))
    &&& forall|q: Spot| !e.d0.contains(q) ==> #[trigger] balance(s, q) == balance(a, q) - times(up - down, q == m)
    &&& balance(s, p) == balance(a, p) + times(up - down, !split)
    &&& forall|g: (Spot, Spot)|
        #[trigger] tally(s, g) == tally(a, g) + times(up - down, g == (m, p)) + times(up, split && g == (p, bot)) - times(down, split && g == (p, top))
    &&& forall|j: int| 0 <= j < i ==> !ends_at(#[trigger] s[j], m)
}

spec fn draw<T: GeoNum>(c: Cv, e: Now<T>, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>) -> Cv {
    let d = moved(c, e.p);
    if e.ty is Split {
        moved(d, pt(if c.w is Clockwise { limbs->Some_0.1 } else { limbs->Some_0.0 }))
    } else {
        d
    }
}

spec fn drawing<T: GeoNum>(e: Now<T>, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>) -> bool {
    &&& 0 <= k < e.ls.len()
    &&& e.ls[k] matches Link::Merge { prev, next, limbs: ll } && pt(prev) == m && ll == limbs
}

proof fn lemma_merge_ok<T: GeoNum>(e: Now<T>, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>)
    requires
        told(e),
        drawing(e, k, m, limbs),
    ensures
        merge_ok(e.ls[k], e.p, e.d0, e.ins),
        m != e.p,
        e.ty is Split ==> limbs is Some && e.ls.len() == 1 && pt(limbs->Some_0.0) != e.p && pt(limbs->Some_0.1) != e.p && e.d0.contains(pt(limbs->Some_0.0)) && e.d0.contains(pt(limbs->Some_0.1)),
        e.ty is Continue ==> k < e.ls.len() - 1 && onward(e).0 != m,
        !(e.ty is Start),
{
    let n = e.ls.len() as int;
    if e.ty is Split {
        let (t, b) = (pt(limbs->Some_0.0), pt(limbs->Some_0.1));
        assert(e.outs.contains((e.p, b, WindingOrder::Clockwise)));
        assert(e.outs.contains((e.p, t, WindingOrder::CounterClockwise)));
    }
    if e.ty is Continue {
        assert(e.ins.contains(onward(e)));
    }
}

proof fn lemma_draw_first<T: GeoNum>(s: Seq<Cv>, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>, e: Now<T>, goal: Goal)
    requires
        midway(s, k, e, goal),
    ensures
        drawn(s, s, 0, m, e, limbs, 0, 0),
{
}

proof fn lemma_draw_skip<T: GeoNum>(a: Seq<Cv>, s: Seq<Cv>, i: int, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>, e: Now<T>, up: int, down: int)
    requires
        drawn(a, s, i, m, e, limbs, up, down),
        0 <= i < s.len(),
        !ends_at(s[i], m),
    ensures
        drawn(a, s, i + 1, m, e, limbs, up, down),
{
}

proof fn lemma_draw<T: GeoNum>(a: Seq<Cv>, s: Seq<Cv>, i: int, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>, e: Now<T>, up: int, down: int)
    requires
        told(e),
        drawing(e, k, m, limbs),
        drawn(a, s, i, m, e, limbs, up, down),
        0 <= i < s.len(),
        ends_at(s[i], m),
    ensures
        drawn(a, s.update(i, draw(s[i], e, limbs)), i + 1, m, e, limbs, up + one(s[i].w is Clockwise), down + one(s[i].w is CounterClockwise)),
{
    let (c, p) = (s[i], e.p);
    lemma_merge_ok(e, k, m, limbs);
    assert(pair_ok(s, i));
    let d = moved(c, p);
    let t = s.update(i, d);
    let (up1, down1) = (up + one(c.w is Clockwise), down + one(c.w is CounterClockwise));
    lemma_moved(s, i, p);
    lemma_same_pairs(s, i, d);
    let f = draw(c, e, limbs);
    let u = s.update(i, f);
    if e.ty is Split {
        let x = pt(if c.w is Clockwise { limbs->Some_0.1 } else { limbs->Some_0.0 });
        assert(t[i] == d && d.path[d.path.len() - 2] == m && d.path.last() == p);
        lemma_moved(t, i, x);
        lemma_same_pairs(t, i, f);
        assert(t.update(i, f) =~= u);
    }
    assert forall|j: int| 0 <= j < i + 1 implies !ends_at(#[trigger] u[j], m) by {
        if j < i {
            assert(u[j] == s[j]);
        }
    }
    let split = e.ty is Split;
    let top = pt(limbs->Some_0.0);
    let bot = pt(limbs->Some_0.1);
    assert forall|l: Look| l.1 != m && (l.1 != p || l.0 != m) implies #[trigger] n_look(u, l) == n_look(a, l) + times(up1, split && l == (p, bot, WindingOrder::Clockwise))
        + times(down1, split && l == (p, top, WindingOrder::CounterClockwise)) by {
        assert(n_look(t, l) == n_look(s, l));
    }
    assert forall|q: Spot| !e.d0.contains(q) implies #[trigger] balance(u, q) == balance(a, q) - times(up1 - down1, q == m) by {
        assert(balance(t, q) == balance(s, q) - times(sg(c.w), q == m));
    }
    assert(balance(t, p) == balance(s, p) + sg(c.w));
    assert forall|g: (Spot, Spot)|
        #[trigger] tally(u, g) == tally(a, g) + times(up1 - down1, g == (m, p)) + times(up1, split && g == (p, bot)) - times(down1, split && g == (p, top)) by {
        assert(tally(t, g) == tally(s, g) + times(sg(c.w), g == (m, p)));
    }
}

proof fn lemma_drawn<T: GeoNum>(a: Seq<Cv>, s: Seq<Cv>, k: int, m: Spot, limbs: Option<(SweepPoint<T>, SweepPoint<T>)>, e: Now<T>, goal: Goal, up: int, down: int)
    requires
        told(e),
        drawing(e, k, m, limbs),
        midway(a, k, e, goal),
        drawn(a, s, s.len() as int, m, e, limbs, up, down),
        up + down == 2,
    ensures
        midway(s, k + 1, e, goal),
{
    lemma_merge_ok(e, k, m, limbs);
    let f = |c: Cv| pull(c, m);
    assert forall|j: int| 0 <= j < s.len() implies f(#[trigger] s[j]) == 0 by {
    }
    lemma_sum_zero(s, f);
    assert(balance(s, m) == 0 && balance(a, m) == 0);
    assert(up == 1 && down == 1);
    let p = e.p;
    let fin = k + 1 == e.ls.len();
    let top = pt(limbs->Some_0.0);
    let bot = pt(limbs->Some_0.1);
    if e.ty is Split {
        assert(e.outs == fan(p, bot, top) && fin);
        assert forall|l: Look| #[trigger] e.outs.count(l) == one(l == (p, bot, WindingOrder::Clockwise)) + one(l == (p, top, WindingOrder::CounterClockwise)) by {
        }
    } else if fin {
        assert(e.outs =~= Multiset::empty());
    }
    assert forall|l: Look| e.d0.contains(l.1) && l.1 != e.p implies #[trigger] n_look(s, l) == e.r0.count(l) - e.l0.count(l) + times(e.outs.count(l) as int, fin) by {
        assert(n_look(a, l) == e.r0.count(l) - e.l0.count(l));
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(s, g) == goal(g) - bal(e.l0, g) + times(bal(e.outs, g), fin) by {
        assert(tally(a, g) == goal(g) - bal(e.l0, g));
    }
    assert forall|q: Spot| !e.d0.contains(q) implies #[trigger] balance(s, q) == 0 by {
        assert(balance(a, q) == 0);
    }
}

spec fn cut(c: Cv, p: Spot, x: Spot) -> Cv {
    Cv { path: c.path.drop_last().push(p).push(x), ..c }
}

// the edge a chain looks along is left to a new chain, the chain itself is drawn to p
proof fn lemma_split<T: GeoNum>(s: Seq<Cv>, i: int, c: Cv, a: Cv, b: Cv, e: Now<T>, goal: Goal)
    requires
        midway(s, 0, e, goal),
        told(e),
        e.ty is Split,
        0 <= i < s.len(),
        !s[i].done,
        e.ls[0] matches Link::Split { prev, next, top, bot } && s[i].path[s[i].path.len() - 2] == pt(prev) && c == cut(s[i], e.p, pt(
            if s[i].w is Clockwise {
                bot
            } else {
                top
            },
        )) && a.path =~= seq![pt(prev), s[i].path.last()] && b.path =~= seq![pt(prev), e.p, pt(
            if s[i].w is Clockwise {
                top
            } else {
                bot
            },
        )],
        a.w == s[i].w && b.w == flip(s[i].w),
        !a.done && !b.done,
        a.other == s.len() + 1 && b.other == s.len(),
    ensures
        midway(s.update(i, c).push(a).push(b), 1, e, goal),
{
    let o = s[i];
    assert(pair_ok(s, i));
    let p = e.p;
    let s1 = s.update(i, c);
    let s2 = s1.push(a);
    let t = s2.push(b);
    lemma_same_pairs(s, i, c);
    lemma_new_pair(s1, a, b);
    lemma_set(s, i, c);
    lemma_grow(s1, a);
    lemma_grow(s2, b);
    let q = o.path.drop_last();
    let v = q.last();
    let old = o.path.last();
    let x = c.path.last();
    let y = b.path.last();
    assert(c.path.drop_last() =~= q.push(p));
    assert(c.path[c.path.len() - 2] == p);
    lemma_two(v, old, a);
    assert forall|g: (Spot, Spot)| #[trigger] steps(b.path, g) == one(g == (v, p)) + one(g == (p, y)) by {
        reveal_with_fuel(steps, 3);
        assert(b.path.drop_last() =~= seq![v, p]);
        assert(b.path.drop_last().drop_last().len() == 1);
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(t, g) == goal(g) - bal(e.l0, g) + bal(e.outs, g) by {
        assert(tally(s, g) == goal(g) - bal(e.l0, g));
        lemma_steps(o.path, x, g);
        lemma_steps(q, p, g);
        lemma_steps(q.push(p), x, g);
        assert(tally(s1, g) == tally(s, g) - sg(o.w) * steps(o.path, g) + sg(c.w) * steps(c.path, g));
        assert(tally(s2, g) == tally(s1, g) + sg(a.w) * steps(a.path, g));
        assert(tally(t, g) == tally(s2, g) + sg(b.w) * steps(b.path, g));
        assert(o.path[o.path.len() - 2] == v && q.push(p).last() == p);
        assert(steps(o.path, g) == steps(q, g) + one((v, old) == g));
        assert(c.path == q.push(p).push(x));
        assert(steps(c.path, g) == steps(q, g) + one((v, p) == g) + one((p, x) == g));
        assert(steps(a.path, g) == one(g == (v, old)));
        assert(steps(b.path, g) == one(g == (v, p)) + one(g == (p, y)));
        assert(bal(e.outs, g) == times(sg(o.w), g == (p, x)) - times(sg(o.w), g == (p, y)));
        lemma_sg(o.w, steps(o.path, g));
        lemma_sg(o.w, steps(c.path, g));
        lemma_sg(o.w, steps(a.path, g));
        lemma_sg(b.w, steps(b.path, g));
    }
    assert forall|l: Look| e.d0.contains(l.1) && l.1 != e.p implies #[trigger] n_look(t, l) == e.r0.count(l) - e.l0.count(l) + e.outs.count(l) by {
        assert(n_look(s, l) == e.r0.count(l) - e.l0.count(l));
        assert(n_look(s2, l) == n_look(s1, l) + looks_at(a, l));
    }
    assert(e.outs.contains((p, x, o.w)) && e.outs.contains((p, y, flip(o.w))));
    assert forall|w: Spot| !e.d0.contains(w) || w == p implies #[trigger] balance(t, w) == balance(s, w) by {
        assert(balance(s2, w) == balance(s1, w) + pull(a, w));
    }
    assert forall|w: Spot| !e.d0.contains(w) implies #[trigger] balance(t, w) == 0 by {
        assert(balance(s, w) == 0);
    }
}

spec fn finished(c: Cv) -> Cv {
    Cv { done: true, ..c }
}

// a pair that has met is finished
proof fn lemma_meet(s: Seq<Cv>, i: int, p: Spot, r: Multiset<Look>, l: Multiset<Look>, d: Set<Spot>, goal: Goal)
    requires
        ready(s, r, l, d, goal),
        !d.contains(p),
        0 <= i < s.len(),
        ends_at(s[i], p),
        ends_at(s[s[i].other], p),
    ensures
        ready(s.update(i, finished(s[i])).update(s[i].other, finished(s[s[i].other])), r, l, d, goal),
{
    let j = s[i].other;
    assert(pair_ok(s, i));
    let s1 = s.update(i, finished(s[i]));
    let t = s1.update(j, finished(s[j]));
    lemma_set(s, i, finished(s[i]));
    lemma_set(s1, j, finished(s[j]));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] pair_ok(t, k) by {
        assert(pair_ok(s, k));
    }
    assert forall|k: Look| d.contains(k.1) implies #[trigger] n_look(t, k) == r.count(k) - l.count(k) by {
        assert(n_look(s1, k) == n_look(s, k));
    }
    assert forall|q: Spot| !d.contains(q) implies #[trigger] balance(t, q) == 0 by {
        assert(balance(s, q) == 0);
        assert(balance(s1, q) == balance(s, q) - pull(s[i], q));
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(t, g) == goal(g) - bal(l, g) by {
        assert(tally(s1, g) == tally(s, g));
    }
}

spec fn given_up(c: Cv) -> Cv {
    Cv { path: c.path.drop_last(), done: true, ..c }
}

// a chain that moved on from p, where its partner waits: it ends there, and the other that waits there moves on instead
proof fn lemma_reduce(s: Seq<Cv>, c: int, i: int, j: int, p: Spot, r: Multiset<Look>, l: Multiset<Look>, d: Set<Spot>, goal: Goal)
    requires
        ready(s, r, l, d, goal),
        !d.contains(p),
        0 <= c < s.len() && 0 <= i < s.len() && 0 <= j < s.len() && i != j,
        !s[c].done && s[c].path.len() >= 3 && s[c].path[s[c].path.len() - 2] == p && s[c].path.last() != p,
        ends_at(s[i], p) && ends_at(s[j], p),
        forall|k: int| 0 <= k < s.len() && k != i && k != j ==> !ends_at(#[trigger] s[k], p),
        s[i].other == c,
    ensures
        ready(s.update(c, given_up(s[c])).update(i, finished(s[i])).update(j, moved(s[j], s[c].path.last())), r, l, d, goal),
{
    let x = s[c].path.last();
    assert(pair_ok(s, i) && pair_ok(s, j) && pair_ok(s, c));
    let f = |k: Cv| pull(k, p);
    if i < j {
        lemma_sum_two(s, i, j, f);
    } else {
        lemma_sum_two(s, j, i, f);
    }
    assert(balance(s, p) == 0);
    assert(sg(s[i].w) + sg(s[j].w) == 0);
    assert(s[j].w == s[c].w);
    let s1 = s.update(c, given_up(s[c]));
    let s2 = s1.update(i, finished(s[i]));
    let t = s2.update(j, moved(s[j], x));
    lemma_set(s, c, given_up(s[c]));
    lemma_set(s1, i, finished(s[i]));
    assert(s2[j] == s[j]);
    lemma_moved(s2, j, x);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] pair_ok(t, k) by {
        assert(pair_ok(s, k));
    }
    assert forall|k: Look| d.contains(k.1) implies #[trigger] n_look(t, k) == r.count(k) - l.count(k) by {
        assert(n_look(s1, k) == n_look(s, k) - looks_at(s[c], k));
        assert(n_look(s2, k) == n_look(s1, k));
    }
    assert forall|q: Spot| !d.contains(q) implies #[trigger] balance(t, q) == 0 by {
        assert(balance(s, q) == 0);
        assert(balance(s1, q) == balance(s, q) - pull(s[c], q));
        assert(balance(s2, q) == balance(s1, q) - pull(s[i], q));
    }
    assert forall|g: (Spot, Spot)| #[trigger] tally(t, g) == goal(g) - bal(l, g) by {
        lemma_steps(s[c].path, x, g);
        assert(tally(s1, g) == tally(s, g) - sg(s[c].w) * steps(s[c].path, g) + sg(s[c].w) * steps(s[c].path.drop_last(), g));
        assert(tally(s2, g) == tally(s1, g));
        assert(steps(s[c].path, g) == steps(s[c].path.drop_last(), g) + one((p, x) == g));
        assert(tally(t, g) == tally(s2, g) + times(sg(s[j].w), g == (p, x)));
        lemma_sg(s[c].w, steps(s[c].path, g));
        lemma_sg(s[c].w, steps(s[c].path.drop_last(), g));
    }
}

// ---- the pieces ----------------------------------------------------------------------------
// how often e is an upper edge of a piece, less how often it is a lower one
spec fn gains<T: GeoNum>(ps: Seq<MonoPoly<T>>, e: (Spot, Spot)) -> int
    decreases ps.len(),
{
    if ps.len() == 0 {
        0
    } else {
        gains(ps.drop_last(), e) + steps(pts(ps.last().top), e) - steps(pts(ps.last().bot), e)
    }
}

// chains with their vertices replaced
spec fn with_lines<T: GeoNum>(s: Seq<Cv>, lines: Seq<LineString<T>>) -> Seq<Cv> {
    Seq::new(s.len(), |i: int| Cv { path: pts(lines[i]), ..s[i] })
}

// the pairs of the upper chains before n
spec fn uppers(s: Seq<Cv>, pairs: Seq<(usize, usize)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < pairs.len() ==> upper(s, #[trigger] pairs[k], n)
    &&& forall|k: int, j: int| 0 <= k < j < pairs.len() ==> (#[trigger] pairs[k]).0 < (#[trigger] pairs[j]).0
    &&& forall|i: int| 0 <= i < n && (#[trigger] s[i]).w is Clockwise ==> exists|k: int| 0 <= k < pairs.len() && (#[trigger] pairs[k]).0 == i
}

spec fn upper(s: Seq<Cv>, q: (usize, usize), n: int) -> bool {
    0 <= q.0 < n && q.0 < s.len() && s[q.0 as int].w is Clockwise && q.1 == s[q.0 as int].other
}

// the lines when the first k pairs are taken
spec fn taking<T: GeoNum>(s: Seq<Cv>, pairs: Seq<(usize, usize)>, lines: Seq<LineString<T>>, k: int) -> bool {
    &&& lines.len() == s.len()
    &&& forall|j: int| 0 <= j < pairs.len() ==> #[trigger] taken_ok(s, pairs, lines, j, k)
}

spec fn taken_ok<T: GeoNum>(s: Seq<Cv>, pairs: Seq<(usize, usize)>, lines: Seq<LineString<T>>, j: int, k: int) -> bool {
    let a = pairs[j].0 as int;
    let b = pairs[j].1 as int;
    if j < k {
        pts(lines[a]).len() == 0 && pts(lines[b]).len() == 0
    } else {
        pts(lines[a]) == s[a].path && pts(lines[b]) == s[b].path
    }
}

proof fn lemma_take<T: GeoNum>(s: Seq<Cv>, pairs: Seq<(usize, usize)>, lines: Seq<LineString<T>>, k: int, z: LineString<T>, y: LineString<T>, ps: Seq<MonoPoly<T>>, m: MonoPoly<T>)
    requires
        in_pairs(s),
        uppers(s, pairs, s.len() as int),
        taking(s, pairs, lines, k),
        0 <= k < pairs.len(),
        pts(z).len() == 0 && pts(y).len() == 0,
        pts(m.top) == s[pairs[k].0 as int].path,
        pts(m.bot) == s[pairs[k].1 as int].path,
    ensures
        ({
            let t = lines.update(pairs[k].0 as int, z).update(pairs[k].1 as int, y);
            &&& taking(s, pairs, t, k + 1)
            &&& forall|e: (Spot, Spot)| #[trigger] tally(with_lines(s, t), e) + gains(ps.push(m), e) == tally(with_lines(s, lines), e) + gains(ps, e)
        }),
{
    let a = pairs[k].0 as int;
    let b = pairs[k].1 as int;
    let t = lines.update(a, z).update(b, y);
    assert(upper(s, pairs[k], s.len() as int) && pair_ok(s, a));
    assert(taken_ok(s, pairs, lines, k, k));
    assert forall|j: int| 0 <= j < pairs.len() implies #[trigger] taken_ok(s, pairs, t, j, k + 1) by {
        assert(taken_ok(s, pairs, lines, j, k));
        assert(upper(s, pairs[j], s.len() as int) && pair_ok(s, pairs[j].0 as int));
        if j < k {
            assert(pairs[j].0 < pairs[k].0);
        } else if j > k {
            assert(pairs[k].0 < pairs[j].0);
        }
    }
    let c = with_lines(s, lines);
    let ca = Cv { path: pts(z), ..s[a] };
    let cb = Cv { path: pts(y), ..s[b] };
    lemma_set(c, a, ca);
    lemma_set(c.update(a, ca), b, cb);
    assert(with_lines(s, t) =~= c.update(a, ca).update(b, cb));
    assert forall|e: (Spot, Spot)| #[trigger] tally(with_lines(s, t), e) + gains(ps.push(m), e) == tally(c, e) + gains(ps, e) by {
        assert(ps.push(m).drop_last() =~= ps);
        assert(tally(c.update(a, ca), e) == tally(c, e) - sg(s[a].w) * steps(s[a].path, e) + sg(s[a].w) * steps(pts(z), e));
        assert(steps(pts(z), e) == 0 && steps(pts(y), e) == 0);
        assert(tally(with_lines(s, t), e) == tally(c.update(a, ca), e) - sg(s[b].w) * steps(s[b].path, e) + sg(s[b].w) * steps(pts(y), e));
        lemma_sg(s[a].w, steps(s[a].path, e));
        lemma_sg(s[a].w, steps(pts(z), e));
        lemma_sg(s[b].w, steps(s[b].path, e));
        lemma_sg(s[b].w, steps(pts(y), e));
        assert(c[a].path == s[a].path && c[b].path == s[b].path);
        assert(gains(ps.push(m), e) == gains(ps, e) + steps(pts(m.top), e) - steps(pts(m.bot), e));
    }
}

proof fn lemma_taken<T: GeoNum>(s: Seq<Cv>, pairs: Seq<(usize, usize)>, lines: Seq<LineString<T>>, e: (Spot, Spot))
    requires
        in_pairs(s),
        uppers(s, pairs, s.len() as int),
        taking(s, pairs, lines, pairs.len() as int),
    ensures
        tally(with_lines(s, lines), e) == 0,
{
    let c = with_lines(s, lines);
    let f = |c: Cv| sg(c.w) * steps(c.path, e);
    assert forall|i: int| 0 <= i < c.len() implies f(#[trigger] c[i]) == 0 by {
        assert(pair_ok(s, i));
        let u = if s[i].w is Clockwise { i } else { s[i].other };
        assert(s[u].w is Clockwise);
        let k = choose|k: int| 0 <= k < pairs.len() && (#[trigger] pairs[k]).0 == u;
        assert(taken_ok(s, pairs, lines, k, pairs.len() as int));
        assert(upper(s, pairs[k], s.len() as int));
        assert(steps(c[i].path, e) == 0);
        assert(sg(c[i].w) * 0 == 0);
    }
    lemma_sum_zero(c, f);
}
