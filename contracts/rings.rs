// ---- assumed: geo types ----------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(PartialEq, Eq, Clone, Copy)]
enum WindingOrder {
    Clockwise,
    CounterClockwise,
}

impl PartialEqSpecImpl for WindingOrder {
    closed spec fn obeys_eq_spec() -> bool {
        true
    }

    closed spec fn eq_spec(&self, o: &Self) -> bool {
        *self == *o
    }
}

impl WindingOrder {
    fn dup(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

struct LineString<T: GeoNum>(Vec<Coordinate<T>>);

spec fn ats<T: GeoNum>(c: Seq<Coordinate<T>>) -> Seq<Spot> {
    c.map_values(|p: Coordinate<T>| at(p))
}

impl<T: GeoNum> LineString<T> {
    // assumed: geo_types::LineString::close
    #[verifier::external_body]
    fn close(&mut self)
        ensures
            final(self).0@ == if closed(ats(old(self).0@)) {
                old(self).0@
            } else {
                old(self).0@.push(old(self).0@[0])
            },
    {
        unimplemented!()
    }

    // assumed: geo::winding_order::Winding, on rings that visit no vertex twice
    #[verifier::external_body]
    fn winding_order(&self) -> (r: Option<WindingOrder>)
        ensures
            once_around(ats(self.0@)) ==> r == wind(ats(self.0@)),
    {
        unimplemented!()
    }
}

// ---- assumed: std ----
struct VecDeque<T> {
    v: Vec<T>,
}

impl<T> View for VecDeque<T> {
    type V = Seq<T>;

    closed spec fn view(&self) -> Seq<T> {
        self.v@
    }
}

impl<T> VecDeque<T> {
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures
            r@ == Seq::<T>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn push_back(&mut self, e: T)
        ensures
            final(self)@ == old(self)@.push(e),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn push_front(&mut self, e: T)
        ensures
            final(self)@ == seq![e] + old(self)@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn clear(&mut self)
        ensures
            final(self)@ == Seq::<T>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: &T)
        requires
            i < self@.len(),
        ensures
            *r == self@[i as int],
    {
        unimplemented!()
    }
}

impl<T: Copy> VecDeque<T> {
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: Run<'a, T>)
        ensures
            r@ == self@,
    {
        unimplemented!()
    }
}

// an iterator over a deque, forwards or backwards
struct Run<'a, T> {
    v: &'a [T],
    back: bool,
}

impl<'a, T> View for Run<'a, T> {
    type V = Seq<T>;

    uninterp spec fn view(&self) -> Seq<T>;
}

impl<'a, T: Copy> Run<'a, T> {
    #[verifier::external_body]
    fn rev(self) -> (r: Self)
        ensures
            r@ == self@.reverse(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            match r {
                Some(p) => old(self)@.len() > 0 && *p == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }
}

// maps from points of the sweep
struct BTreeMap<K, V> {
    k: Vec<K>,
    v: Vec<V>,
}

impl<T: GeoNum, V> View for BTreeMap<SweepPoint<T>, V> {
    type V = Map<Spot, V>;

    uninterp spec fn view(&self) -> Map<Spot, V>;
}

impl<T: GeoNum, V> BTreeMap<SweepPoint<T>, V> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures
            r@ == Map::<Spot, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn clear(&mut self)
        ensures
            final(self)@ == Map::<Spot, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get(&self, k: &SweepPoint<T>) -> (r: Option<&V>)
        ensures
            r is Some <==> self@.contains_key(pt(*k)),
            r matches Some(v) ==> *v == self@[pt(*k)],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get_mut(&mut self, k: &SweepPoint<T>) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => old(self)@.contains_key(pt(*k)) && *v == old(self)@[pt(*k)] && final(self)@ == old(self)@.insert(pt(*k), *final(v)),
                None => !old(self)@.contains_key(pt(*k)) && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn insert(&mut self, k: SweepPoint<T>, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(pt(k), v),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn remove(&mut self, k: &SweepPoint<T>) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(pt(*k)),
            r is Some <==> old(self)@.contains_key(pt(*k)),
    {
        unimplemented!()
    }
}

type Spot = (real, real);

// `pt`, where a parameter has that name
#[verifier::inline]
spec fn spot<T: GeoNum>(p: SweepPoint<T>) -> Spot {
    pt(p)
}

// `a.drain(k..)`, collected
#[verifier::external_body]
fn drain_from<T>(a: &mut Vec<T>, k: usize) -> (r: Vec<T>)
    requires
        k <= old(a)@.len(),
    ensures
        r@ == old(a)@.subrange(k as int, old(a)@.len() as int),
        final(a)@ == old(a)@.subrange(0, k as int),
{
    a.drain(k..).collect()
}

//@@ fn winding_inverse
fn winding_inverse(winding: WindingOrder) -> (ret: WindingOrder) /*@
    ensures
        ret == flip(winding),
@*/ {
    match winding {
        WindingOrder::Clockwise => WindingOrder::CounterClockwise,
        WindingOrder::CounterClockwise => WindingOrder::Clockwise,
    }
}
//@@ end

// ---- rings.rs --------------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct Link derives=Debug,Clone,Copy,Default,PartialEq,Eq,PartialOrd,Ord
struct Link {
    idx: usize,
    to_front: bool,
}
//@@ end

//@@ struct Chain file=src/bops/rings.rs
struct Chain<T: GeoNum> {
    winding: WindingOrder,
    items: VecDeque<SweepPoint<T>>,
    next_front: Option<Link>,
    next_back: Option<Link>,
}
//@@ end

//@@ struct Rings
struct Rings<T: GeoNum> {
    chains: Vec<Chain<T>>,
    end_points: BTreeMap<SweepPoint<T>, Vec<Link>>,
}
//@@ end

//@@ struct Ring
struct Ring<T: GeoNum> {
    coords: LineString<T>,
    is_hole: bool,
}
//@@ end


// ---- paths ----
spec fn flip(w: WindingOrder) -> WindingOrder {
    match w {
        WindingOrder::Clockwise => WindingOrder::CounterClockwise,
        WindingOrder::CounterClockwise => WindingOrder::Clockwise,
    }
}

// the edge traversed from a to b with the label w, directed so that the region is on its right
spec fn dir(a: Spot, b: Spot, w: WindingOrder) -> (Spot, Spot) {
    if w is Clockwise {
        (a, b)
    } else {
        (b, a)
    }
}

spec fn spots<T: GeoNum>(s: Seq<SweepPoint<T>>) -> Seq<Spot> {
    s.map_values(|p: SweepPoint<T>| pt(p))
}

type Edges = Multiset<(Spot, Spot)>;

// the edges of a path
spec fn pairs(s: Seq<Spot>, w: WindingOrder) -> Edges
    decreases s.len(),
{
    if s.len() < 2 {
        Multiset::empty()
    } else {
        pairs(s.drop_last(), w).insert(dir(s[s.len() - 2], s.last(), w))
    }
}

proof fn lemma_pairs_back(s: Seq<Spot>, p: Spot, w: WindingOrder)
    requires
        s.len() > 0,
    ensures
        pairs(s.push(p), w) == pairs(s, w).insert(dir(s.last(), p, w)),
{
    assert(s.push(p).drop_last() =~= s);
}

proof fn lemma_pairs_front(s: Seq<Spot>, p: Spot, w: WindingOrder)
    requires
        s.len() > 0,
    ensures
        pairs(seq![p] + s, w) == pairs(s, w).insert(dir(p, s[0], w)),
    decreases s.len(),
{
    let t = seq![p] + s;
    if s.len() == 1 {
        assert(t.drop_last() =~= seq![p]);
        assert(pairs(seq![p], w) =~= Multiset::empty());
        assert(pairs(s, w) =~= Multiset::empty());
        assert(t =~= seq![p].push(s[0]));
        lemma_pairs_back(seq![p], s[0], w);
    } else {
        lemma_pairs_front(s.drop_last(), p, w);
        assert(t.drop_last() =~= seq![p] + s.drop_last());
        assert(pairs(t, w) =~= pairs(s, w).insert(dir(p, s[0], w)));
    }
}

proof fn lemma_pairs_rev(s: Seq<Spot>, w: WindingOrder)
    ensures
        pairs(s.reverse(), w) == pairs(s, flip(w)),
    decreases s.len(),
{
    if s.len() >= 2 {
        let t = s.drop_last();
        lemma_pairs_rev(t, w);
        assert(s.reverse() =~= seq![s.last()] + t.reverse());
        lemma_pairs_front(t.reverse(), s.last(), w);
        assert(t.reverse()[0] == s[s.len() - 2]);
    }
}

// cut at k
proof fn lemma_pairs_cut(s: Seq<Spot>, k: int, w: WindingOrder)
    requires
        0 <= k < s.len(),
    ensures
        pairs(s, w) == pairs(s.subrange(0, k + 1), w).add(pairs(s.subrange(k, s.len() as int), w)),
    decreases s.len(),
{
    let n = s.len() as int;
    if k == n - 1 {
        assert(s.subrange(0, n) =~= s);
        assert(pairs(s.subrange(k, n), w) =~= Multiset::empty());
        assert(pairs(s, w) =~= pairs(s, w).add(Multiset::empty()));
    } else {
        let t = s.drop_last();
        lemma_pairs_cut(t, k, w);
        assert(t.subrange(0, k + 1) =~= s.subrange(0, k + 1));
        assert(s.subrange(k, n).drop_last() =~= t.subrange(k, n - 1));
        assert(pairs(s, w) =~= pairs(s.subrange(0, k + 1), w).add(pairs(s.subrange(k, n), w)));
    }
}

proof fn lemma_pairs_has(s: Seq<Spot>, i: int, w: WindingOrder)
    requires
        0 <= i < s.len() - 1,
    ensures
        pairs(s, w).count(dir(s[i], s[i + 1], w)) > 0,
    decreases s.len(),
{
    if i < s.len() - 2 {
        lemma_pairs_has(s.drop_last(), i, w);
    }
}

// a path that returns to its vertex k: what is cut off, closed, and what is left have its edges
proof fn lemma_cut_off(s: Seq<Spot>, k: int, p: Spot, w: WindingOrder)
    requires
        0 <= k < s.len(),
        s[k] == p,
    ensures
        pairs(s.push(p), w) == pairs(s.subrange(0, k).push(p), w).add(pairs(s.subrange(k, s.len() as int).push(p), w)),
{
    let t = s.push(p);
    lemma_pairs_cut(t, k, w);
    assert(t.subrange(0, k + 1) =~= s.subrange(0, k).push(p));
    assert(t.subrange(k, t.len() as int) =~= s.subrange(k, s.len() as int).push(p));
}

// ---- rings ----
spec fn closed(s: Seq<Spot>) -> bool {
    s.len() == 0 || s[0] == s.last()
}

spec fn distinct(s: Seq<Spot>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}

// a closed ring with three vertices or more that visits none twice
spec fn once_around(s: Seq<Spot>) -> bool {
    &&& s.len() >= 4
    &&& s[0] == s.last()
    &&& distinct(s.drop_last())
}

spec fn least(s: Seq<Spot>, m: int) -> bool {
    &&& 0 <= m < s.len() - 1
    &&& forall|k: int| 0 <= k < s.len() - 1 ==> lexr(s[m], #[trigger] s[k]) != Ordering::Greater
}

spec fn before(s: Seq<Spot>, m: int) -> Spot {
    s[if m == 0 {
        s.len() - 2
    } else {
        m - 1
    }]
}

// the turn at the first vertex in the sweep order
spec fn wind(s: Seq<Spot>) -> Option<WindingOrder> {
    let m = choose|m: int| least(s, m);
    match turn(area(before(s, m), s[m], s[m + 1])) {
        Orientation::CounterClockwise => Some(WindingOrder::CounterClockwise),
        Orientation::Clockwise => Some(WindingOrder::Clockwise),
        Orientation::Collinear => None,
    }
}

// there is an edge between p and a
spec fn arm(m: Edges, p: Spot, a: Spot) -> bool {
    m.count((p, a)) + m.count((a, p)) > 0
}

// edges that meet at most in ends: no two on one ray, none twice
spec fn spread(m: Edges) -> bool {
    &&& forall|p: Spot, a: Spot| #![trigger m.count((p, a))] m.count((p, a)) + m.count((a, p)) <= 1
    &&& forall|p: Spot, a: Spot, b: Spot| #[trigger] arm(m, p, a) && #[trigger] arm(m, p, b) && a != b && lexr(p, a) == Ordering::Less && lexr(p, b) == Ordering::Less
        ==> area(a, p, b) != 0real
}

spec fn part(a: Edges, b: Edges) -> bool {
    forall|e: (Spot, Spot)| #[trigger] a.count(e) <= b.count(e)
}

proof fn lemma_least(s: Seq<Spot>, n: int) -> (m: int)
    requires
        0 < n < s.len(),
    ensures
        0 <= m < n,
        forall|k: int| 0 <= k < n ==> lexr(s[m], #[trigger] s[k]) != Ordering::Greater,
    decreases n,
{
    if n == 1 {
        0
    } else {
        let m = lemma_least(s, n - 1);
        if lexr(s[m], s[n - 1]) != Ordering::Greater {
            m
        } else {
            n - 1
        }
    }
}

// a closed path over spread edges that visits no vertex twice has a winding order
proof fn lemma_wind(s: Seq<Spot>, w: WindingOrder, m: Edges)
    requires
        s.len() >= 2,
        s[0] == s.last(),
        distinct(s.drop_last()),
        spread(m),
        part(pairs(s, w), m),
    ensures
        once_around(s),
        wind(s) is Some,
{
    let d = s.drop_last();
    let n = s.len() as int;
    if n == 2 {
        lemma_pairs_has(s, 0, w);
        assert(m.count((s[0], s[0])) + m.count((s[0], s[0])) <= 1);
    } else if n == 3 {
        let (a, b) = (s[0], s[1]);
        assert(d[0] != d[1]);
        lemma_pairs_has(s, 0, w);
        lemma_pairs_has(s, 1, w);
        assert(m.count((a, b)) + m.count((b, a)) <= 1);
    } else {
        let g = lemma_least(s, n - 1);
        assert(least(s, g));
        let i = choose|i: int| least(s, i);
        let j = if i == 0 { n - 2 } else { i - 1 };
        lemma_pairs_has(s, j, w);
        lemma_pairs_has(s, i, w);
        let (a, p, b) = (before(s, i), s[i], s[i + 1]);
        assert(s[j + 1] == p);
        assert(arm(m, p, a));
        assert(arm(m, p, b));
        assert(d[j] == a && d[i] == p);
        let k = if i == n - 2 { 0 } else { i + 1 };
        assert(d[k] == b);
        assert(a != b && a != p && b != p);
        assert(lexr(p, a) == Ordering::Less && lexr(p, b) == Ordering::Less);
    }
}

// the label of a ring: on which side of its direction the region is
spec fn label<T: GeoNum>(r: Ring<T>) -> WindingOrder {
    let w = wind(ats(r.coords.0@))->0;
    if r.is_hole {
        flip(w)
    } else {
        w
    }
}

spec fn lay<T: GeoNum>(r: Ring<T>) -> Edges {
    pairs(ats(r.coords.0@), label(r))
}

spec fn lays<T: GeoNum>(l: Seq<Ring<T>>) -> Edges
    decreases l.len(),
{
    if l.len() == 0 {
        Multiset::empty()
    } else {
        lays(l.drop_last()).add(lay(l.last()))
    }
}

spec fn proper<T: GeoNum>(l: Seq<Ring<T>>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> once_around(ats((#[trigger] l[i]).coords.0@)) && wind(ats(l[i].coords.0@)) is Some
}

// ---- chains of edges ----
spec fn tip<T: GeoNum>(cs: Seq<Chain<T>>, k: int, front: bool) -> Spot {
    if front {
        pt(cs[k].items@[0])
    } else {
        pt(cs[k].items@.last())
    }
}

spec fn next_of<T: GeoNum>(cs: Seq<Chain<T>>, k: int, front: bool) -> Option<Link> {
    if front {
        cs[k].next_front
    } else {
        cs[k].next_back
    }
}

// the edges of the chain lead to this end
spec fn head<T: GeoNum>(cs: Seq<Chain<T>>, k: int, front: bool) -> bool {
    front == (cs[k].winding is CounterClockwise)
}

spec fn free<T: GeoNum>(cs: Seq<Chain<T>>, l: Link) -> bool {
    l.idx < cs.len() && next_of(cs, l.idx as int, l.to_front) is None
}

// ends are joined in pairs, a head with a tail
spec fn joined<T: GeoNum>(cs: Seq<Chain<T>>, k: int, front: bool) -> bool {
    next_of(cs, k, front) matches Some(m) ==> {
        &&& m.idx < cs.len()
        &&& next_of(cs, m.idx as int, m.to_front) matches Some(l) && l.idx == k && l.to_front == front
        &&& head(cs, k, front) != head(cs, m.idx as int, m.to_front)
    }
}

spec fn chained<T: GeoNum>(cs: Seq<Chain<T>>) -> bool {
    &&& forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).items@.len() >= 2
    &&& forall|k: int, front: bool| 0 <= k < cs.len() ==> #[trigger] joined(cs, k, front)
}

type Ends = Map<Spot, Vec<Link>>;

// the free ends listed at p
spec fn listed(ends: Ends, p: Spot) -> Seq<Link> {
    if ends.contains_key(p) {
        ends[p]@
    } else {
        Seq::empty()
    }
}

spec fn listed_ok<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends, p: Spot, i: int) -> bool {
    let l = listed(ends, p)[i];
    free(cs, l) && tip(cs, l.idx as int, l.to_front) == p
}

// at a point all free ends are heads, or all are tails
spec fn one_kind<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends, p: Spot) -> bool {
    forall|i: int, j: int| #![trigger listed(ends, p)[i], listed(ends, p)[j]] 0 <= i < j < listed(ends, p).len() ==> {
        let (a, b) = (listed(ends, p)[i], listed(ends, p)[j]);
        head(cs, a.idx as int, a.to_front) == head(cs, b.idx as int, b.to_front) && a != b
    }
}

spec fn rings_ok<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends) -> bool {
    &&& chained(cs)
    &&& forall|p: Spot, i: int| 0 <= i < listed(ends, p).len() ==> #[trigger] listed_ok(cs, ends, p, i)
    &&& forall|p: Spot| #[trigger] one_kind(cs, ends, p)
}

// a free end that is not listed
spec fn loose<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends, l: Link) -> bool {
    free(cs, l) && !listed(ends, tip(cs, l.idx as int, l.to_front)).contains(l)
}

// how many more edges lead to p than from p
spec fn slack<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends, p: Spot) -> int {
    let l = listed(ends, p);
    if l.len() == 0 {
        0
    } else if head(cs, l[0].idx as int, l[0].to_front) {
        l.len() as int
    } else {
        -(l.len() as int)
    }
}

// the edges of chain k, and the one that joins its head to the next chain
spec fn contrib<T: GeoNum>(cs: Seq<Chain<T>>, k: int) -> Edges {
    let own = pairs(spots(cs[k].items@), cs[k].winding);
    let front = cs[k].winding is CounterClockwise;
    match next_of(cs, k, front) {
        Some(m) => own.insert((tip(cs, k, front), tip(cs, m.idx as int, m.to_front))),
        None => own,
    }
}

spec fn total<T: GeoNum>(cs: Seq<Chain<T>>, n: int) -> Edges
    decreases n,
{
    if n <= 0 {
        Multiset::empty()
    } else {
        total(cs, n - 1).add(contrib(cs, n - 1))
    }
}

// all edges added
spec fn edges<T: GeoNum>(r: Rings<T>) -> Edges {
    total(r.chains@, r.chains@.len() as int)
}

proof fn lemma_total_same<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, n: int)
    requires
        forall|j: int| 0 <= j < n ==> #[trigger] contrib(b, j) == contrib(a, j),
    ensures
        total(b, n) == total(a, n),
    decreases n,
{
    if n > 0 {
        lemma_total_same(a, b, n - 1);
    }
}

proof fn lemma_total_one<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, n: int, k: int, e: (Spot, Spot))
    requires
        0 <= k < n,
        forall|j: int| 0 <= j < n && j != k ==> #[trigger] contrib(b, j) == contrib(a, j),
        contrib(b, k) == contrib(a, k).insert(e),
    ensures
        total(b, n) == total(a, n).insert(e),
    decreases n,
{
    if n - 1 == k {
        lemma_total_same(a, b, n - 1);
    } else {
        lemma_total_one(a, b, n - 1, k, e);
    }
    assert(total(b, n) =~= total(a, n).insert(e));
}

spec fn sign(w: WindingOrder) -> int {
    if w is Clockwise {
        1
    } else {
        -1
    }
}

// all ends listed at p are heads (tails)
spec fn only<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends, p: Spot, heads: bool) -> bool {
    forall|i: int| 0 <= i < listed(ends, p).len() ==> head(cs, (#[trigger] listed(ends, p)[i]).idx as int, listed(ends, p)[i].to_front) == heads
}

// a path that leaves the end of a chain with label w goes on in the chain's direction
spec fn away<T: GeoNum>(cs: Seq<Chain<T>>, l: Link, w: WindingOrder) -> bool {
    cs[l.idx as int].winding == if l.to_front {
        flip(w)
    } else {
        w
    }
}

// the same chains, in the same directions
spec fn alike<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).winding == a[k].winding
}

spec fn gain(e: (Spot, Spot), p: Spot) -> int {
    (if e.1 == p {
        1int
    } else {
        0
    }) - (if e.0 == p {
        1int
    } else {
        0
    })
}

proof fn lemma_same_lists<T: GeoNum>(cs: Seq<Chain<T>>, a: Ends, b: Ends)
    requires
        rings_ok(cs, a),
        forall|q: Spot| #[trigger] listed(b, q) == listed(a, q),
    ensures
        rings_ok(cs, b),
        forall|m: Link| #[trigger] loose(cs, b, m) == loose(cs, a, m),
        forall|q: Spot| #[trigger] slack(cs, b, q) == slack(cs, a, q),
{
    assert forall|p: Spot, i: int| 0 <= i < listed(b, p).len() implies #[trigger] listed_ok(cs, b, p, i) by {
        assert(listed_ok(cs, a, p, i));
    }
    assert forall|p: Spot| #[trigger] one_kind(cs, b, p) by {
        assert(one_kind(cs, a, p));
    }
}

proof fn lemma_take<T: GeoNum>(cs: Seq<Chain<T>>, a: Ends, b: Ends, p: Spot, n: int)
    requires
        rings_ok(cs, a),
        0 <= n < listed(a, p).len(),
        listed(b, p) == listed(a, p).remove(n),
        forall|q: Spot| q != p ==> #[trigger] listed(b, q) == listed(a, q),
    ensures
        rings_ok(cs, b),
        loose(cs, b, listed(a, p)[n]),
        tip(cs, listed(a, p)[n].idx as int, listed(a, p)[n].to_front) == p,
        forall|m: Link| #[trigger] loose(cs, b, m) <==> loose(cs, a, m) || m == listed(a, p)[n],
        slack(cs, b, p) == slack(cs, a, p) - if head(cs, listed(a, p)[n].idx as int, listed(a, p)[n].to_front) { 1int } else { -1int },
{
    let (la, lb) = (listed(a, p), listed(b, p));
    let l = la[n];
    assert(listed_ok(cs, a, p, n));
    assert(one_kind(cs, a, p));
    assert forall|q: Spot, i: int| 0 <= i < listed(b, q).len() implies #[trigger] listed_ok(cs, b, q, i) by {
        if q == p {
            assert(listed_ok(cs, a, p, if i < n { i } else { i + 1 }));
        } else {
            assert(listed_ok(cs, a, q, i));
        }
    }
    assert forall|q: Spot| #[trigger] one_kind(cs, b, q) by {
        assert(one_kind(cs, a, q));
    }
    assert forall|m: Link| #[trigger] loose(cs, b, m) <==> loose(cs, a, m) || m == l by {
        if m.idx < cs.len() && tip(cs, m.idx as int, m.to_front) == p {
            if lb.contains(m) {
                let i = choose|i: int| 0 <= i < lb.len() && lb[i] == m;
                let j = if i < n { i } else { i + 1 };
                assert(la[j] == m);
                assert(m != l);
            }
            if la.contains(m) && m != l {
                let j = choose|j: int| 0 <= j < la.len() && la[j] == m;
                assert(lb[if j < n { j } else { j - 1 }] == m);
            }
        }
    }
    if la.len() > 1 {
        let f = lb[0];
        assert(f == la[if n == 0 { 1 } else { 0 }]);
        assert(n > 0 ==> head(cs, la[0].idx as int, la[0].to_front) == head(cs, la[n].idx as int, la[n].to_front));
        assert(head(cs, la[0].idx as int, la[0].to_front) == head(cs, la[1].idx as int, la[1].to_front));
    }
}

proof fn lemma_put<T: GeoNum>(cs: Seq<Chain<T>>, a: Ends, b: Ends, p: Spot, l: Link)
    requires
        rings_ok(cs, a),
        loose(cs, a, l),
        tip(cs, l.idx as int, l.to_front) == p,
        only(cs, a, p, head(cs, l.idx as int, l.to_front)),
        listed(b, p) == listed(a, p).push(l),
        forall|q: Spot| q != p ==> #[trigger] listed(b, q) == listed(a, q),
    ensures
        rings_ok(cs, b),
        forall|m: Link| #[trigger] loose(cs, b, m) <==> loose(cs, a, m) && m != l,
        slack(cs, b, p) == slack(cs, a, p) + if head(cs, l.idx as int, l.to_front) { 1int } else { -1int },
{
    let (la, lb) = (listed(a, p), listed(b, p));
    let n = la.len() as int;
    assert forall|q: Spot, i: int| 0 <= i < listed(b, q).len() implies #[trigger] listed_ok(cs, b, q, i) by {
        if q != p || i < n {
            assert(listed_ok(cs, a, q, i));
        }
    }
    assert forall|q: Spot| #[trigger] one_kind(cs, b, q) by {
        assert(one_kind(cs, a, q));
        if q == p {
            assert forall|i: int, j: int| 0 <= i < j < lb.len() implies head(cs, lb[i].idx as int, lb[i].to_front) == head(cs, lb[j].idx as int, lb[j].to_front) && lb[i] != lb[j] by {
                assert(lb[i] == la[i]);
                if j < n {
                    assert(lb[j] == la[j]);
                } else {
                    assert(la.contains(la[i]));
                }
            }
        }
    }
    assert forall|m: Link| #[trigger] loose(cs, b, m) <==> loose(cs, a, m) && m != l by {
        if m.idx < cs.len() && tip(cs, m.idx as int, m.to_front) == p {
            assert(lb[n] == l);
            if la.contains(m) {
                let i = choose|i: int| 0 <= i < la.len() && la[i] == m;
                assert(lb[i] == m);
            }
        }
    }
}

// one more vertex at a free end
proof fn lemma_push<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, ends: Ends, l: Link, p: SweepPoint<T>, w: WindingOrder)
    requires
        rings_ok(a, ends),
        loose(a, ends, l),
        away(a, l, w),
        b.len() == a.len(),
        forall|k: int| 0 <= k < a.len() && k != l.idx ==> #[trigger] b[k] == a[k],
        b[l.idx as int] == (Chain { items: b[l.idx as int].items, ..a[l.idx as int] }),
        b[l.idx as int].items@ == if l.to_front {
            seq![p] + a[l.idx as int].items@
        } else {
            a[l.idx as int].items@.push(p)
        },
    ensures
        rings_ok(b, ends),
        alike(a, b),
        forall|m: Link| #[trigger] loose(b, ends, m) <==> loose(a, ends, m),
        tip(b, l.idx as int, l.to_front) == pt(p),
        total(b, b.len() as int) == total(a, a.len() as int).insert(dir(tip(a, l.idx as int, l.to_front), pt(p), w)),
{
    let x = l.idx as int;
    assert forall|k: int, front: bool| 0 <= k < a.len() implies #[trigger] joined(b, k, front) && next_of(b, k, front) == next_of(a, k, front) && head(b, k, front) == head(
        a,
        k,
        front,
    ) && (k != x || front != l.to_front ==> tip(b, k, front) == tip(a, k, front)) by {
        assert(joined(a, k, front));
        assert(a[k].items@.len() >= 2);
    }
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).items@.len() >= 2 by {
        assert(a[k].items@.len() >= 2);
    }
    let q = tip(a, x, l.to_front);
    assert forall|r: Spot, i: int| 0 <= i < listed(ends, r).len() implies #[trigger] listed_ok(b, ends, r, i) && listed(ends, r)[i] != l by {
        assert(listed_ok(a, ends, r, i));
        let m = listed(ends, r)[i];
        if m == l {
            assert(r == q);
            assert(listed(ends, q).contains(l));
        }
        assert(joined(b, m.idx as int, m.to_front));
    }
    assert forall|r: Spot| #[trigger] one_kind(b, ends, r) by {
        assert(one_kind(a, ends, r));
        assert forall|i: int, j: int| #![trigger listed(ends, r)[i], listed(ends, r)[j]] 0 <= i < j < listed(ends, r).len() implies {
            let (c, d) = (listed(ends, r)[i], listed(ends, r)[j]);
            head(b, c.idx as int, c.to_front) == head(b, d.idx as int, d.to_front) && c != d
        } by {
            assert(listed_ok(a, ends, r, i) && listed_ok(a, ends, r, j));
            assert(joined(b, listed(ends, r)[i].idx as int, listed(ends, r)[i].to_front));
            assert(joined(b, listed(ends, r)[j].idx as int, listed(ends, r)[j].to_front));
        }
    }
    assert forall|m: Link| #[trigger] loose(b, ends, m) <==> loose(a, ends, m) by {
        if m.idx < a.len() {
            assert(joined(b, m.idx as int, m.to_front));
            if m == l {
                let r = tip(b, x, l.to_front);
                if listed(ends, r).contains(l) {
                    let i = choose|i: int| 0 <= i < listed(ends, r).len() && listed(ends, r)[i] == l;
                    assert(listed_ok(b, ends, r, i));
                }
            }
        }
    }
    assert(joined(b, x, l.to_front));
    // the sum of the edges
    let (sa, sb) = (spots(a[x].items@), spots(b[x].items@));
    assert(a[x].items@.len() >= 2);
    if l.to_front {
        lemma_pairs_front(sa, pt(p), a[x].winding);
        assert(sb =~= seq![pt(p)] + sa);
        assert(dir(pt(p), sa[0], a[x].winding) == dir(q, pt(p), w));
    } else {
        lemma_pairs_back(sa, pt(p), a[x].winding);
        assert(sb =~= sa.push(pt(p)));
    }
    assert forall|k: int| 0 <= k < b.len() && k != x implies #[trigger] contrib(b, k) == contrib(a, k) by {
        let front = a[k].winding is CounterClockwise;
        assert(joined(b, k, front) && joined(a, k, front));
        if let Some(m) = next_of(a, k, front) {
            assert(joined(b, m.idx as int, m.to_front));
        }
    }
    let e = dir(q, pt(p), w);
    let front = a[x].winding is CounterClockwise;
    assert(joined(b, x, front) && joined(a, x, front));
    if let Some(m) = next_of(a, x, front) {
        assert(joined(b, m.idx as int, m.to_front));
    }
    assert(contrib(b, x) =~= contrib(a, x).insert(e));
    lemma_total_one(a, b, a.len() as int, x, e);
}

// two free ends joined
proof fn lemma_link<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, ends: Ends, i: Link, j: Link, w: WindingOrder)
    requires
        rings_ok(a, ends),
        loose(a, ends, i),
        loose(a, ends, j),
        away(a, i, w),
        away(a, j, flip(w)),
        b.len() == a.len(),
        forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).items == a[k].items && b[k].winding == a[k].winding,
        forall|k: int, front: bool| 0 <= k < a.len() ==> #[trigger] next_of(b, k, front) == if k == i.idx && front == i.to_front {
            Some(j)
        } else if k == j.idx && front == j.to_front {
            Some(i)
        } else {
            next_of(a, k, front)
        },
    ensures
        rings_ok(b, ends),
        alike(a, b),
        forall|m: Link| #[trigger] loose(b, ends, m) <==> loose(a, ends, m) && m != i && m != j,
        total(b, b.len() as int) == total(a, a.len() as int).insert(dir(tip(a, i.idx as int, i.to_front), tip(a, j.idx as int, j.to_front), w)),
{
    assert(i != j);
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).items@.len() >= 2 by {
        assert(a[k].items@.len() >= 2);
    }
    assert forall|k: int, front: bool| 0 <= k < b.len() implies #[trigger] joined(b, k, front) by {
        assert(joined(a, k, front));
        if let Some(m) = next_of(a, k, front) {
            assert(joined(a, m.idx as int, m.to_front));
        }
    }
    assert forall|r: Spot, n: int| 0 <= n < listed(ends, r).len() implies #[trigger] listed_ok(b, ends, r, n) by {
        assert(listed_ok(a, ends, r, n));
        let m = listed(ends, r)[n];
        assert(listed(ends, r).contains(m));
        assert(m != i && m != j);
        assert(next_of(b, m.idx as int, m.to_front) == next_of(a, m.idx as int, m.to_front));
    }
    assert forall|r: Spot| #[trigger] one_kind(b, ends, r) by {
        assert(one_kind(a, ends, r));
        assert forall|n: int, o: int| #![trigger listed(ends, r)[n], listed(ends, r)[o]] 0 <= n < o < listed(ends, r).len() implies {
            let (c, d) = (listed(ends, r)[n], listed(ends, r)[o]);
            head(b, c.idx as int, c.to_front) == head(b, d.idx as int, d.to_front) && c != d
        } by {
            assert(listed_ok(a, ends, r, n) && listed_ok(a, ends, r, o));
        }
    }
    assert forall|m: Link| #[trigger] loose(b, ends, m) <==> loose(a, ends, m) && m != i && m != j by {
        if m.idx < a.len() {
            assert(next_of(b, m.idx as int, m.to_front) == next_of(b, m.idx as int, m.to_front));
        }
    }
    let (hd, tl) = if w is Clockwise { (i, j) } else { (j, i) };
    let x = hd.idx as int;
    let e = dir(tip(a, i.idx as int, i.to_front), tip(a, j.idx as int, j.to_front), w);
    assert forall|k: int| 0 <= k < b.len() && k != x implies #[trigger] contrib(b, k) == contrib(a, k) by {
        let front = a[k].winding is CounterClockwise;
        assert(next_of(b, k, front) == next_of(a, k, front));
        assert(joined(a, k, front));
        if let Some(m) = next_of(a, k, front) {
            assert(b[m.idx as int].items == a[m.idx as int].items);
        }
    }
    assert(b[tl.idx as int].items == a[tl.idx as int].items);
    assert(next_of(b, x, hd.to_front) == Some(tl));
    assert(contrib(b, x) =~= contrib(a, x).insert(e));
    lemma_total_one(a, b, a.len() as int, x, e);
}

// a new chain of one edge
proof fn lemma_new<T: GeoNum>(a: Seq<Chain<T>>, ends: Ends, c: Chain<T>)
    requires
        rings_ok(a, ends),
        a.len() <= usize::MAX,
        c.items@.len() == 2,
        c.next_front is None && c.next_back is None,
    ensures
        rings_ok(a.push(c), ends),
        forall|m: Link| #[trigger] loose(a.push(c), ends, m) <==> loose(a, ends, m) || m.idx == a.len(),
        total(a.push(c), (a.len() + 1) as int) == total(a, a.len() as int).insert(dir(pt(c.items@[0]), pt(c.items@[1]), c.winding)),
        forall|q: Spot| #[trigger] slack(a.push(c), ends, q) == slack(a, ends, q),
{
    let b = a.push(c);
    let n = a.len() as int;
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).items@.len() >= 2 by {
        if k < n {
            assert(a[k].items@.len() >= 2);
        }
    }
    assert forall|k: int, front: bool| 0 <= k < b.len() implies #[trigger] joined(b, k, front) by {
        if k < n {
            assert(joined(a, k, front));
        }
    }
    assert forall|r: Spot, i: int| 0 <= i < listed(ends, r).len() implies #[trigger] listed_ok(b, ends, r, i) by {
        assert(listed_ok(a, ends, r, i));
    }
    assert forall|r: Spot| #[trigger] one_kind(b, ends, r) by {
        assert(one_kind(a, ends, r));
        assert forall|i: int, j: int| #![trigger listed(ends, r)[i], listed(ends, r)[j]] 0 <= i < j < listed(ends, r).len() implies {
            let (c, d) = (listed(ends, r)[i], listed(ends, r)[j]);
            head(b, c.idx as int, c.to_front) == head(b, d.idx as int, d.to_front) && c != d
        } by {
            assert(listed_ok(a, ends, r, i) && listed_ok(a, ends, r, j));
        }
    }
    assert forall|m: Link| #[trigger] loose(b, ends, m) <==> loose(a, ends, m) || m.idx == n by {
        if m.idx == n {
            let r = tip(b, n, m.to_front);
            if listed(ends, r).contains(m) {
                let i = choose|i: int| 0 <= i < listed(ends, r).len() && listed(ends, r)[i] == m;
                assert(listed_ok(a, ends, r, i));
            }
        }
    }
    assert forall|q: Spot| #[trigger] slack(b, ends, q) == slack(a, ends, q) by {
        if listed(ends, q).len() > 0 {
            assert(listed_ok(a, ends, q, 0));
        }
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] contrib(b, k) == contrib(a, k) by {
        let front = a[k].winding is CounterClockwise;
        assert(joined(a, k, front));
    }
    lemma_total_same(a, b, n);
    let s = spots(c.items@);
    assert(s =~= seq![s[0]].push(s[1]));
    lemma_pairs_back(seq![s[0]], s[1], c.winding);
    assert(pairs(seq![s[0]], c.winding) =~= Multiset::empty());
    assert(total(b, n + 1) =~= total(a, n).insert(dir(s[0], s[1], c.winding)));
}

proof fn lemma_only_new<T: GeoNum>(a: Seq<Chain<T>>, ends: Ends, c: Chain<T>, p: Spot, heads: bool)
    requires
        rings_ok(a, ends),
        only(a, ends, p, heads),
    ensures
        only(a.push(c), ends, p, heads),
{
    assert forall|i: int| 0 <= i < listed(ends, p).len() implies head(a.push(c), (#[trigger] listed(ends, p)[i]).idx as int, listed(ends, p)[i].to_front) == heads by {
        assert(listed_ok(a, ends, p, i));
    }
}

proof fn lemma_only_alike<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, ends: Ends, p: Spot, heads: bool)
    requires
        rings_ok(a, ends),
        alike(a, b),
        only(a, ends, p, heads),
    ensures
        only(b, ends, p, heads),
{
    assert forall|i: int| 0 <= i < listed(ends, p).len() implies head(b, (#[trigger] listed(ends, p)[i]).idx as int, listed(ends, p)[i].to_front) == heads by {
        assert(listed_ok(a, ends, p, i));
    }
}

proof fn lemma_alike<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, ends: Ends)
    requires
        rings_ok(a, ends),
        alike(a, b),
    ensures
        forall|q: Spot| #[trigger] slack(b, ends, q) == slack(a, ends, q),
        forall|q: Spot, h: bool| #[trigger] only(b, ends, q, h) == only(a, ends, q, h),
{
    assert forall|q: Spot| #[trigger] slack(b, ends, q) == slack(a, ends, q) by {
        if listed(ends, q).len() > 0 {
            assert(listed_ok(a, ends, q, 0));
        }
    }
    assert forall|q: Spot, h: bool| #[trigger] only(b, ends, q, h) == only(a, ends, q, h) by {
        assert forall|i: int| 0 <= i < listed(ends, q).len() implies head(b, (#[trigger] listed(ends, q)[i]).idx as int, listed(ends, q)[i].to_front) == head(
            a,
            listed(ends, q)[i].idx as int,
            listed(ends, q)[i].to_front,
        ) by {
            assert(listed_ok(a, ends, q, i));
        }
    }
}

// ---- walks along the chains ----
spec fn all_joined<T: GeoNum>(cs: Seq<Chain<T>>) -> bool {
    forall|k: int, front: bool| 0 <= k < cs.len() ==> (#[trigger] next_of(cs, k, front)) is Some
}

// entering the chain at this end, its edges are passed with the label w
spec fn goes<T: GeoNum>(cs: Seq<Chain<T>>, l: Link, w: WindingOrder) -> bool {
    l.idx < cs.len() && head(cs, l.idx as int, l.to_front) == (w is CounterClockwise)
}

spec fn mate<T: GeoNum>(cs: Seq<Chain<T>>, l: Link) -> Link {
    next_of(cs, l.idx as int, l.to_front)->0
}

spec fn tip_of<T: GeoNum>(cs: Seq<Chain<T>>, l: Link) -> Spot {
    tip(cs, l.idx as int, l.to_front)
}

spec fn other(l: Link) -> Link {
    Link { idx: l.idx, to_front: !l.to_front }
}

// the edge over which a walk enters a chain
spec fn joint<T: GeoNum>(cs: Seq<Chain<T>>, l: Link, w: WindingOrder) -> (Spot, Spot) {
    dir(tip_of(cs, mate(cs, l)), tip_of(cs, l), w)
}

// the vertices of a chain, from this end
spec fn run<T: GeoNum>(cs: Seq<Chain<T>>, l: Link) -> Seq<SweepPoint<T>> {
    let s = cs[l.idx as int].items@;
    if l.to_front {
        s
    } else {
        s.reverse()
    }
}

// the edges of the chains below n that are in vis
spec fn sum_in<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, n: int) -> Edges
    decreases n,
{
    if n <= 0 {
        Multiset::empty()
    } else if vis.contains(n - 1) {
        sum_in(cs, vis, n - 1).add(contrib(cs, n - 1))
    } else {
        sum_in(cs, vis, n - 1)
    }
}

proof fn lemma_sum_part<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, n: int)
    ensures
        part(sum_in(cs, vis, n), total(cs, n)),
    decreases n,
{
    if n > 0 {
        lemma_sum_part(cs, vis, n - 1);
        assert forall|e: (Spot, Spot)| #[trigger] sum_in(cs, vis, n).count(e) <= total(cs, n).count(e) by {
            assert(sum_in(cs, vis, n - 1).count(e) <= total(cs, n - 1).count(e));
        }
    }
}

proof fn lemma_sum_all<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, n: int)
    requires
        forall|k: int| 0 <= k < n ==> #[trigger] vis.contains(k),
    ensures
        sum_in(cs, vis, n) == total(cs, n),
    decreases n,
{
    if n > 0 {
        assert(vis.contains(n - 1));
        lemma_sum_all(cs, vis, n - 1);
    }
}

proof fn lemma_sum_none<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, n: int)
    requires
        forall|k: int| 0 <= k < n ==> !#[trigger] vis.contains(k),
    ensures
        sum_in(cs, vis, n) == Edges::empty(),
    decreases n,
{
    if n > 0 {
        assert(!vis.contains(n - 1));
        lemma_sum_none(cs, vis, n - 1);
    }
}

proof fn lemma_sum_add<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, n: int, k: int)
    requires
        !vis.contains(k),
    ensures
        0 <= k < n ==> sum_in(cs, vis.insert(k), n) == sum_in(cs, vis, n).add(contrib(cs, k)),
        !(0 <= k < n) ==> sum_in(cs, vis.insert(k), n) == sum_in(cs, vis, n),
    decreases n,
{
    if n > 0 {
        lemma_sum_add(cs, vis, n - 1, k);
        let v = vis.insert(k);
        let (x, y, z) = (sum_in(cs, vis, n - 1), contrib(cs, n - 1), contrib(cs, k));
        assert(v.contains(n - 1) <==> vis.contains(n - 1) || k == n - 1);
        if k == n - 1 {
            assert(sum_in(cs, v, n) == x.add(y));
        } else if 0 <= k < n && vis.contains(n - 1) {
            assert(sum_in(cs, v, n) == x.add(z).add(y));
            assert(x.add(z).add(y) =~= x.add(y).add(z));
        }
    }
}

// the chains visited are closed under joints, but for the start and the end of the walk
spec fn visited<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int, l: Link) -> bool {
    forall|k: int, front: bool| vis.contains(k) ==> {
        ||| vis.contains((#[trigger] next_of(cs, k, front))->0.idx as int)
        ||| k == c && front
        ||| next_of(cs, k, front)->0 == l
    }
}

spec fn closed_up<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>) -> bool {
    &&& forall|k: int, front: bool| vis.contains(k) ==> vis.contains((#[trigger] next_of(cs, k, front))->0.idx as int)
    &&& forall|k: int| #[trigger] vis.contains(k) ==> 0 <= k < cs.len()
}

spec fn start(c: int) -> Link {
    Link { idx: c as usize, to_front: true }
}

spec fn walking<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int, l: Link, w: WindingOrder) -> bool {
    &&& chained(cs) && all_joined(cs)
    &&& 0 <= c < cs.len() <= usize::MAX
    &&& w == cs[c].winding
    &&& goes(cs, l, w)
    &&& visited(cs, vis, c, l)
    &&& vis.contains(c) ==> vis.contains(mate(cs, l).idx as int)
    &&& !vis.contains(c) ==> l == start(c)
    &&& forall|k: int| #[trigger] vis.contains(k) ==> 0 <= k < cs.len()
}

proof fn lemma_start<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int)
    requires
        chained(cs) && all_joined(cs),
        0 <= c < cs.len() <= usize::MAX,
        closed_up(cs, vis),
        !vis.contains(c),
    ensures
        walking(cs, vis, c, start(c), cs[c].winding),
{
}

// past a chain
proof fn lemma_step<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int, l: Link, w: WindingOrder)
    requires
        walking(cs, vis, c, l, w),
        !vis.contains(l.idx as int),
    ensures
        next_of(cs, l.idx as int, !l.to_front) == Some(mate(cs, other(l))),
        walking(cs, vis.insert(l.idx as int), c, mate(cs, other(l)), w),
        mate(cs, mate(cs, other(l))) == other(l),
        vis.insert(l.idx as int).contains(c),
        mate(cs, other(l)).idx == c ==> mate(cs, other(l)) == start(c) && closed_up(cs, vis.insert(l.idx as int)),
        mate(cs, other(l)).idx != c ==> !vis.insert(l.idx as int).contains(mate(cs, other(l)).idx as int),
{
    let p = l.idx as int;
    let m = mate(cs, other(l));
    let v = vis.insert(p);
    assert(next_of(cs, p, !l.to_front) is Some);
    assert(joined(cs, p, !l.to_front));
    assert(next_of(cs, p, l.to_front) is Some);
    assert(joined(cs, p, l.to_front));
    assert(next_of(cs, m.idx as int, m.to_front) is Some);
    assert(goes(cs, m, w));
    assert forall|k: int, front: bool| v.contains(k) implies {
        ||| v.contains((#[trigger] next_of(cs, k, front))->0.idx as int)
        ||| k == c && front
        ||| next_of(cs, k, front)->0 == m
    } by {
        if k != p {
            assert(vis.contains(k));
        }
    }
    if m.idx == c {
        assert(m == start(c));
    } else if v.contains(m.idx as int) {
        if m.idx == p {
            assert(m == l);
            assert(vis.contains(c));
        } else {
            assert(vis.contains(m.idx as int));
            assert(next_of(cs, m.idx as int, m.to_front)->0 == other(l));
        }
    }
}

// the edges of a chain with that of a joint
proof fn lemma_contrib<T: GeoNum>(cs: Seq<Chain<T>>, l: Link, w: WindingOrder)
    requires
        chained(cs) && all_joined(cs),
        goes(cs, l, w),
    ensures
        contrib(cs, l.idx as int) == pairs(spots(run(cs, l)), w).insert(joint(cs, if w is Clockwise { mate(cs, other(l)) } else { l }, w)),
        spots(run(cs, l)).len() >= 2,
        spots(run(cs, l))[0] == tip_of(cs, l),
        spots(run(cs, l)).last() == tip_of(cs, other(l)),
{
    let k = l.idx as int;
    assert(cs[k].items@.len() >= 2);
    let s = spots(cs[k].items@);
    assert(next_of(cs, k, !l.to_front) is Some);
    assert(joined(cs, k, !l.to_front));
    assert(next_of(cs, k, l.to_front) is Some);
    assert(joined(cs, k, l.to_front));
    if l.to_front {
        assert(cs[k].winding == w);
    } else {
        assert(cs[k].winding == flip(w));
        lemma_pairs_rev(s, w);
        assert(spots(cs[k].items@.reverse()) =~= s.reverse());
    }
    let m = mate(cs, other(l));
    assert(mate(cs, m) == other(l));
}

// what is left to walk, from the last vertex
spec fn ahead(s: Seq<Spot>, t: Seq<Spot>) -> Seq<Spot> {
    if s.len() == 0 {
        t
    } else {
        seq![s.last()] + t
    }
}

proof fn lemma_advance(s: Seq<Spot>, t: Seq<Spot>, w: WindingOrder)
    requires
        t.len() > 0,
    ensures
        pairs(s, w).add(pairs(ahead(s, t), w)) == pairs(s.push(t[0]), w).add(pairs(ahead(s.push(t[0]), t.drop_first()), w)),
{
    let p = t[0];
    let u = t.drop_first();
    assert(t =~= seq![p] + u);
    if s.len() > 0 {
        lemma_pairs_front(t, s.last(), w);
        lemma_pairs_back(s, p, w);
    } else {
        assert(pairs(s, w) =~= Multiset::empty());
        assert(pairs(s.push(p), w) =~= Multiset::empty());
    }
    assert(pairs(s, w).add(pairs(ahead(s, t), w)) =~= pairs(s.push(p), w).add(pairs(ahead(s.push(p), u), w)));
}

// positions of the vertices
spec fn tracked(h: Map<Spot, usize>, s: Seq<Spot>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> h.contains_key(#[trigger] s[i]) && h[s[i]] == i
    &&& forall|q: Spot| #[trigger] h.contains_key(q) ==> h[q] < s.len() && s[h[q] as int] == q
}

proof fn lemma_tracked(h: Map<Spot, usize>, s: Seq<Spot>, p: Spot)
    requires
        tracked(h, s),
        !h.contains_key(p),
        s.len() <= usize::MAX,
    ensures
        tracked(h.insert(p, s.len() as usize), s.push(p)),
{
    let g = h.insert(p, s.len() as usize);
    let t = s.push(p);
    assert forall|i: int| 0 <= i < t.len() implies g.contains_key(#[trigger] t[i]) && g[t[i]] == i by {
        if i < s.len() {
            assert(t[i] == s[i]);
        }
    }
    assert forall|q: Spot| #[trigger] g.contains_key(q) implies g[q] < t.len() && t[g[q] as int] == q by {
        if q != p {
            assert(h.contains_key(q));
        }
    }
}

proof fn lemma_distinct(h: Map<Spot, usize>, s: Seq<Spot>)
    requires
        tracked(h, s),
    ensures
        distinct(s),
{
}

proof fn lemma_lays<T: GeoNum>(l: Seq<Ring<T>>, r: Ring<T>)
    ensures
        lays(l.push(r)) == lays(l).add(lay(r)),
{
    assert(l.push(r).drop_last() =~= l);
}

// the joint that is counted in with the chains visited and not walked yet
spec fn pend<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int, l: Link, w: WindingOrder) -> Edges {
    if !vis.contains(c) {
        Multiset::empty()
    } else if w is Clockwise {
        Multiset::singleton(joint(cs, l, w))
    } else {
        Multiset::singleton(joint(cs, start(c), w))
    }
}

proof fn lemma_enter<T: GeoNum>(cs: Seq<Chain<T>>, vis: Set<int>, c: int, l: Link, w: WindingOrder, sum: Edges, s: Seq<Spot>)
    requires
        walking(cs, vis, c, l, w),
        !vis.contains(l.idx as int),
        vis.contains(c) <==> s.len() > 0,
        s.len() > 0 ==> s.last() == tip_of(cs, mate(cs, l)),
        sum.add(pairs(s, w)).add(pend(cs, vis, c, l, w)) == sum_in(cs, vis, cs.len() as int),
    ensures
        sum.add(pairs(s, w)).add(pairs(ahead(s, spots(run(cs, l))), w)).add(pend(cs, vis.insert(l.idx as int), c, mate(cs, other(l)), w)) == sum_in(
            cs,
            vis.insert(l.idx as int),
            cs.len() as int,
        ),
{
    let v = vis.insert(l.idx as int);
    let n = cs.len() as int;
    let r = spots(run(cs, l));
    let m = mate(cs, other(l));
    lemma_step(cs, vis, c, l, w);
    lemma_contrib(cs, l, w);
    lemma_sum_add(cs, vis, n, l.idx as int);
    if s.len() > 0 {
        lemma_pairs_front(r, s.last(), w);
        assert(dir(s.last(), r[0], w) == joint(cs, l, w));
    } else {
        assert(l == start(c));
    }
    assert(sum.add(pairs(s, w)).add(pairs(ahead(s, r), w)).add(pend(cs, v, c, m, w)) =~= sum_in(cs, v, n));
}

proof fn lemma_sums(sum: Edges, x: Edges, y: Edges, u: Edges, v: Edges, tail: Edges)
    requires
        x.add(y) == u.add(v),
    ensures
        sum.add(x).add(y).add(tail) == sum.add(u).add(v).add(tail),
{
    assert(sum.add(x).add(y) =~= sum.add(x.add(y)));
    assert(sum.add(u).add(v) =~= sum.add(u.add(v)));
}

proof fn lemma_fits(vis: Set<int>, n: int)
    requires
        n >= 0,
        forall|k: int| #[trigger] vis.contains(k) ==> 0 <= k < n,
    ensures
        vis.len() <= n,
{
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_len_subset(vis, vstd::set_lib::set_int_range(0, n));
}

// at a vertex visited before, the part of the walk since then is a ring
proof fn lemma_cut_ring(s: Seq<Spot>, t: Seq<Spot>, k: int, w: WindingOrder, sum: Edges, tail: Edges, b: Edges, m: Edges)
    requires
        0 <= k < s.len(),
        t.len() > 0,
        s[k] == t[0],
        distinct(s),
        sum.add(pairs(s, w)).add(pairs(ahead(s, t), w)).add(tail) == b,
        part(b, m),
        spread(m),
    ensures
        ({
            let r = s.subrange(k, s.len() as int);
            let z = r.push(r[0]);
            let u = s.subrange(0, k);
            &&& once_around(z) && wind(z) is Some
            &&& sum.add(pairs(z, w)).add(pairs(u.push(t[0]), w)).add(pairs(ahead(u.push(t[0]), t.drop_first()), w)).add(tail) == b
        }),
{
    let p = t[0];
    let r = s.subrange(k, s.len() as int);
    let u = s.subrange(0, k);
    let z = r.push(r[0]);
    lemma_advance(s, t, w);
    lemma_cut_off(s, k, p, w);
    let (x, y) = (pairs(s.push(p), w), pairs(ahead(s.push(p), t.drop_first()), w));
    lemma_sums(sum, pairs(s, w), pairs(ahead(s, t), w), x, y, tail);
    assert(z == r.push(p));
    assert(x =~= pairs(u.push(p), w).add(pairs(z, w)));
    assert(ahead(s.push(p), t.drop_first()) == ahead(u.push(p), t.drop_first()));
    let rest = pairs(ahead(u.push(p), t.drop_first()), w);
    assert(sum.add(pairs(z, w)).add(pairs(u.push(p), w)).add(rest).add(tail) =~= b);
    let a = sum.add(pairs(u.push(p), w)).add(rest).add(tail);
    assert(pairs(z, w).add(a) =~= b);
    assert(distinct(r));
    lemma_ring(r, w, a, b, m);
}

// a ring over some of the edges
proof fn lemma_ring(s: Seq<Spot>, w: WindingOrder, a: Edges, b: Edges, m: Edges)
    requires
        s.len() > 0,
        distinct(s),
        pairs(s.push(s[0]), w).add(a) == b,
        part(b, m),
        spread(m),
    ensures
        once_around(s.push(s[0])),
        wind(s.push(s[0])) is Some,
{
    let t = s.push(s[0]);
    assert(t.drop_last() =~= s);
    assert forall|e: (Spot, Spot)| #[trigger] pairs(t, w).count(e) <= m.count(e) by {
        assert(b.count(e) <= m.count(e));
    }
    lemma_wind(t, w, m);
}

// every chain is as it was, or emptied
spec fn emptied<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, vis: Set<int>) -> bool {
    &&& b.len() == a.len()
    &&& forall|k: int, front: bool| 0 <= k < a.len() ==> #[trigger] next_of(b, k, front) == next_of(a, k, front)
    &&& forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).winding == a[k].winding
    &&& forall|k: int| 0 <= k < a.len() && !vis.contains(k) ==> (#[trigger] b[k]).items@ == a[k].items@
    &&& forall|k: int| 0 <= k < a.len() && vis.contains(k) ==> (#[trigger] b[k]).items@.len() == 0
}

proof fn lemma_emptied<T: GeoNum>(a: Seq<Chain<T>>, b: Seq<Chain<T>>, d: Seq<Chain<T>>, vis: Set<int>, k: int)
    requires
        emptied(a, b, vis),
        0 <= k < a.len(),
        d.len() == b.len(),
        forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] d[i] == b[i],
        d[k] == (Chain { items: d[k].items, ..b[k] }),
        d[k].items@.len() == 0,
    ensures
        emptied(a, d, vis.insert(k)),
{
    let v = vis.insert(k);
    assert forall|i: int, front: bool| 0 <= i < a.len() implies #[trigger] next_of(d, i, front) == next_of(a, i, front) by {
        assert(next_of(b, i, front) == next_of(a, i, front));
        if i != k {
            assert(d[i] == b[i]);
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] d[i]).winding == a[i].winding by {
        assert(b[i].winding == a[i].winding);
    }
    assert forall|i: int| 0 <= i < a.len() && !v.contains(i) implies (#[trigger] d[i]).items@ == a[i].items@ by {
        assert(b[i].items@ == a[i].items@);
    }
    assert forall|i: int| 0 <= i < a.len() && v.contains(i) implies (#[trigger] d[i]).items@.len() == 0 by {
        if i != k {
            assert(vis.contains(i));
            assert(b[i].items@.len() == 0);
        }
    }
}

// no end is free
spec fn settled<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends) -> bool {
    &&& rings_ok(cs, ends)
    &&& forall|m: Link| !#[trigger] loose(cs, ends, m)
    &&& forall|q: Spot| #[trigger] slack(cs, ends, q) == 0
}

proof fn lemma_settled<T: GeoNum>(cs: Seq<Chain<T>>, ends: Ends)
    requires
        settled(cs, ends),
        cs.len() <= usize::MAX,
    ensures
        chained(cs) && all_joined(cs),
{
    assert forall|k: int, front: bool| 0 <= k < cs.len() implies (#[trigger] next_of(cs, k, front)) is Some by {
        let l = Link { idx: k as usize, to_front: front };
        if next_of(cs, k, front) is None {
            assert(!loose(cs, ends, l));
            let p = tip(cs, k, front);
            assert(slack(cs, ends, p) == 0);
        }
    }
}

impl<T: GeoNum> Chain<T> {
//@@ fn new self=Chain file=src/bops/rings.rs
    fn new(start: SweepPoint<T>, end: SweepPoint<T>, winding: WindingOrder) -> (ret: Self) /*@
        ensures
            ret.items@ == seq![start, end],
            ret.winding == winding && ret.next_front is None && ret.next_back is None,
    @*/ {
        let mut this = Self {
            winding,
            items: VecDeque::with_capacity(8),
            next_front: None,
            next_back: None,
        };
        this.items.push_back(start);
        this.items.push_back(end);
        /*@ proof {
            assert(this.items@ =~= seq![start, end]);
        } @*/
        this
    }
//@@ end
//@@ fn push_front self=Chain file=src/bops/rings.rs
    fn push_front(&mut self, pt: SweepPoint<T>) /*@
        requires
            old(self).next_front is None,
        ensures
            *final(self) == (Chain { items: final(self).items, ..*old(self) }),
            final(self).items@ == seq![pt] + old(self).items@,
    @*/ {
        rt_assert(self.next_front.is_none());
        self.items.push_front(pt);
    }
//@@ end
//@@ fn push_back self=Chain file=src/bops/rings.rs
    fn push_back(&mut self, pt: SweepPoint<T>) /*@
        requires
            old(self).next_back is None,
        ensures
            *final(self) == (Chain { items: final(self).items, ..*old(self) }),
            final(self).items@ == old(self).items@.push(pt),
    @*/ {
        rt_assert(self.next_back.is_none());
        self.items.push_back(pt)
    }
//@@ end
//@@ fn link_front self=Chain file=src/bops/rings.rs
    fn link_front(&mut self, link: Link) /*@
        requires
            old(self).next_front is None,
        ensures
            *final(self) == (Chain { next_front: Some(link), ..*old(self) }),
    @*/ {
        rt_assert(self.next_front.is_none());
        self.next_front = Some(link);
    }
//@@ end
//@@ fn link_back self=Chain file=src/bops/rings.rs
    fn link_back(&mut self, link: Link) /*@
        requires
            old(self).next_back is None,
        ensures
            *final(self) == (Chain { next_back: Some(link), ..*old(self) }),
    @*/ {
        rt_assert(self.next_back.is_none());
        self.next_back = Some(link);
    }
//@@ end
}

impl<T: GeoNum> Ring<T> {
//@@ fn from_coords self=Ring
    fn from_coords(coords: Vec<Coordinate<T>>, region_winding: &WindingOrder) -> (ret: Self) /*@
        requires
            coords@.len() > 0,
            once_around(ats(coords@).push(ats(coords@)[0])),
            wind(ats(coords@).push(ats(coords@)[0])) is Some,
        ensures
            ats(ret.coords.0@) == ats(coords@).push(ats(coords@)[0]),
            label(ret) == *region_winding,
    @*/ {
        let mut ls = LineString(coords);
        ls.close();
        /*@ proof {
            let s = ats(coords@);
            let t = s.push(s[0]);
            assert(t.drop_last() =~= s);
            assert(s[0] != s.last());
            assert(ats(ls.0@) =~= t);
        } @*/
        let winding = ls.winding_order().expect("ring must have a winding order");
        Self {
            coords: ls,
            is_hole: &winding != region_winding,
        }
    }
//@@ end
//@@ fn is_hole self=Ring
    fn is_hole(&self) -> (ret: bool) /*@ ensures ret == self.is_hole, @*/ {
        self.is_hole
    }
//@@ end
//@@ fn coords self=Ring
    fn coords(&self) -> (ret: &LineString<T>) /*@ ensures *ret == self.coords, @*/ {
        &self.coords
    }
//@@ end
}

impl<T: GeoFloat> Rings<T> {
#[verifier::loop_isolation(false)]
//@@ fn take_link self=Rings
    fn take_link(&mut self, pt: &SweepPoint<T>, winding: WindingOrder) -> (ret: Option<Link>) /*@
        requires
            rings_ok(old(self).chains@, old(self).end_points@),
        ensures
            final(self).chains == old(self).chains,
            rings_ok(final(self).chains@, final(self).end_points@),
            forall|q: Spot| q != spot(*pt) ==> #[trigger] listed(final(self).end_points@, q) == listed(old(self).end_points@, q),
            match ret {
                // an end that the edge continues in the direction of its label
                Some(l) => {
                    &&& loose(final(self).chains@, final(self).end_points@, l)
                    &&& tip(old(self).chains@, l.idx as int, l.to_front) == spot(*pt)
                    &&& head(old(self).chains@, l.idx as int, l.to_front) == (winding is Clockwise)
                    &&& forall|m: Link| #[trigger] loose(final(self).chains@, final(self).end_points@, m) <==> loose(old(self).chains@, old(self).end_points@, m) || m == l
                    &&& slack(final(self).chains@, final(self).end_points@, spot(*pt)) == slack(old(self).chains@, old(self).end_points@, spot(*pt))
                        - sign(winding)
                },
                None => {
                    &&& forall|m: Link| #[trigger] loose(final(self).chains@, final(self).end_points@, m) == loose(old(self).chains@, old(self).end_points@, m)
                    &&& listed(final(self).end_points@, spot(*pt)) == listed(old(self).end_points@, spot(*pt))
                    &&& only(final(self).chains@, final(self).end_points@, spot(*pt), winding is CounterClockwise)
                },
            },
    @*/ {
        /*@ let ghost (cs, e0, p) = (self.chains@, self.end_points@, spot(*pt)); @*/
        let inverse = winding_inverse(winding. dup ( ));
        let links = self.end_points.get_mut(pt)?;
        /*@ let ghost fin = *final(links); @*/
        let mut pos = links.len();
        while pos > 0
        /*@
            invariant
                self.chains == old(self).chains,
                cs == self.chains@,
                inverse == flip(winding),
                pos <= links@.len(),
                links@ == listed(e0, p),
                *final(links) == fin,
                e0.contains_key(p),
                e0 == old(self).end_points@,
                p == spot(*pt),
                rings_ok(cs, e0),
                forall|i: int| pos <= i < links@.len() ==> head(cs, (#[trigger] links@[i]).idx as int, links@[i].to_front) == (winding is CounterClockwise),
            decreases pos,
        @*/
        {
            pos -= 1;
            /*@ proof {
                assert(listed_ok(cs, e0, p, pos as int));
            } @*/
            let link = links[pos];
            let expected = if link.to_front { &inverse } else { &winding };
            if &self.chains[link.idx].winding == expected {
                links.remove(pos);
                /*@ proof {
                    assert(listed(self.end_points@, p) =~= listed(e0, p).remove(pos as int));
                    assert forall|q: Spot| q != p implies #[trigger] listed(self.end_points@, q) == listed(e0, q) by {}
                    lemma_take(cs, e0, self.end_points@, p, pos as int);
                } @*/
                return Some(link);
            }
        }
        /*@ proof {
            assert forall|q: Spot| #[trigger] listed(self.end_points@, q) == listed(e0, q) by {}
            lemma_same_lists(cs, e0, self.end_points@);
        } @*/
        None
    }
//@@ end
//@@ fn put_link self=Rings
    fn put_link(&mut self, pt: SweepPoint<T>, link: Link) /*@
        requires
            rings_ok(old(self).chains@, old(self).end_points@),
            loose(old(self).chains@, old(self).end_points@, link),
            tip(old(self).chains@, link.idx as int, link.to_front) == spot(pt),
            only(old(self).chains@, old(self).end_points@, spot(pt), head(old(self).chains@, link.idx as int, link.to_front)),
        ensures
            final(self).chains == old(self).chains,
            rings_ok(final(self).chains@, final(self).end_points@),
            forall|q: Spot| q != spot(pt) ==> #[trigger] listed(final(self).end_points@, q) == listed(old(self).end_points@, q),
            forall|m: Link| #[trigger] loose(final(self).chains@, final(self).end_points@, m) <==> loose(old(self).chains@, old(self).end_points@, m) && m != link,
            slack(final(self).chains@, final(self).end_points@, spot(pt)) == slack(old(self).chains@, old(self).end_points@, spot(pt)) + if head(
                old(self).chains@, link.idx as int, link.to_front) { 1int } else { -1int },
    @*/ {
        /*@ let ghost (cs, e0, p) = (self.chains@, self.end_points@, spot(pt)); @*/
        match self.end_points.get_mut(&pt) {
            Some(links) => links.push(link),
            None => {
                self.end_points.insert(pt, vec![link]);
            }
        }
        /*@ proof {
            assert(listed(self.end_points@, p) =~= listed(e0, p).push(link));
            assert forall|q: Spot| q != p implies #[trigger] listed(self.end_points@, q) == listed(e0, q) by {}
            lemma_put(cs, e0, self.end_points@, p, link);
        } @*/
    }
//@@ end
//@@ fn push_link self=Rings
    fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) /*@
        requires
            rings_ok(old(self).chains@, old(self).end_points@),
            loose(old(self).chains@, old(self).end_points@, l),
            away(old(self).chains@, l, winding),
        ensures
            final(self).end_points == old(self).end_points,
            rings_ok(final(self).chains@, final(self).end_points@),
            alike(old(self).chains@, final(self).chains@),
            forall|m: Link| #[trigger] loose(final(self).chains@, final(self).end_points@, m) <==> loose(old(self).chains@, old(self).end_points@, m),
            tip(final(self).chains@, l.idx as int, l.to_front) == spot(pt),
            edges(*final(self)) == edges(*old(self)).insert(dir(tip(old(self).chains@, l.idx as int, l.to_front), spot(pt), winding)),
    @*/ {
        /*@ let ghost cs = self.chains@; @*/
        if l.to_front {
            self.chains[l.idx].push_front(pt);
            rt_assert(self.chains[l.idx].winding == winding_inverse(winding));
        } else {
            self.chains[l.idx].push_back(pt);
            rt_assert(self.chains[l.idx].winding == winding);
        }
        /*@ proof {
            lemma_push(cs, self.chains@, self.end_points@, l, pt, winding);
        } @*/
    }
//@@ end
//@@ fn link_chains self=Rings
    fn link_chains(&mut self, i: Link, j: Link, winding: WindingOrder) /*@
        requires
            rings_ok(old(self).chains@, old(self).end_points@),
            loose(old(self).chains@, old(self).end_points@, i),
            loose(old(self).chains@, old(self).end_points@, j),
            away(old(self).chains@, i, winding),
            away(old(self).chains@, j, flip(winding)),
        ensures
            final(self).end_points == old(self).end_points,
            rings_ok(final(self).chains@, final(self).end_points@),
            alike(old(self).chains@, final(self).chains@),
            forall|m: Link| #[trigger] loose(final(self).chains@, final(self).end_points@, m) <==> loose(old(self).chains@, old(self).end_points@, m) && m != i && m != j,
            edges(*final(self)) == edges(*old(self)).insert(
                dir(tip(old(self).chains@, i.idx as int, i.to_front), tip(old(self).chains@, j.idx as int, j.to_front), winding),
            ),
    @*/ {
        /*@ let ghost cs = self.chains@; @*/
        if i.to_front {
            self.chains[i.idx].link_front(j);
            rt_assert(self.chains[i.idx].winding == winding_inverse(winding. dup ( )));
        } else {
            self.chains[i.idx].link_back(j);
            rt_assert(self.chains[i.idx].winding == winding);
        }
        if j.to_front {
            self.chains[j.idx].link_front(i);
            rt_assert(self.chains[j.idx].winding == winding);
        } else {
            self.chains[j.idx].link_back(i);
            rt_assert(self.chains[j.idx].winding == winding_inverse(winding));
        }
        /*@ proof {
            lemma_link(cs, self.chains@, self.end_points@, i, j, winding);
        } @*/
    }
//@@ end
//@@ fn add_edge self=Rings
    fn add_edge(&mut self, geom: LineOrPoint<T>, winding: WindingOrder) /*@
        requires
            geom is Line && lop_wf(geom),
            rings_ok(old(self).chains@, old(self).end_points@),
            forall|m: Link| !#[trigger] loose(old(self).chains@, old(self).end_points@, m),
        ensures
            rings_ok(final(self).chains@, final(self).end_points@),
            forall|m: Link| !#[trigger] loose(final(self).chains@, final(self).end_points@, m),
            edges(*final(self)) == edges(*old(self)).insert(dir(pt(fst(geom)), pt(snd(geom)), winding)),
            forall|q: Spot| #[trigger] slack(final(self).chains@, final(self).end_points@, q) == slack(old(self).chains@, old(self).end_points@, q) + gain(
                dir(pt(fst(geom)), pt(snd(geom)), winding),
                q,
            ),
    @*/ {
        /*@ let ghost (c0, e0) = (self.chains@, self.end_points@); @*/
        let left = geom.first();
        let right = geom.second();
        let (le, re) = (
            self.take_link(&left, winding. dup ( )),
            self.take_link(&right, winding_inverse(winding. dup ( ))),
        );
        /*@ let ghost (cs, e1) = (self.chains@, self.end_points@);
        let ghost (l, r) = (pt(left), pt(right));
        let ghost e = dir(l, r, winding);
        proof {
            assert(l != r);
            assert(slack(cs, e1, l) == slack(c0, e0, l) - if le is Some { sign(winding) } else { 0 });
            assert(slack(cs, e1, r) == slack(c0, e0, r) + if re is Some { sign(winding) } else { 0 });
            assert forall|q: Spot| q != l && q != r implies #[trigger] slack(cs, e1, q) == slack(c0, e0, q) by {
                assert(listed(e1, q) == listed(e0, q));
            }
            assert(forall|m: Link| #[trigger] loose(cs, e1, m) <==> (le == Some(m) || re == Some(m)));
        } @*/
        match (le, re) {
            (None, None) => {
                let idx = self.chains.len();
                self.chains.push(Chain::new(left, right, winding));
                /*@ let ghost c1 = self.chains@;
                proof {
                    let c = c1.last();
                    assert(c1 =~= cs.push(c));
                    lemma_new(cs, e1, c);
                    lemma_only_new(cs, e1, c, l, winding is CounterClockwise);
                    lemma_only_new(cs, e1, c, r, winding is Clockwise);
                } @*/
                self.put_link(
                    left,
                    Link {
                        idx,
                        to_front: true,
                    },
                );
                /*@ let ghost e2 = self.end_points@; @*/
                self.put_link(
                    right,
                    Link {
                        idx,
                        to_front: false,
                    },
                );
                /*@ proof {
                    assert(slack(c1, e2, r) == slack(c1, e1, r));
                    assert(slack(c1, self.end_points@, l) == slack(c1, e2, l));
                } @*/
                /*@ proof {
                    assert(slack(self.chains@, self.end_points@, l) == slack(c0, e0, l) + gain(e, l));
                    assert(slack(self.chains@, self.end_points@, r) == slack(c0, e0, r) + gain(e, r));
                    assert(forall|m: Link| !#[trigger] loose(self.chains@, self.end_points@, m));
                } @*/
            }
            (None, Some(i)) => {
                self.push_link(i, left, winding_inverse(winding));
                /*@ let ghost c1 = self.chains@;
                proof {
                    lemma_alike(cs, c1, e1);
                    lemma_only_alike(cs, c1, e1, l, winding is CounterClockwise);
                } @*/
                self.put_link(left, i);
                /*@ proof {
                    assert(slack(c1, e1, l) == slack(cs, e1, l));
                    assert(listed(self.end_points@, r) == listed(e1, r));
                    assert(slack(c1, e1, r) == slack(cs, e1, r));
                    assert(slack(c1, self.end_points@, r) == slack(cs, e1, r));
                    assert(slack(self.chains@, self.end_points@, l) == slack(c0, e0, l) + gain(e, l));
                    assert(slack(self.chains@, self.end_points@, r) == slack(c0, e0, r) + gain(e, r));
                    assert(forall|m: Link| !#[trigger] loose(self.chains@, self.end_points@, m));
                } @*/
            }
            (Some(i), None) => {
                self.push_link(i, right, winding);
                /*@ let ghost c1 = self.chains@;
                proof {
                    lemma_alike(cs, c1, e1);
                    lemma_only_alike(cs, c1, e1, r, winding is Clockwise);
                } @*/
                self.put_link(right, i);
                /*@ proof {
                    assert(slack(c1, e1, r) == slack(cs, e1, r));
                    assert(listed(self.end_points@, l) == listed(e1, l));
                    assert(slack(c1, e1, l) == slack(cs, e1, l));
                    assert(slack(c1, self.end_points@, l) == slack(cs, e1, l));
                    assert(slack(self.chains@, self.end_points@, l) == slack(c0, e0, l) + gain(e, l));
                    assert(slack(self.chains@, self.end_points@, r) == slack(c0, e0, r) + gain(e, r));
                    assert(forall|m: Link| !#[trigger] loose(self.chains@, self.end_points@, m));
                } @*/
            }
            (Some(i), Some(j)) => {
                self.link_chains(i, j, winding);
                /*@ proof {
                    lemma_alike(cs, self.chains@, e1);
                } @*/
                /*@ proof {
                    assert(slack(self.chains@, self.end_points@, l) == slack(c0, e0, l) + gain(e, l));
                    assert(slack(self.chains@, self.end_points@, r) == slack(c0, e0, r) + gain(e, r));
                    assert(forall|m: Link| !#[trigger] loose(self.chains@, self.end_points@, m));
                } @*/
            }
        }
        /*@ proof {
            assert(slack(self.chains@, self.end_points@, l) == slack(c0, e0, l) + gain(e, l));
            assert(slack(self.chains@, self.end_points@, r) == slack(c0, e0, r) + gain(e, r));
            assert forall|q: Spot| #[trigger] slack(self.chains@, self.end_points@, q) == slack(c0, e0, q) + gain(e, q) by {
                if q != l && q != r {
                    assert(slack(cs, e1, q) == slack(c0, e0, q));
                    assert(listed(self.end_points@, q) == listed(e1, q));
                    assert(slack(self.chains@, e1, q) == slack(cs, e1, q));
                }
            }
        } @*/
    }
//@@ end
//@@ fn finish self=Rings
//@@ sub `( mut self )` => `( self )`
//@@ sub `let mut output = vec ! [ ] ;` => `let mut this = self ; let mut output = vec ! [ ] ;`
//@@ sub `self . chains` => `this . chains`
//@@ sub `Either :: Left ( $*a )` => `$*a`
//@@ sub `Either :: Right ( $*a )` => `$*a`
//@@ sub `for pt in iter {` => `while let Some ( pt ) = iter . next ( ) {`
//@@ sub `let iter = {` => `let mut iter = {`
//@@ sub `ls . drain ( * idx .. ) . inspect ( | pt : & Coordinate < _ > | { $*b } ) . collect ( )` => `{ let idx = * idx ; let cut = drain_from ( & mut ls , idx ) ; let mut i = 0 ; while i < cut . len ( ) { let pt = & cut [ i ] ; $*b i += 1 ; } cut }`
    fn finish(self) -> (ret: Vec<Ring<T>>) /*@
        requires
            settled(self.chains@, self.end_points@),
            spread(edges(self)),
        ensures
            // the rings have the edges added, on the side of their region
            lays(ret@) == edges(self),
            proper(ret@),
    @*/ {
        /*@ let ghost cs = self.chains@;
        let ghost n = cs.len() as int;
        let ghost m = total(cs, n);
        let ghost mut vis = Set::<int>::empty(); @*/
        let mut this = self;
        let mut output = vec![];
        let mut curr_chain_idx = this.chains.len();
        let mut history = BTreeMap::new();
        /*@ proof {
            lemma_settled(cs, self.end_points@);
            lemma_sum_none(cs, vis, n);
        } @*/
        while curr_chain_idx > 0
        /*@
            invariant
                chained(cs) && all_joined(cs),
                n == cs.len() && m == total(cs, n) && spread(m) && n <= usize::MAX,
                emptied(cs, this.chains@, vis),
                closed_up(cs, vis),
                curr_chain_idx <= n,
                forall|k: int| curr_chain_idx <= k < n ==> #[trigger] vis.contains(k),
                lays(output@) == sum_in(cs, vis, n),
                proper(output@),
            decreases curr_chain_idx,
        @*/
        {
            curr_chain_idx -= 1;
            if this.chains[curr_chain_idx].items.len() == 0 {
                continue;
            }
            let mut ls: Vec<Coordinate<T>> = vec![];
            let mut loop_link = Link {
                idx: curr_chain_idx,
                to_front: true,
            };
            history.clear();
            let winding = this.chains[curr_chain_idx].winding. dup ( );
            /*@ let ghost c = curr_chain_idx as int;
            let ghost w = winding;
            proof {
                lemma_start(cs, vis, c);
                assert(pairs(ats(ls@), w) =~= Multiset::empty());
                assert(lays(output@).add(pairs(ats(ls@), w)).add(pend(cs, vis, c, loop_link, w)) =~= sum_in(cs, vis, n));
            } @*/
            loop
            /*@
                invariant_except_break
                    !vis.contains(loop_link.idx as int),
                invariant
                    curr_chain_idx < n == cs.len() && c == curr_chain_idx && w == winding,
                    m == total(cs, n) && spread(m),
                    emptied(cs, this.chains@, vis),
                    forall|k: int| curr_chain_idx < k < n ==> #[trigger] vis.contains(k),
                    walking(cs, vis, c, loop_link, w),
                    tracked(history@, ats(ls@)),
                    proper(output@),
                    vis.contains(c) <==> ls@.len() > 0,
                    ls@.len() > 0 ==> ats(ls@)[0] == tip(cs, c, true) && ats(ls@).last() == tip_of(cs, mate(cs, loop_link)),
                    lays(output@).add(pairs(ats(ls@), w)).add(pend(cs, vis, c, loop_link, w)) == sum_in(cs, vis, n),
                ensures
                    closed_up(cs, vis),
                    vis.contains(c),
                    loop_link == start(c),
                decreases n - vis.len(),
            @*/
            {
                /*@ let ghost link = loop_link;
                let ghost k = link.idx as int;
                let ghost next = mate(cs, other(link));
                let ghost v = vis.insert(k);
                let ghost path = run(cs, link);
                let ghost tail = pend(cs, v, c, next, w);
                let ghost all = sum_in(cs, v, n);
                proof {
                    lemma_step(cs, vis, c, link, w);
                    lemma_contrib(cs, link, w);
                    lemma_enter(cs, vis, c, link, w, lays(output@), ats(ls@));
                    lemma_sum_part(cs, v, n);
                    lemma_fits(v, n);
                } @*/
                let mut iter = {
                    let iter = this.chains[loop_link.idx].items.iter();
                    if loop_link.to_front {
                        iter
                    } else {
                        iter.rev()
                    }
                };
                /*@ let ghost mut togo = spots(iter@);
                proof {
                    assert(path.skip(0) =~= path);
                    assert(spots(path)[0] == tip_of(cs, link));
                } @*/
                while let Some(pt) = iter.next()
                /*@
                    invariant
                        part(all, m) && spread(m),
                        w == winding,
                        iter@ == path.skip(path.len() - iter@.len()),
                        iter@.len() <= path.len(),
                        togo == spots(iter@),
                        tracked(history@, ats(ls@)),
                        proper(output@),
                        ls@.len() == 0 ==> iter@.len() > 0 && spots(iter@)[0] == tip(cs, c, true),
                        ls@.len() > 0 ==> ats(ls@)[0] == tip(cs, c, true),
                        iter@.len() < path.len() ==> ls@.len() > 0 && ats(ls@).last() == spots(path)[path.len() - iter@.len() - 1],
                        lays(output@).add(pairs(ats(ls@), w)).add(pairs(ahead(ats(ls@), spots(iter@)), w)).add(tail) == all,
                    ensures
                        iter@.len() == 0,
                    decreases iter@.len(),
                @*/
                {
                    /*@ let ghost (s, t) = (ats(ls@), seq![spot(*pt)] + spots(iter@));
                    let ghost sum = lays(output@);
                    proof {
                        lemma_distinct(history@, s);
                        assert(t =~= togo);
                        lemma_advance(s, t, w);
                        lemma_sums(sum, pairs(s, w), pairs(ahead(s, t), w), pairs(s.push(t[0]), w), pairs(ahead(s.push(t[0]), t.drop_first()), w), tail);
                        assert(spot(*pt) == spots(path)[path.len() - iter@.len() - 1]);
                        assert(t.drop_first() =~= spots(iter@));
                    } @*/
                    if let Some(idx) = history.get(pt) {
                        /*@ let ghost h = history@;
                        let ghost at_k = *idx as int;
                        proof {
                            lemma_cut_ring(s, t, at_k, w, sum, tail, all, m);
                        } @*/
                        let new_ls = {
                            let idx = *idx;
                            let cut = drain_from(&mut ls, idx);
                            let mut i = 0;
                            while i < cut.len()
                            /*@
                                invariant
                                    i <= cut@.len(),
                                    0 <= at_k < s.len(),
                                    ats(cut@) == s.subrange(at_k, s.len() as int),
                                    tracked(h, s),
                                    forall|q: Spot| #[trigger] history@.contains_key(q) <==> h.contains_key(q) && !(at_k <= h[q] < at_k + i),
                                    forall|q: Spot| history@.contains_key(q) ==> #[trigger] history@[q] == h[q],
                                decreases cut@.len() - i,
                            @*/
                            {
                                let pt = &cut[i];
                                /*@ let ghost q0 = s[at_k + i];
                                let ghost h0 = history@;
                                proof {
                                    assert(ats(cut@).len() == s.len() - at_k);
                                    assert(ats(cut@)[i as int] == s.subrange(at_k, s.len() as int)[i as int]);
                                    assert(ats(cut@)[i as int] == q0);
                                    assert(h.contains_key(q0) && h[q0] == at_k + i);
                                } @*/
                                history.remove(&((*pt).into())).unwrap();
                                /*@ proof {
                                    assert forall|q: Spot| #[trigger] history@.contains_key(q) <==> h.contains_key(q) && !(at_k <= h[q] < at_k + i + 1) by {
                                        if h.contains_key(q) && h[q] == at_k + i {
                                            assert(s[h[q] as int] == q);
                                        }
                                        if q != q0 {
                                            assert(history@.contains_key(q) <==> h0.contains_key(q));
                                        }
                                    }
                                } @*/
                                i += 1;
                            }
                            cut
                        };
                        /*@ let ghost o = output@; @*/
                        output.push(Ring::from_coords(new_ls, &winding));
                        /*@ proof {
                            assert(output@ =~= o.push(output@.last()));
                            lemma_lays(o, output@.last());
                            assert(ats(ls@) =~= s.subrange(0, at_k));
                            assert(tracked(history@, ats(ls@)));
                        } @*/
                    }
                    /*@ let ghost (h, u) = (history@, ats(ls@));
                    proof {
                        assert(!h.contains_key(spot(*pt)));
                        assert(ls.len() <= usize::MAX);
                        lemma_tracked(h, u, spot(*pt));
                    } @*/
                    history.insert(*pt, ls.len());
                    ls.push(pt.coord());
                    /*@ proof {
                        assert(ats(ls@) =~= u.push(spot(*pt)));
                        togo = spots(iter@);
                    } @*/
                }
                /*@ proof {
                    assert(pairs(ahead(ats(ls@), spots(iter@)), w) =~= Multiset::empty());
                    assert(lays(output@).add(pairs(ats(ls@), w)).add(tail) =~= all);
                } @*/
                /*@ let ghost b = this.chains@; @*/
                this.chains[loop_link.idx].items.clear();
                /*@ proof {
                    lemma_emptied(cs, b, this.chains@, vis, k);
                    assert(next_of(this.chains@, k, !link.to_front) == next_of(cs, k, !link.to_front));
                } @*/
                loop_link = if loop_link.to_front {
                    this.chains[loop_link.idx].next_back.unwrap()
                } else {
                    this.chains[loop_link.idx].next_front.unwrap()
                };
                /*@ proof {
                    vis = v;
                } @*/
                if loop_link.idx == curr_chain_idx {
                    rt_assert(loop_link.to_front);
                    break;
                }
            }
            /*@ let ghost (s, o) = (ats(ls@), output@);
            proof {
                lemma_distinct(history@, s);
                lemma_sum_part(cs, vis, n);
                lemma_pairs_back(s, s[0], w);
                assert(dir(s.last(), s[0], w) == joint(cs, loop_link, w));
                assert(pairs(s.push(s[0]), w).add(lays(o)) =~= sum_in(cs, vis, n));
                lemma_ring(s, w, lays(o), sum_in(cs, vis, n), m);
            } @*/
            output.push(Ring::from_coords(ls, &winding));
            /*@ proof {
                assert(output@ =~= o.push(output@.last()));
                lemma_lays(o, output@.last());
                assert(lays(output@) =~= sum_in(cs, vis, n));
            } @*/
        }
        /*@ proof {
            lemma_sum_all(cs, vis, n);
        } @*/
        output
    }
//@@ end
}
