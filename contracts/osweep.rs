// ---- op.rs: the sweep ------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct Crossing derives=Clone,Copy
//@@ sub `C : Crossable` => `T : GeoNum`
//@@ sub `crossable : C` => `crossable : usize`
//@@ sub `C :: Scalar` => `T`
struct Crossing<T: GeoNum> {
    crossable: usize,
    line: LineOrPoint<T>,
    first_segment: bool,
    has_overlap: bool,
    at_left: bool,
    key: usize,
}
//@@ end

// inside the first operand, inside the second
struct Side {
    a: bool,
    b: bool,
}

spec fn outside() -> Side {
    Side { a: false, b: false }
}

spec fn one(first: bool) -> Side {
    Side { a: first, b: !first }
}

spec fn turned(s: Side, c: Side) -> Side {
    Side { a: s.a != c.a, b: s.b != c.b }
}

spec fn reg(ty: OpType, s: Side) -> Region {
    region(ty, s.a, s.b)
}

// in the result
spec fn inn(ty: OpType, s: Side) -> bool {
    wanted(ty, s.a, s.b)
}

// the edges whose pieces from one spot run along one another; which operands they are an odd number of edges of
struct Bundle {
    from: Spot,
    edges: Set<int>,
    odd: Side,
}

// on which side one is after crossing these bundles
spec fn par(bs: Seq<Bundle>, s: Side) -> Side
    decreases bs.len(),
{
    if bs.len() == 0 {
        s
    } else {
        turned(par(bs.drop_last(), s), bs.last().odd)
    }
}

// the region that an edge has on record for its piece from p
spec fn stored_at<T: Float>(e: Edge<T>, p: Spot) -> Region {
    if lexr(p, pt(snd(e.geom))) != Ordering::Less {
        e._region_2.v
    } else {
        e._region.v
    }
}

// every edge has on record the region above its bundle
#[verifier::opaque]
spec fn known<T: Float>(bs: Seq<Bundle>, s: Side, es: Seq<Edge<T>>, ty: OpType) -> bool {
    forall|k: int, e: int|
        0 <= k < bs.len() && #[trigger] bs[k].edges.contains(e) ==> 0 <= e < es.len() && stored_at(es[e], bs[k].from) == reg(ty, par(bs.take(k + 1), s))
}

// the boundary of the result among bundles that end at q, directed with the region on the right
spec fn rim(b: Bundle, above: bool, q: Spot) -> (Spot, Spot) {
    dir(
        b.from,
        q,
        if above {
            WindingOrder::CounterClockwise
        } else {
            WindingOrder::Clockwise
        },
    )
}

spec fn outl(bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType) -> Edges
    decreases bs.len(),
{
    if bs.len() == 0 {
        Multiset::empty()
    } else {
        let o = outl(bs.drop_last(), s, q, ty);
        let (below, above) = (inn(ty, par(bs.drop_last(), s)), inn(ty, par(bs, s)));
        if below != above {
            o.insert(rim(bs.last(), above, q))
        } else {
            o
        }
    }
}

// what it gains a spot
spec fn bal(bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType, p: Spot) -> int
    decreases bs.len(),
{
    if bs.len() == 0 {
        0
    } else {
        let o = bal(bs.drop_last(), s, q, ty, p);
        let (below, above) = (inn(ty, par(bs.drop_last(), s)), inn(ty, par(bs, s)));
        if below != above {
            o + gain(rim(bs.last(), above, q), p)
        } else {
            o
        }
    }
}

spec fn num(b: bool) -> int {
    if b {
        1
    } else {
        0
    }
}

// how much boundary there is ahead of a spot: by how much the bundles from it change membership
spec fn flux(bs: Seq<Bundle>, s: Side, ty: OpType, p: Spot) -> int
    decreases bs.len(),
{
    if bs.len() == 0 {
        0
    } else {
        flux(bs.drop_last(), s, ty, p) + if bs.last().from == p {
            num(inn(ty, par(bs, s))) - num(inn(ty, par(bs.drop_last(), s)))
        } else {
            0
        }
    }
}

// one spot of the sweep: the bundles that end there, bottom to top, between those below and above; the bundles that start there
struct Step {
    q: Spot,
    low: Seq<Bundle>,
    ends: Seq<Bundle>,
    high: Seq<Bundle>,
    starts: Seq<Bundle>,
}

spec fn before_step(st: Step) -> Seq<Bundle> {
    st.low + st.ends + st.high
}

spec fn after_step(st: Step) -> Seq<Bundle> {
    st.low + st.starts + st.high
}

// what is active after a sweep
spec fn active(tr: Seq<Step>) -> Seq<Bundle> {
    if tr.len() == 0 {
        Seq::empty()
    } else {
        after_step(tr.last())
    }
}

// each step goes on where the last one stopped
#[verifier::opaque]
spec fn steady(tr: Seq<Step>) -> bool {
    forall|i: int| 0 <= i < tr.len() ==> #[trigger] before_step(tr[i]) == active(tr.take(i))
}

// the boundary of the result: the bundles above which membership is another than below them
spec fn outline(tr: Seq<Step>, ty: OpType) -> Edges
    decreases tr.len(),
{
    if tr.len() == 0 {
        Multiset::empty()
    } else {
        let st = tr.last();
        outline(tr.drop_last(), ty).add(outl(st.ends, par(st.low, outside()), st.q, ty))
    }
}

spec fn wall(bs: Seq<Bundle>, q: Spot) -> Edges
    decreases bs.len(),
{
    if bs.len() == 0 {
        Multiset::empty()
    } else {
        wall(bs.drop_last(), q).insert((bs.last().from, q))
    }
}

// all bundles
spec fn walls(tr: Seq<Step>) -> Edges
    decreases tr.len(),
{
    if tr.len() == 0 {
        Multiset::empty()
    } else {
        walls(tr.drop_last()).add(wall(tr.last().ends, tr.last().q))
    }
}

// ---- records of a spot ----
// bundles end before others start; top to bottom, then bottom to top
spec fn cross_cmp<T: GeoNum>(a: Crossing<T>, b: Crossing<T>) -> Ordering {
    if a.at_left == b.at_left {
        let o = lop_cmp(a.line, b.line)->Some_0;
        if a.at_left {
            o
        } else {
            rev(o)
        }
    } else if b.at_left {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}

spec fn same<T: GeoNum>(a: Crossing<T>, b: Crossing<T>) -> bool {
    cross_cmp(a, b) == Ordering::Equal
}

spec fn record_ok<T: GeoNum>(c: Crossing<T>, q: Spot, n: int) -> bool {
    &&& c.crossable < n
    &&& c.line is Line && lop_wf(c.line)
    &&& if c.at_left {
        pt(fst(c.line)) == q
    } else {
        pt(snd(c.line)) == q
    }
}

spec fn records_ok<T: GeoNum>(l: Seq<Crossing<T>>, q: Spot, n: int) -> bool {
    forall|i: int| 0 <= i < l.len() ==> record_ok(#[trigger] l[i], q, n)
}

// the bundles of the records lo..n
spec fn runs<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, lo: int, n: int) -> Seq<Bundle>
    decreases n - lo,
{
    if n <= lo {
        Seq::empty()
    } else {
        let p = runs(l, fs, lo, n - 1);
        let c = l[n - 1];
        let d = one(fs[c.crossable as int]);
        if n - 1 > lo && same(l[n - 2], c) {
            p.drop_last().push(Bundle { from: pt(fst(c.line)), edges: p.last().edges.insert(c.crossable as int), odd: turned(p.last().odd, d) })
        } else {
            p.push(Bundle { from: pt(fst(c.line)), edges: Set::empty().insert(c.crossable as int), odd: d })
        }
    }
}

// bundled pieces start at one spot
spec fn flush<T: GeoNum>(l: Seq<Crossing<T>>, lo: int, n: int) -> bool {
    forall|i: int| lo < i < n && #[trigger] same(l[i - 1], l[i]) ==> pt(fst(l[i - 1].line)) == pt(fst(l[i].line))
}

// k records end, the others start, in the order of the bundles
#[verifier::opaque]
spec fn batch<T: GeoNum>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int) -> bool {
    &&& 0 <= k <= l.len()
    &&& forall|i: int| 0 <= i < k ==> !(#[trigger] l[i]).at_left
    &&& forall|i: int| k <= i < l.len() ==> (#[trigger] l[i]).at_left
    &&& flush(l, 0, k)
    &&& ({
        let rs = runs(l, fs, 0, k);
        rs.len() == st.ends.len() && forall|j: int| 0 <= j < rs.len() ==> #[trigger] st.ends[j] == rs[rs.len() - 1 - j]
    })
    &&& runs(l, fs, k, l.len() as int) == st.starts
}

spec fn batched<T: GeoNum>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>) -> bool {
    exists|k: int| batch(l, st, fs, k)
}

spec fn ordered<T: GeoNum>(l: Seq<Crossing<T>>) -> bool {
    forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> cross_cmp(l[i], l[j]) != Ordering::Greater
}

// no edge is in two bundles
spec fn apart(bs: Seq<Bundle>) -> bool {
    forall|i: int, j: int, e: int| #![trigger bs[i].edges.contains(e), bs[j]] 0 <= i < bs.len() && 0 <= j < bs.len() && i != j && bs[i].edges.contains(e) ==> !bs[j].edges.contains(e)
}

// of which operands an odd number of these edges end in p
spec fn degree<T: Float>(es: Seq<Edge<T>>, p: Spot) -> Side
    decreases es.len(),
{
    if es.len() == 0 {
        outside()
    } else {
        let d = degree(es.drop_last(), p);
        let e = es.last();
        if (pt(fst(e.geom)) == p) != (pt(snd(e.geom)) == p) {
            turned(d, one(e.is_first))
        } else {
            d
        }
    }
}

spec fn kinds<T: Float>(es: Seq<Edge<T>>) -> Seq<bool> {
    es.map_values(|e: Edge<T>| e.is_first)
}

// this is a sweep over these edges
uninterp spec fn sweeps<T: Float>(es: Seq<Edge<T>>, tr: Seq<Step>) -> bool;

// the steps of a sweep that has come to an end
spec fn swept<T: Float>(es: Seq<Edge<T>>, tr: Seq<Step>) -> bool {
    &&& sweeps(es, tr)
    &&& steady(tr)
    &&& active(tr).len() == 0
}

// assumed: CrossingsIter over the edges (C10, C11 state it for any input), where pieces that overlap are bundled and the active
// bundles are kept bottom to top
struct Feed<T: Float> {
    segs: Vec<Crossing<T>>,
    es: Ghost<Seq<Edge<T>>>,
    tr: Ghost<Seq<Step>>,
    // how many spots are left
    left: Ghost<nat>,
}

impl<T: Float> Feed<T> {
    #[verifier::external_body]
    fn of(es: &Vec<Edge<T>>) -> (r: Self)
        ensures
            r.es@ == es@,
            r.tr@.len() == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Coordinate<T>>)
        ensures
            final(self).es == old(self).es,
            match r {
                None => final(self).tr == old(self).tr && active(final(self).tr@).len() == 0 && sweeps(final(self).es@, final(self).tr@),
                Some(c) => {
                    let (tr, es, l) = (final(self).tr@, final(self).es@, final(self).segs@);
                    let st = tr.last();
                    &&& tr.len() > 0 && old(self).tr@ == tr.drop_last()
                    &&& final(self).left@ < old(self).left@
                    &&& st.q == at(c)
                    &&& before_step(st) == active(old(self).tr@)
                    &&& apart(active(tr))
                    &&& records_ok(l, st.q, es.len() as int)
                    // sorted, the records are these bundles
                    &&& forall|s: Seq<Crossing<T>>| #[trigger] s.to_multiset() == l.to_multiset() && ordered(s) ==> batched(s, st, kinds(es))
                    // an edge ends as often as it starts, except at its own ends
                    &&& turned(par(st.ends, outside()), par(st.starts, outside())) == degree(es, st.q)
                    &&& spread(walls(tr))
                },
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn prev_active(&self, c: &Crossing<T>) -> (r: Option<(LineOrPoint<T>, usize)>)
        requires
            self.tr@.len() > 0,
            // the lowest that starts
            exists|k: int| #[trigger] batch(self.segs@, self.tr@.last(), kinds(self.es@), k) && k < self.segs@.len() && *c == self.segs@[k],
        ensures
            ({
                let low = self.tr@.last().low;
                match r {
                    None => low.len() == 0,
                    Some((g, e)) => low.len() > 0 && low.last().edges.contains(e as int) && pt(fst(g)) == low.last().from,
                }
            }),
    {
        unimplemented!()
    }
}

// assumed: [T]::sort_unstable_by, by a total order
#[verifier::external_body]
fn sort_by<T: GeoNum, F: Fn(&Crossing<T>, &Crossing<T>) -> Ordering>(l: &mut Vec<Crossing<T>>, f: F)
    requires
        forall|a: Crossing<T>, b: Crossing<T>| #![trigger old(l)@.contains(a), old(l)@.contains(b)] old(l)@.contains(a) && old(l)@.contains(b) ==> call_requires(f, (&a, &b)),
        forall|a: Crossing<T>, b: Crossing<T>, o: Ordering|
            old(l)@.contains(a) && old(l)@.contains(b) && #[trigger] call_ensures(f, (&a, &b), o) ==> o == cross_cmp(a, b),
        orderly(old(l)@),
    ensures
        final(l)@.to_multiset() == old(l)@.to_multiset(),
        ordered(final(l)@),
{
    l.sort_unstable_by(f)
}

spec fn orderly<T: GeoNum>(l: Seq<Crossing<T>>) -> bool {
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() ==> cross_cmp(l[i], l[j]) == rev(cross_cmp(l[j], l[i]))
    &&& forall|i: int, j: int, k: int|
        #![trigger l[i], l[j], l[k]]
        0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && cross_cmp(l[i], l[j]) != Ordering::Greater && cross_cmp(l[j], l[k]) != Ordering::Greater
            ==> cross_cmp(l[i], l[k]) != Ordering::Greater
}

// assumed: Ord of bool
#[verifier::external_body]
fn bool_cmp(a: bool, b: &bool) -> (r: Ordering)
    ensures
        r == if a == *b {
            Ordering::Equal
        } else if *b {
            Ordering::Less
        } else {
            Ordering::Greater
        },
{
    a.cmp(b)
}

impl<T: Float> Rings<T> {
//@@ fn default self=Rings trait=Default
//@@ sub `chains : Default :: default ( )` => `chains : Vec :: new ( )`
//@@ sub `end_points : Default :: default ( )` => `end_points : BTreeMap :: new ( )`
    fn default() -> (ret: Self) /*@
        ensures
            ret.chains@.len() == 0,
            ret.end_points@ == Map::<Spot, Vec<Link>>::empty(),
    @*/ {
        Self {
            chains : Vec::new(),
            end_points : BTreeMap::new(),
        }
    }
//@@ end
}

// ---- lemmas ----
proof fn lemma_par_cat(x: Seq<Bundle>, y: Seq<Bundle>, s: Side)
    ensures
        par(x + y, s) == par(y, par(x, s)),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x);
    } else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lemma_par_cat(x, y.drop_last(), s);
    }
}

proof fn lemma_par_shift(x: Seq<Bundle>, s: Side)
    ensures
        par(x, s) == turned(s, par(x, outside())),
    decreases x.len(),
{
    if x.len() > 0 {
        lemma_par_shift(x.drop_last(), s);
    }
}

proof fn lemma_flux_cat(x: Seq<Bundle>, y: Seq<Bundle>, s: Side, ty: OpType, p: Spot)
    ensures
        flux(x + y, s, ty, p) == flux(x, s, ty, p) + flux(y, par(x, s), ty, p),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x);
    } else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lemma_flux_cat(x, y.drop_last(), s, ty, p);
        lemma_par_cat(x, y, s);
        lemma_par_cat(x, y.drop_last(), s);
    }
}

proof fn lemma_known_cat<T: Float>(x: Seq<Bundle>, y: Seq<Bundle>, s: Side, es: Seq<Edge<T>>, ty: OpType)
    ensures
        known(x + y, s, es, ty) <==> known(x, s, es, ty) && known(y, par(x, s), es, ty),
{
    reveal(known);
    let z = x + y;
    assert forall|k: int| 0 <= k < x.len() implies z[k] == #[trigger] x[k] && z.take(k + 1) == x.take(k + 1) by {
        assert(z.take(k + 1) =~= x.take(k + 1));
    }
    assert forall|k: int| 0 <= k < y.len() implies z[x.len() + k] == #[trigger] y[k] && par(z.take(x.len() + k + 1), s) == par(y.take(k + 1), par(x, s)) by {
        assert(z.take(x.len() + k + 1) =~= x + y.take(k + 1));
        lemma_par_cat(x, y.take(k + 1), s);
    }
    if known(z, s, es, ty) {
        assert forall|k: int, e: int| 0 <= k < x.len() && #[trigger] x[k].edges.contains(e) implies 0 <= e < es.len() && stored_at(es[e], x[k].from) == reg(
            ty,
            par(x.take(k + 1), s),
        ) by {
            assert(z[k].edges.contains(e));
        }
        assert forall|k: int, e: int| 0 <= k < y.len() && #[trigger] y[k].edges.contains(e) implies 0 <= e < es.len() && stored_at(es[e], y[k].from) == reg(
            ty,
            par(y.take(k + 1), par(x, s)),
        ) by {
            assert(z[x.len() + k].edges.contains(e));
        }
    }
    if known(x, s, es, ty) && known(y, par(x, s), es, ty) {
        assert forall|k: int, e: int| 0 <= k < z.len() && #[trigger] z[k].edges.contains(e) implies 0 <= e < es.len() && stored_at(es[e], z[k].from) == reg(
            ty,
            par(z.take(k + 1), s),
        ) by {
            if k < x.len() {
                assert(x[k].edges.contains(e));
            } else {
                assert(y[k - x.len()].edges.contains(e));
            }
        }
    }
}

// bundles of more records: only the last one may grow
proof fn lemma_runs<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, lo: int, i: int, n: int)
    requires
        0 <= lo < i <= n <= l.len(),
        flush(l, lo, n),
    ensures
        ({
            let (a, b) = (runs(l, fs, lo, i), runs(l, fs, lo, n));
            &&& 0 < a.len() <= b.len()
            &&& forall|j: int| 0 <= j < a.len() - 1 ==> #[trigger] a[j] == b[j]
            &&& a.last().edges.contains(l[i - 1].crossable as int)
            &&& b[a.len() - 1].edges.contains(l[i - 1].crossable as int)
            &&& a.last().from == pt(fst(l[i - 1].line))
            &&& b[a.len() - 1].from == a.last().from
            &&& i == n || !same(l[i - 1], l[i]) ==> a.last() == b[a.len() - 1]
            &&& i < n && !same(l[i - 1], l[i]) ==> a.len() < b.len()
        }),
    decreases n,
{
    let (a, b) = (runs(l, fs, lo, i), runs(l, fs, lo, n));
    if i < n {
        lemma_runs(l, fs, lo, i, n - 1);
        let c = runs(l, fs, lo, n - 1);
        lemma_runs(l, fs, lo, n - 1, n - 1);
        if same(l[n - 2], l[n - 1]) {
            assert(pt(fst(l[n - 2].line)) == pt(fst(l[n - 1].line)));
            assert(forall|j: int| 0 <= j < c.len() - 1 ==> b[j] == c[j]);
        } else {
            assert(forall|j: int| 0 <= j < c.len() ==> b[j] == c[j]);
        }
    } else if lo < n - 1 {
        lemma_runs(l, fs, lo, n - 1, n - 1);
    }
}

proof fn lemma_runs_par<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, lo: int, i: int, s: Side)
    requires
        0 <= lo <= i < l.len(),
        flush(l, lo, i),
    ensures
        par(runs(l, fs, lo, i + 1), s) == turned(par(runs(l, fs, lo, i), s), one(fs[l[i].crossable as int])),
{
    let (p, r) = (runs(l, fs, lo, i), runs(l, fs, lo, i + 1));
    assert(runs(l, fs, lo, i + 1 - 1) == p);
    if i > lo {
        lemma_runs(l, fs, lo, i, i);
    }
    if i > lo && same(l[i - 1], l[i]) {
        assert(r.drop_last() =~= p.drop_last());
    } else {
        assert(r.drop_last() =~= p);
    }
}

// the members of the last bundle
proof fn lemma_runs_members<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, lo: int, j: int, i: int, e: int)
    requires
        0 <= lo <= j < i <= l.len(),
        j == lo || !same(l[j - 1], l[j]),
        forall|t: int| j < t < i ==> #[trigger] same(l[t - 1], l[t]),
        flush(l, lo, i),
        runs(l, fs, lo, i).last().edges.contains(e),
    ensures
        exists|t: int| j <= t < i && (#[trigger] l[t]).crossable == e,
    decreases i,
{
    let p = runs(l, fs, lo, i - 1);
    if i - 1 > j {
        assert(same(l[i - 1 - 1], l[i - 1]));
        if l[i - 1].crossable == e {
        } else {
            assert(p.last().edges.contains(e));
            lemma_runs_members(l, fs, lo, j, i - 1, e);
        }
    } else {
        assert(l[j].crossable == e);
    }
}

proof fn lemma_runs_from<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, lo: int, n: int, q: Spot)
    requires
        0 <= lo <= n <= l.len(),
        flush(l, lo, n),
    ensures
        (forall|i: int| lo <= i < n ==> pt(fst((#[trigger] l[i]).line)) == q) ==> forall|j: int| 0 <= j < runs(l, fs, lo, n).len() ==> (#[trigger] runs(l, fs, lo, n)[j]).from == q,
        (forall|i: int| lo <= i < n ==> pt(fst((#[trigger] l[i]).line)) != q) ==> forall|j: int| 0 <= j < runs(l, fs, lo, n).len() ==> (#[trigger] runs(l, fs, lo, n)[j]).from != q,
    decreases n,
{
    if n > lo {
        lemma_runs_from(l, fs, lo, n - 1, q);
        if n - 1 > lo {
            lemma_runs(l, fs, lo, n - 1, n - 1);
        }
        assert(lo <= n - 1 < n && l[n - 1].line == l[n - 1].line);
    }
}

proof fn lemma_take_last(bs: Seq<Bundle>, j: int)
    requires
        0 <= j < bs.len(),
    ensures
        bs.take(j + 1).drop_last() == bs.take(j),
        bs.take(j + 1).last() == bs[j],
        bs.take(j + 1).len() == j + 1,
{
    assert(bs.take(j + 1).drop_last() =~= bs.take(j));
}

// what the bundles of a spot gain a spot
proof fn lemma_bal(bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType, p: Spot)
    requires
        forall|j: int| 0 <= j < bs.len() ==> (#[trigger] bs[j]).from != q,
    ensures
        p != q ==> bal(bs, s, q, ty, p) == flux(bs, s, ty, p),
        p == q ==> bal(bs, s, q, ty, p) == num(inn(ty, s)) - num(inn(ty, par(bs, s))) && flux(bs, s, ty, p) == 0,
    decreases bs.len(),
{
    if bs.len() > 0 {
        let d = bs.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).from != q by {
            assert(d[j] == bs[j]);
        }
        lemma_bal(d, s, q, ty, p);
        assert(bs.last().from != q);
    }
}

proof fn lemma_flux_start(bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType, p: Spot)
    requires
        forall|j: int| 0 <= j < bs.len() ==> (#[trigger] bs[j]).from == q,
    ensures
        flux(bs, s, ty, p) == if p == q {
            num(inn(ty, par(bs, s))) - num(inn(ty, s))
        } else {
            0
        },
    decreases bs.len(),
{
    if bs.len() > 0 {
        let d = bs.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).from == q by {
            assert(d[j] == bs[j]);
        }
        lemma_flux_start(d, s, q, ty, p);
        assert(bs.last().from == q);
    }
}

spec fn both(m: Edges, a: Spot, b: Spot) -> nat {
    m.count((a, b)) + m.count((b, a))
}

proof fn lemma_outl_wall(bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType, a: Spot, b: Spot)
    requires
        forall|j: int| 0 <= j < bs.len() ==> (#[trigger] bs[j]).from != q,
    ensures
        both(outl(bs, s, q, ty), a, b) <= both(wall(bs, q), a, b),
    decreases bs.len(),
{
    if bs.len() > 0 {
        let d = bs.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).from != q by {
            assert(d[j] == bs[j]);
        }
        lemma_outl_wall(d, s, q, ty, a, b);
        assert(bs.last().from != q);
    }
}

// every step ends pieces that start elsewhere
#[verifier::opaque]
spec fn proper_steps(tr: Seq<Step>) -> bool {
    forall|i: int, j: int| 0 <= i < tr.len() && 0 <= j < tr[i].ends.len() ==> (#[trigger] tr[i].ends[j]).from != tr[i].q
}

proof fn lemma_outline_walls(tr: Seq<Step>, ty: OpType, a: Spot, b: Spot)
    requires
        proper_steps(tr),
    ensures
        both(outline(tr, ty), a, b) <= both(walls(tr), a, b),
    decreases tr.len(),
{
    reveal(proper_steps);
    if tr.len() > 0 {
        let d = tr.drop_last();
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].ends.len() implies (#[trigger] d[i].ends[j]).from != d[i].q by {
            assert(tr[i].ends[j].from != tr[i].q);
        }
        lemma_outline_walls(d, ty, a, b);
        let st = tr.last();
        assert forall|j: int| 0 <= j < st.ends.len() implies (#[trigger] st.ends[j]).from != st.q by {
            assert(tr[tr.len() - 1].ends[j].from != st.q);
        }
        lemma_outl_wall(st.ends, par(st.low, outside()), st.q, ty, a, b);
    }
}

// the outline is as spread out as the bundles
proof fn lemma_spread(tr: Seq<Step>, ty: OpType)
    requires
        proper_steps(tr),
        spread(walls(tr)),
    ensures
        spread(outline(tr, ty)),
{
    let (o, w) = (outline(tr, ty), walls(tr));
    assert forall|p: Spot, a: Spot| #![trigger o.count((p, a))] o.count((p, a)) + o.count((a, p)) <= 1 by {
        lemma_outline_walls(tr, ty, p, a);
        assert(w.count((p, a)) + w.count((a, p)) <= 1);
    }
    assert forall|p: Spot, a: Spot, b: Spot|
        #[trigger] arm(o, p, a) && #[trigger] arm(o, p, b) && a != b && lexr(p, a) == Ordering::Less && lexr(p, b) == Ordering::Less implies area(
        a,
        p,
        b,
    ) != 0real by {
        lemma_outline_walls(tr, ty, p, a);
        lemma_outline_walls(tr, ty, p, b);
        assert(arm(w, p, a) && arm(w, p, b));
    }
}

// ---- the order of the records of a spot ----
spec fn run_x<T: GeoNum>(c: Crossing<T>) -> real {
    pt(snd(c.line)).0 - pt(fst(c.line)).0
}

spec fn run_y<T: GeoNum>(c: Crossing<T>) -> real {
    pt(snd(c.line)).1 - pt(fst(c.line)).1
}

proof fn lemma_cross_cmp<T: GeoNum>(a: Crossing<T>, b: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
        record_ok(b, q, n),
        a.at_left == b.at_left,
    ensures
        placed(a.line, b.line),
        lop_cmp(a.line, b.line) is Some,
        cross_cmp(a, b) == rev(cmpr(cross(run_x(a), run_y(a), run_x(b), run_y(b)), 0real)),
{
    let (ux, uy, vx, vy) = (run_x(a), run_y(a), run_x(b), run_y(b));
    lemma_cross_null(ux, uy);
    lemma_cross_null(vx, vy);
    lemma_cross_anti(ux, uy, vx, vy);
    if !a.at_left {
        lemma_cross_self(ux, uy);
        lemma_cross_self(vx, vy);
        lemma_cross_sub(ux, uy, vx, vy, ux, uy);
        lemma_cross_sub(vx, vy, ux, uy, vx, vy);
        lemma_cross_anti(ux, uy, ux - vx, uy - vy);
        lemma_cross_anti(vx, vy, vx - ux, vy - uy);
        let (p1, p2) = (pt(fst(a.line)), pt(fst(b.line)));
        assert(p2.0 - p1.0 == ux - vx && p2.1 - p1.1 == uy - vy);
        assert(p1.0 - p2.0 == vx - ux && p1.1 - p2.1 == vy - uy);
        assert(area(p1, q, p2) == cross(vx, vy, ux, uy));
        assert(area(p2, q, p1) == cross(ux, uy, vx, vy));
        assert(area(p1, q, q) == 0real && area(p2, q, q) == 0real);
    }
}

proof fn lemma_mul_pos(a: real, b: real)
    requires
        a >= 0real,
        b >= 0real,
    ensures
        a * b >= 0real,
{
    assert(a * b >= 0real) by (nonlinear_arith)
        requires
            a >= 0real,
            b >= 0real,
    ;
}

proof fn lemma_div_pos(d: real, b: real)
    requires
        d * b >= 0real,
        b > 0real,
    ensures
        d >= 0real,
{
    assert(d >= 0real) by (nonlinear_arith)
        requires
            d * b >= 0real,
            b > 0real,
    ;
}

proof fn lemma_cross_mix(ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures
        (ax * cy - ay * cx) * bx == (ax * by - ay * bx) * cx + (bx * cy - by * cx) * ax,
{
    lemma_times_minus(ax * cy, ay * cx, bx);
    lemma_times_minus(ax * by, ay * bx, cx);
    lemma_times_minus(bx * cy, by * cx, ax);
    lemma_times_turn(ax, cy, bx);
    lemma_times_turn(ay, cx, bx);
    lemma_times_turn(ax, by, cx);
}

proof fn lemma_times_minus(a: real, b: real, c: real)
    ensures
        (a - b) * c == a * c - b * c,
{
    assert((a - b) * c == a * c - b * c) by (nonlinear_arith);
}

proof fn lemma_times_turn(a: real, b: real, c: real)
    ensures
        (a * b) * c == (c * b) * a,
        (a * b) * c == (a * c) * b,
        (a * b) * c == (b * c) * a,
{
    assert((a * b) * c == (c * b) * a) by (nonlinear_arith);
    assert((a * b) * c == (a * c) * b) by (nonlinear_arith);
    assert((a * b) * c == (b * c) * a) by (nonlinear_arith);
}

proof fn lemma_cross_upright(ax: real, ay: real, by: real, cx: real, cy: real)
    requires
        ax >= 0real,
        by > 0real,
        cx > 0real || cx == 0real && cy > 0real,
        cross(0real, by, cx, cy) >= 0real,
    ensures
        cross(ax, ay, cx, cy) >= 0real,
{
    reveal(cross);
    assert(cross(0real, by, cx, cy) == 0real - by * cx);
    assert(cx <= 0real) by (nonlinear_arith)
        requires
            0real - by * cx >= 0real,
            by > 0real,
    ;
    assert(ay * cx == 0real) by (nonlinear_arith)
        requires
            cx == 0real,
    ;
    lemma_mul_pos(ax, cy);
}

proof fn lemma_cross_trans(ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    requires
        ax > 0real || ax == 0real && ay > 0real,
        bx > 0real || bx == 0real && by > 0real,
        cx > 0real || cx == 0real && cy > 0real,
        cross(ax, ay, bx, by) >= 0real,
        cross(bx, by, cx, cy) >= 0real,
    ensures
        cross(ax, ay, cx, cy) >= 0real,
{
    if bx > 0real {
        let (s, t, d) = (cross(ax, ay, bx, by), cross(bx, by, cx, cy), cross(ax, ay, cx, cy));
        lemma_cross_turn(ax, ay, bx, by, cx, cy);
        lemma_mul_pos(s, cx);
        lemma_mul_pos(t, ax);
        lemma_div_pos(d, bx);
    } else {
        lemma_cross_upright(ax, ay, by, cx, cy);
    }
}

proof fn lemma_cross_turn(ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures
        cross(ax, ay, cx, cy) * bx == cross(ax, ay, bx, by) * cx + cross(bx, by, cx, cy) * ax,
{
    reveal(cross);
    lemma_cross_mix(ax, ay, bx, by, cx, cy);
}

proof fn lemma_pair<T: GeoNum>(a: Crossing<T>, b: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
        record_ok(b, q, n),
    ensures
        cross_cmp(a, b) == rev(cross_cmp(b, a)),
{
    if a.at_left == b.at_left {
        lemma_cross_cmp(a, b, q, n);
        lemma_cross_cmp(b, a, q, n);
        lemma_cross_anti(run_x(a), run_y(a), run_x(b), run_y(b));
    }
}

proof fn lemma_triple<T: GeoNum>(a: Crossing<T>, b: Crossing<T>, c: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
        record_ok(b, q, n),
        record_ok(c, q, n),
        cross_cmp(a, b) != Ordering::Greater,
        cross_cmp(b, c) != Ordering::Greater,
    ensures
        cross_cmp(a, c) != Ordering::Greater,
{
    if a.at_left == c.at_left {
        assert(a.at_left == b.at_left);
        lemma_cross_cmp(a, b, q, n);
        lemma_cross_cmp(b, c, q, n);
        lemma_cross_cmp(a, c, q, n);
        lemma_run(a, q, n);
        lemma_run(b, q, n);
        lemma_run(c, q, n);
        let (o1, o2) = (cross(run_x(a), run_y(a), run_x(b), run_y(b)), cross(run_x(b), run_y(b), run_x(c), run_y(c)));
        assert(o1 >= 0real && o2 >= 0real);
        lemma_cross_trans(run_x(a), run_y(a), run_x(b), run_y(b), run_x(c), run_y(c));
    }
}

proof fn lemma_run<T: GeoNum>(a: Crossing<T>, q: Spot, n: int)
    requires
        record_ok(a, q, n),
    ensures
        run_x(a) > 0real || run_x(a) == 0real && run_y(a) > 0real,
{
}

proof fn lemma_orderly<T: GeoNum>(l: Seq<Crossing<T>>, q: Spot, n: int)
    requires
        records_ok(l, q, n),
    ensures
        orderly(l),
{
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() implies cross_cmp(l[i], l[j]) == rev(cross_cmp(l[j], l[i])) by {
        lemma_pair(l[i], l[j], q, n);
    }
    assert forall|i: int, j: int, k: int|
        #![trigger l[i], l[j], l[k]]
        0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && cross_cmp(l[i], l[j]) != Ordering::Greater && cross_cmp(l[j], l[k]) != Ordering::Greater
            implies cross_cmp(l[i], l[k]) != Ordering::Greater by {
        lemma_triple(l[i], l[j], l[k], q, n);
    }
}

//@@ fn compare_crossings self=Op inner=sweep file=src/bops/op.rs
//@@ sub `< X : Crossable >` => `< T : GeoNum >`
//@@ sub `Crossing < X >` => `Crossing < T >`
//@@ sub `LineOrPoint :: from ( $x . line )` => `$x . line`
//@@ sub `& $x . line . into ( )` => `& $x . line`
//@@ sub `$x . at_left . cmp ( $*y ) . then_with ( || $*b )` => `{ let o = bool_cmp ( $x . at_left , $*y ) ; if o == Ordering :: Equal { $*b } else { o } }`
            fn compare_crossings< T : GeoNum >(a: &Crossing < T >, b: &Crossing < T >) -> (ret: Ordering) /*@
                requires
                    a.at_left == b.at_left ==> placed(a.line, b.line) && lop_cmp(a.line, b.line) is Some,
                ensures
                    ret == cross_cmp(*a, *b),
            @*/ {
                { let o = bool_cmp ( a . at_left , &b.at_left ) ; if o == Ordering :: Equal { {
                    let ord = a . line
                        .partial_cmp(& b . line)
                        .unwrap();
                    if a.at_left {
                        ord
                    } else {
                        ord.reverse()
                    }
                } } else { o } }
            }
//@@ end

// ---- a step ----
// bundles that end in a spot start elsewhere, the others start there; they change sides alike
#[verifier::opaque]
spec fn fair(st: Step) -> bool {
    &&& par(st.ends, outside()) == par(st.starts, outside())
    &&& forall|j: int| 0 <= j < st.ends.len() ==> (#[trigger] st.ends[j]).from != st.q
    &&& forall|j: int| 0 <= j < st.starts.len() ==> (#[trigger] st.starts[j]).from == st.q
}

proof fn lemma_batch_at<T: GeoNum>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int)
    requires
        batch(l, st, fs, k),
    ensures
        0 <= k <= l.len(),
        forall|i: int| 0 <= i < l.len() ==> ((#[trigger] l[i]).at_left <==> k <= i),
        flush(l, 0, k),
        runs(l, fs, k, l.len() as int) == st.starts,
{
    reveal(batch);
}

proof fn lemma_known_frame<T: Float>(bs: Seq<Bundle>, s: Side, a: Seq<Edge<T>>, b: Seq<Edge<T>>, ty: OpType)
    requires
        known(bs, s, a, ty),
        a.len() == b.len(),
        forall|k: int, e: int| 0 <= k < bs.len() && #[trigger] bs[k].edges.contains(e) && 0 <= e < a.len() ==> b[e] == a[e],
    ensures
        known(bs, s, b, ty),
{
    reveal(known);
}

proof fn lemma_known_step<T: Float>(st: Step, a: Seq<Edge<T>>, b: Seq<Edge<T>>, ty: OpType)
    requires
        known(before_step(st), outside(), a, ty),
        a.len() == b.len(),
        apart(after_step(st)),
        fair(st),
        known(st.starts, par(st.low, outside()), b, ty),
        forall|e: int| 0 <= e < a.len() && (forall|j: int| 0 <= j < st.starts.len() ==> !(#[trigger] st.starts[j]).edges.contains(e)) ==> #[trigger] b[e] == a[e],
    ensures
        known(after_step(st), outside(), b, ty),
{
    reveal(fair);
    let o = outside();
    let base = par(st.low, o);
    let z = after_step(st);
    lemma_known_cat(st.low + st.ends, st.high, o, a, ty);
    lemma_known_cat(st.low, st.ends, o, a, ty);
    lemma_known_cat(st.low + st.starts, st.high, o, b, ty);
    lemma_known_cat(st.low, st.starts, o, b, ty);
    lemma_par_cat(st.low, st.ends, o);
    lemma_par_cat(st.low, st.starts, o);
    lemma_par_shift(st.ends, base);
    lemma_par_shift(st.starts, base);
    let n = st.low.len();
    assert forall|j: int| 0 <= j < st.starts.len() implies #[trigger] st.starts[j] == z[n + j] by {}
    assert forall|k: int, e: int| 0 <= k < n && #[trigger] st.low[k].edges.contains(e) && 0 <= e < a.len() implies b[e] == a[e] by {
        assert(z[k] == st.low[k]);
        assert(z[k].edges.contains(e));
        assert forall|j: int| 0 <= j < st.starts.len() implies !(#[trigger] st.starts[j]).edges.contains(e) by {
            assert(st.starts[j] == z[n + j]);
        }
    }
    lemma_known_frame(st.low, o, a, b, ty);
    assert forall|k: int, e: int| 0 <= k < st.high.len() && #[trigger] st.high[k].edges.contains(e) && 0 <= e < a.len() implies b[e] == a[e] by {
        let i = n + st.starts.len() + k;
        assert(z[i] == st.high[k]);
        assert(z[i].edges.contains(e));
        assert forall|j: int| 0 <= j < st.starts.len() implies !(#[trigger] st.starts[j]).edges.contains(e) by {
            assert(st.starts[j] == z[n + j]);
        }
    }
    lemma_known_frame(st.high, par(st.low + st.ends, o), a, b, ty);
}

// the boundary ahead of a spot, before and after a step
proof fn lemma_flux_step(st: Step, ty: OpType, p: Spot)
    requires
        par(st.ends, outside()) == par(st.starts, outside()),
        forall|j: int| 0 <= j < st.ends.len() ==> (#[trigger] st.ends[j]).from != st.q,
        forall|j: int| 0 <= j < st.starts.len() ==> (#[trigger] st.starts[j]).from == st.q,
    ensures
        flux(after_step(st), outside(), ty, p) + bal(st.ends, par(st.low, outside()), st.q, ty, p) == flux(before_step(st), outside(), ty, p),
{
    let o = outside();
    let base = par(st.low, o);
    lemma_par_cat(st.low, st.ends, o);
    lemma_par_cat(st.low, st.starts, o);
    lemma_par_shift(st.ends, base);
    lemma_par_shift(st.starts, base);
    lemma_flux_cat(st.low + st.ends, st.high, o, ty, p);
    lemma_flux_cat(st.low, st.ends, o, ty, p);
    lemma_flux_cat(st.low + st.starts, st.high, o, ty, p);
    lemma_flux_cat(st.low, st.starts, o, ty, p);
    lemma_bal(st.ends, base, st.q, ty, p);
    lemma_flux_start(st.starts, base, st.q, ty, p);
}

proof fn lemma_turned_same(a: Side, b: Side)
    requires
        turned(a, b) == outside(),
    ensures
        a == b,
{
}

proof fn lemma_steady_push(tr: Seq<Step>, st: Step)
    requires
        steady(tr),
        before_step(st) == active(tr),
    ensures
        steady(tr.push(st)),
{
    reveal(steady);
    let t = tr.push(st);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] before_step(t[i]) == active(t.take(i)) by {
        if i < tr.len() {
            assert(t.take(i) =~= tr.take(i));
            assert(before_step(tr[i]) == active(tr.take(i)));
        } else {
            assert(t.take(i) =~= tr);
        }
    }
}

proof fn lemma_proper_push(tr: Seq<Step>, st: Step)
    requires
        proper_steps(tr),
        fair(st),
    ensures
        proper_steps(tr.push(st)),
{
    reveal(fair);
    reveal(proper_steps);
    let t = tr.push(st);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i].ends.len() implies (#[trigger] t[i].ends[j]).from != t[i].q by {
        if i < tr.len() {
            assert(t[i] == tr[i]);
            assert(tr[i].ends[j].from != tr[i].q);
        }
    }
}

proof fn lemma_shuffle<T: GeoNum>(a: Seq<Crossing<T>>, b: Seq<Crossing<T>>, q: Spot, n: int)
    requires
        a.to_multiset() == b.to_multiset(),
        records_ok(a, q, n),
    ensures
        records_ok(b, q, n),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < b.len() implies record_ok(#[trigger] b[i], q, n) by {
        assert(b.to_multiset().count(b[i]) > 0);
        assert(a.contains(b[i]));
    }
}

// the ends and the starts of a batch
proof fn lemma_batch_from<T: GeoNum>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int, n: int)
    requires
        batch(l, st, fs, k),
        records_ok(l, st.q, n),
        par(st.ends, outside()) == par(st.starts, outside()),
    ensures
        fair(st),
        flush(l, k, l.len() as int),
        0 <= k <= l.len(),
{
    reveal(fair);
    reveal(batch);
    assert forall|i: int| 0 <= i < k implies pt(fst((#[trigger] l[i]).line)) != st.q by {
        assert(record_ok(l[i], st.q, n));
    }
    assert forall|i: int| k <= i < l.len() implies pt(fst((#[trigger] l[i]).line)) == st.q by {
        assert(record_ok(l[i], st.q, n));
    }
    lemma_runs_from(l, fs, 0, k, st.q);
    lemma_runs_from(l, fs, k, l.len() as int, st.q);
    let rs = runs(l, fs, 0, k);
    assert forall|j: int| 0 <= j < st.ends.len() implies (#[trigger] st.ends[j]).from != st.q by {
        assert(st.ends[j] == rs[rs.len() - 1 - j]);
    }
}

proof fn lemma_apart_mid(x: Seq<Bundle>, y: Seq<Bundle>, z: Seq<Bundle>)
    requires
        apart(x + y + z),
    ensures
        apart(y),
{
    let s = x + y + z;
    assert forall|i: int, j: int, e: int| #![trigger y[i].edges.contains(e), y[j]] 0 <= i < y.len() && 0 <= j < y.len() && i != j && y[i].edges.contains(e) implies !y[j].edges.contains(e) by {
        assert(s[x.len() + i] == y[i] && s[x.len() + j] == y[j]);
        assert(s[x.len() + i].edges.contains(e));
    }
}

proof fn lemma_crossed(ty: OpType, s: Side, first: bool)
    ensures
        crossed(reg(ty, s), first) == reg(ty, turned(s, one(first))),
        in_ty(reg(ty, s), ty) == inn(ty, s),
{
    lemma_region(ty, s.a, s.b);
}

proof fn lemma_stored<T: Float>(e: Edge<T>, g: LineOrPoint<T>)
    ensures
        stored(e, g) == stored_at(e, pt(fst(g))),
{
}

// how many of the bundles that end are done
spec fn done<T: GeoNum>(l: Seq<Crossing<T>>, fs: Seq<bool>, k: int, i: int) -> int {
    runs(l, fs, 0, i).len() - if midway(l, 0, i, k) {
        1int
    } else {
        0
    }
}

// the rings so far are the boundary so far, and miss at each spot what is ahead of it
#[verifier::opaque]
spec fn level<T: Float>(r: Rings<T>, tr: Seq<Step>, ty: OpType) -> bool {
    &&& edges(r) == outline(tr, ty)
    &&& forall|p: Spot| #[trigger] slack(r.chains@, r.end_points@, p) + flux(active(tr), outside(), ty, p) == 0
}

// from r0 to r1, all but the first t bundles that end are done
#[verifier::opaque]
spec fn partway<T: Float>(r0: Rings<T>, r1: Rings<T>, bs: Seq<Bundle>, t: int, s: Side, q: Spot, ty: OpType) -> bool {
    &&& edges(r1).add(outl(bs.take(t), s, q, ty)) == edges(r0).add(outl(bs, s, q, ty))
    &&& forall|p: Spot| #[trigger] slack(r1.chains@, r1.end_points@, p) + bal(bs.take(t), s, q, ty, p) == slack(r0.chains@, r0.end_points@, p) + bal(bs, s, q, ty, p)
}

proof fn lemma_part_none<T: Float>(r0: Rings<T>, bs: Seq<Bundle>, s: Side, q: Spot, ty: OpType)
    ensures
        partway(r0, r0, bs, bs.len() as int, s, q, ty),
{
    reveal(partway);
    assert(bs.take(bs.len() as int) =~= bs);
}

// one more bundle
proof fn lemma_part<T: Float>(r0: Rings<T>, r1: Rings<T>, r2: Rings<T>, bs: Seq<Bundle>, t: int, s: Side, q: Spot, ty: OpType)
    requires
        0 <= t < bs.len(),
        partway(r0, r1, bs, t + 1, s, q, ty),
        inn(ty, par(bs.take(t), s)) == inn(ty, par(bs.take(t + 1), s)) ==> r2 == r1,
        inn(ty, par(bs.take(t), s)) != inn(ty, par(bs.take(t + 1), s)) ==> ({
            let e = rim(bs[t], inn(ty, par(bs.take(t + 1), s)), q);
            &&& edges(r2) == edges(r1).insert(e)
            &&& forall|p: Spot| #[trigger] slack(r2.chains@, r2.end_points@, p) == slack(r1.chains@, r1.end_points@, p) + gain(e, p)
        }),
    ensures
        partway(r0, r2, bs, t, s, q, ty),
{
    reveal(partway);
    lemma_take_off(bs, t, s, q, ty);
    assert(edges(r2).add(outl(bs.take(t), s, q, ty)) =~= edges(r1).add(outl(bs.take(t + 1), s, q, ty)));
    assert forall|p: Spot| #[trigger] slack(r2.chains@, r2.end_points@, p) + bal(bs.take(t), s, q, ty, p) == slack(r0.chains@, r0.end_points@, p) + bal(bs, s, q, ty, p) by {
        assert(slack(r1.chains@, r1.end_points@, p) + bal(bs.take(t + 1), s, q, ty, p) == slack(r0.chains@, r0.end_points@, p) + bal(bs, s, q, ty, p));
    }
}

// when all that end are done
proof fn lemma_ends_done<T: Float>(tr0: Seq<Step>, st: Step, ty: OpType, r0: Rings<T>, r1: Rings<T>, l: Seq<Crossing<T>>, fs: Seq<bool>, k: int)
    requires
        batch(l, st, fs, k),
        fair(st),
        before_step(st) == active(tr0),
        level(r0, tr0, ty),
        partway(r0, r1, st.ends, st.ends.len() - done(l, fs, k, k), par(st.low, outside()), st.q, ty),
    ensures
        level(r1, tr0.push(st), ty),
{
    reveal(batch);
    reveal(fair);
    reveal(level);
    reveal(partway);
    let tr = tr0.push(st);
    assert(tr.drop_last() =~= tr0);
    let r = st.ends.len() as int;
    assert(done(l, fs, k, k) == r);
    let z = st.ends.take(r - done(l, fs, k, k));
    assert(z =~= Seq::empty());
    assert(edges(r1) =~= outline(tr, ty));
    assert forall|p: Spot| #[trigger] slack(r1.chains@, r1.end_points@, p) + flux(active(tr), outside(), ty, p) == 0 by {
        lemma_flux_step(st, ty, p);
        assert(slack(r0.chains@, r0.end_points@, p) + flux(active(tr0), outside(), ty, p) == 0);
        assert(bal(z, par(st.low, outside()), st.q, ty, p) == 0);
    }
}

// the last of bundles, taken off
proof fn lemma_take_off(bs: Seq<Bundle>, j: int, s: Side, q: Spot, ty: OpType)
    requires
        0 <= j < bs.len(),
    ensures
        ({
            let (a, b) = (bs.take(j), bs.take(j + 1));
            let (below, above) = (inn(ty, par(a, s)), inn(ty, par(b, s)));
            let e = rim(bs[j], above, q);
            &&& par(b, s) == turned(par(a, s), bs[j].odd)
            &&& turned(par(b, s), bs[j].odd) == par(a, s)
            &&& outl(b, s, q, ty) == if below != above {
                outl(a, s, q, ty).insert(e)
            } else {
                outl(a, s, q, ty)
            }
            &&& forall|p: Spot| #[trigger] bal(b, s, q, ty, p) == bal(a, s, q, ty, p) + if below != above {
                gain(e, p)
            } else {
                0
            }
        }),
{
    lemma_take_last(bs, j);
}

// an ended record belongs to a bundle of the step, and its edge knows the region above that
proof fn lemma_ended<T: Float>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int, i: int, s: Side, es: Seq<Edge<T>>, ty: OpType)
    requires
        batch(l, st, fs, k),
        0 <= i < k,
        known(st.ends, s, es, ty),
    ensures
        ({
            let a = runs(l, fs, 0, i);
            let b = runs(l, fs, 0, i + 1);
            let m = midway(l, 0, i, k);
            let t = st.ends.len() - done(l, fs, k, i) - 1;
            &&& b.len() == done(l, fs, k, i) + 1
            &&& b.last().odd == if m {
                turned(a.last().odd, one(fs[l[i].crossable as int]))
            } else {
                one(fs[l[i].crossable as int])
            }
            &&& 0 <= t < st.ends.len()
            &&& st.ends[t].from == pt(fst(l[i].line))
            &&& stored_at(es[l[i].crossable as int], pt(fst(l[i].line))) == reg(ty, par(st.ends.take(t + 1), s))
            &&& done(l, fs, k, i + 1) == if midway(l, 0, i + 1, k) {
                done(l, fs, k, i)
            } else {
                done(l, fs, k, i) + 1
            }
            &&& !midway(l, 0, i + 1, k) ==> st.ends[t] == b.last()
        }),
{
    reveal(known);
    reveal(batch);
    let rs = runs(l, fs, 0, k);
    let b = runs(l, fs, 0, i + 1);
    assert(runs(l, fs, 0, i + 1 - 1) == runs(l, fs, 0, i));
    lemma_runs(l, fs, 0, i + 1, k);
    if i > 0 {
        lemma_runs(l, fs, 0, i, i);
    }
    let j = b.len() - 1;
    let t = st.ends.len() - 1 - j;
    assert(st.ends[t] == rs[rs.len() - 1 - t]);
    assert(st.ends[t].edges.contains(l[i].crossable as int));
}

// the records j..i of a bundle that starts are on record
proof fn lemma_started<T: Float>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int, j: int, i: int, s: Side, e1: Seq<Edge<T>>, e2: Seq<Edge<T>>, ty: OpType, n: int)
    requires
        batch(l, st, fs, k),
        records_ok(l, st.q, n),
        flush(l, k, l.len() as int),
        k <= j < i <= l.len(),
        !midway(l, k, j, l.len() as int),
        !midway(l, k, i, l.len() as int),
        forall|t: int| j < t < i ==> #[trigger] same(l[t - 1], l[t]),
        runs(l, fs, k, i).len() == runs(l, fs, k, j).len() + 1,
        apart(st.starts),
        known(runs(l, fs, k, j), s, e1, ty),
        e1.len() == n && e2.len() == n,
        forall|t: int| j <= t < i ==> stored_at(e2[(#[trigger] l[t]).crossable as int], st.q) == reg(ty, par(runs(l, fs, k, i), s)),
        forall|e: int| 0 <= e < n && (forall|t: int| j <= t < i ==> (#[trigger] l[t]).crossable != e) ==> #[trigger] e2[e] == e1[e],
    ensures
        known(runs(l, fs, k, i), s, e2, ty),
{
    reveal(known);
    reveal(batch);
    let (a, b, c) = (runs(l, fs, k, j), runs(l, fs, k, i), st.starts);
    let m = a.len() as int;
    lemma_runs(l, fs, k, i, l.len() as int);
    lemma_runs(l, fs, k, j + 1, i);
    if j > k {
        lemma_runs(l, fs, k, j, j + 1);
        lemma_runs(l, fs, k, j, i);
    }
    assert(b.take(m) =~= a);
    assert(forall|x: int| 0 <= x <= m ==> #[trigger] b[x] == c[x]);
    assert forall|x: int, e: int| 0 <= x < b.len() && #[trigger] b[x].edges.contains(e) implies 0 <= e < e2.len() && stored_at(e2[e], b[x].from) == reg(
        ty,
        par(b.take(x + 1), s),
    ) by {
        if x < m {
            assert(a[x] == b.take(m)[x]);
            assert(a[x].edges.contains(e));
            assert(b.take(x + 1) =~= a.take(x + 1));
            assert(c[x].edges.contains(e));
            assert forall|t: int| j <= t < i implies (#[trigger] l[t]).crossable != e by {
                lemma_runs(l, fs, k, j + 1, t + 1);
                lemma_runs(l, fs, k, t + 1, i);
                assert(b[m].edges.contains(l[t].crossable as int));
                assert(c[m].edges.contains(l[t].crossable as int));
            }
        } else {
            assert(b.take(x + 1) =~= b);
            lemma_runs_members(l, fs, k, j, i, e);
            let t = choose|t: int| j <= t < i && (#[trigger] l[t]).crossable == e;
            assert(record_ok(l[t], st.q, n));
            lemma_runs(l, fs, k, i, i);
            assert(record_ok(l[i - 1], st.q, n));
            assert(b.last().from == st.q);
        }
    }
}

// only edges of bundles that start have been told a region
proof fn lemma_starts_all<T: Float>(l: Seq<Crossing<T>>, st: Step, fs: Seq<bool>, k: int, e0: Seq<Edge<T>>, e1: Seq<Edge<T>>)
    requires
        0 <= k <= l.len(),
        flush(l, k, l.len() as int),
        runs(l, fs, k, l.len() as int) == st.starts,
        forall|e: int| 0 <= e < e0.len() && (forall|t: int| k <= t < l.len() ==> (#[trigger] l[t]).crossable != e) ==> #[trigger] e1[e] == e0[e],
    ensures
        forall|e: int| 0 <= e < e0.len() && (forall|j: int| 0 <= j < st.starts.len() ==> !(#[trigger] st.starts[j]).edges.contains(e)) ==> #[trigger] e1[e] == e0[e],
{
    assert forall|e: int| 0 <= e < e0.len() && (forall|j: int| 0 <= j < st.starts.len() ==> !(#[trigger] st.starts[j]).edges.contains(e)) implies #[trigger] e1[e] == e0[e] by {
        assert forall|t: int| k <= t < l.len() implies (#[trigger] l[t]).crossable != e by {
            lemma_runs(l, fs, k, t + 1, l.len() as int);
            assert(st.starts[runs(l, fs, k, t + 1).len() - 1].edges.contains(l[t].crossable as int));
        }
    }
}

proof fn lemma_top<T: Float>(bs: Seq<Bundle>, s: Side, es: Seq<Edge<T>>, ty: OpType, e: int)
    requires
        known(bs, s, es, ty),
        bs.len() > 0,
        bs.last().edges.contains(e),
    ensures
        0 <= e < es.len(),
        stored_at(es[e], bs.last().from) == reg(ty, par(bs, s)),
{
    reveal(known);
    let h = bs.len() - 1;
    assert(bs[h].edges.contains(e));
    assert(bs.take(h + 1) =~= bs);
}

proof fn lemma_known_none<T: Float>(s: Side, es: Seq<Edge<T>>, ty: OpType)
    ensures
        known(Seq::empty(), s, es, ty),
{
    reveal(known);
}

spec fn midway<T: GeoNum>(l: Seq<Crossing<T>>, lo: int, i: int, n: int) -> bool {
    lo < i < n && same(l[i - 1], l[i])
}

impl<T: Float> Op<T> {
//@@ fn sweep self=Op
//@@ sub `fn compare_crossings < X : Crossable > ( $*p ) -> Ordering { $*b }` => ``
//@@ sub `( & self )` => `( & mut self )`
//@@ sub `CrossingsIter :: from_iter ( self . edges . iter ( ) )` => `Feed :: of ( & self . edges )`
//@@ sub `while let Some ( $p ) = iter . next ( )` => `while let Some ( _point ) = iter . next ( )`
//@@ sub `iter . intersections_mut ( ) . sort_unstable_by ( $*f )` => `sort_by ( & mut iter . segs , $*f )`
//@@ sub `iter . intersections_mut ( )` => `iter . segs`
//@@ sub `iter . intersections ( )` => `iter . segs`
//@@ sub `$x . as_mut ( ) . unwrap ( ) . cross ( $y . is_first ) ;` => `{ let mut r = $x . unwrap ( ) ; r . cross ( self . edges [ $y ] . is_first ) ; $x = Some ( r ) ; }`
//@@ sub `$x . get_region (` => `self . edges [ $x ] . get_region (`
//@@ sub `$x . crossable . is_first` => `self . edges [ $x . crossable ] . is_first`
//@@ sub `iter . segs [ $x ] . crossable . set_region (` => `self . edges [ iter . segs [ $x ] . crossable ] . set_region (`
//@@ sub `$x . as_ref ( ) . map ( | ( $g , $c ) | $*b ) . unwrap_or_else ( || $*d )` => `match $x { Some ( ( piece , $c ) ) => { let $g = & piece ; $*b } None => $*d , }`
    fn sweep( & mut self ) -> (ret: Vec<Ring<T>>) /*@
        requires
            // closed rings
            forall|p: Spot| #[trigger] degree(old(self).edges@, p) == outside(),
        ensures
            final(self).ty == old(self).ty,
            // C14: the rings lie where a point above an edge is in the result and one below is not, or the other way round
            exists|tr: Seq<Step>| #[trigger] swept(old(self).edges@, tr) && lays(ret@) == outline(tr, old(self).ty),
            proper(ret@),
    @*/ {
        /*@ let ghost (es, ty) = (self.edges@, self.ty);
        let ghost fs = kinds(es);
        let ghost n = es.len() as int; @*/
        let mut iter = Feed :: of ( & self . edges );
        let mut rings = Rings::default();
        /*@ proof {
            assert(edges(rings) =~= outline(iter.tr@, ty));
            lemma_known_none(outside(), es, ty);
            reveal(steady);
            reveal(proper_steps);
            reveal(level);
            assert(forall|p: Spot| listed(rings.end_points@, p).len() == 0);
        } @*/
        while let Some ( _point ) = iter . next ( )
        /*@
            invariant
                es == old(self).edges@ && ty == old(self).ty && fs == kinds(es) && n == es.len(),
                forall|p: Spot| #[trigger] degree(es, p) == outside(),
                self.ty == ty && kinds(self.edges@) == fs && self.edges@.len() == n,
                iter.es@ == es,
                steady(iter.tr@) && proper_steps(iter.tr@),
                spread(walls(iter.tr@)),
                known(active(iter.tr@), outside(), self.edges@, ty),
                rings_ok(rings.chains@, rings.end_points@),
                forall|m: Link| !#[trigger] loose(rings.chains@, rings.end_points@, m),
                level(rings, iter.tr@, ty),
            ensures
                swept(es, iter.tr@),
            decreases iter.left@,
        @*/
        {
            /*@ let ghost (tr, st, q) = (iter.tr@, iter.tr@.last(), iter.tr@.last().q);
            let ghost tr0 = tr.drop_last();
            let ghost base = par(st.low, outside());
            let ghost e0 = self.edges@;
            let ghost r0 = rings;
            let ghost l0 = iter.segs@;
            proof {
                assert(level(rings, tr0, ty) && steady(tr0) && proper_steps(tr0) && before_step(st) == active(tr0));
                lemma_orderly(iter.segs@, q, n);
                assert forall|a: Crossing<T>, b: Crossing<T>| #![trigger iter.segs@.contains(a), iter.segs@.contains(b)] iter.segs@.contains(a) && iter.segs@.contains(b)
                    implies call_requires(compare_crossings, (&a, &b)) by {
                    if a.at_left == b.at_left {
                        lemma_cross_cmp(a, b, q, n);
                    }
                }
                assert(tr =~= tr0.push(st));
            } @*/
            sort_by ( & mut iter . segs , compare_crossings );
            /*@ let ghost l = iter.segs@;
            let ghost k = choose|k: int| batch(l, st, fs, k);
            let ghost r = st.ends.len() as int;
            proof {
                lemma_shuffle(l0, l, q, n);
                assert(batched(l, st, fs));
                assert(batch(l, st, fs, k));
                assert(degree(es, q) == outside());
                lemma_turned_same(par(st.ends, outside()), par(st.starts, outside()));
                lemma_batch_from(l, st, fs, k, n);
                lemma_batch_at(l, st, fs, k);
                lemma_part_none(rings, st.ends, base, q, ty);
                lemma_known_cat(st.low + st.ends, st.high, outside(), e0, ty);
                lemma_known_cat(st.low, st.ends, outside(), e0, ty);
                lemma_apart_mid(st.low, st.starts, st.high);
            } @*/
            let mut idx = 0;
            let mut next_region = None;
            while idx < iter . segs.len()
            /*@
                invariant
                    idx <= k <= l.len() && l == iter.segs@,
                    batch(l, st, fs, k) && records_ok(l, q, n) && q == st.q && r == st.ends.len(),
                    self.edges@ == e0 && kinds(e0) == fs && e0.len() == n && self.ty == ty,
                    known(st.ends, base, e0, ty),
                    rings_ok(rings.chains@, rings.end_points@),
                    forall|m: Link| !#[trigger] loose(rings.chains@, rings.end_points@, m),
                    0 <= done(l, fs, k, idx as int) <= r,
                    next_region is Some <==> midway(l, 0, idx as int, k),
                    next_region is Some ==> next_region->Some_0 == reg(
                        ty,
                        turned(par(st.ends.take(r - done(l, fs, k, idx as int)), base), runs(l, fs, 0, idx as int).last().odd),
                    ),
                    partway(r0, rings, st.ends, r - done(l, fs, k, idx as int), base, q, ty),
                    forall|i: int| 0 <= i < l.len() ==> ((#[trigger] l[i]).at_left <==> k <= i),
                ensures
                    idx == k,
                decreases l.len() - idx,
            @*/
            {
                let c = &iter . segs[idx];
                if c.at_left {
                    break;
                }
                let cross = c.crossable;
                /*@ let ghost i = idx as int;
                let ghost d = done(l, fs, k, i);
                let ghost above = par(st.ends.take(r - d), base);
                let ghost odd = runs(l, fs, 0, i + 1).last().odd;
                let ghost b0 = st.ends.take(r - d - 1);
                proof {
                    assert(record_ok(l[i], q, n));
                    lemma_ended(l, st, fs, k, i, base, e0, ty);
                    lemma_stored(e0[cross as int], c.line);
                    lemma_take_off(st.ends, r - d - 1, base, q, ty);
                    assert(fs[cross as int] == e0[cross as int].is_first);
                } @*/
                if next_region.is_none() {
                    next_region = Some(self . edges [ cross ] . get_region (c.line));
                }
                { let mut r = next_region . unwrap ( ) ; r . cross ( self . edges [ cross ] . is_first ) ; next_region = Some ( r ) ; }
                /*@ proof {
                    lemma_crossed(ty, above, fs[cross as int]);
                    if midway(l, 0, i, k) {
                        lemma_crossed(ty, turned(above, runs(l, fs, 0, i).last().odd), fs[cross as int]);
                    }
                    assert(next_region == Some(reg(ty, turned(above, odd))));
                    lemma_crossed(ty, turned(above, odd), true);
                    if i + 1 < l.len() && l[i + 1].at_left == l[i].at_left {
                        assert(record_ok(l[i + 1], q, n));
                        lemma_cross_cmp(l[i], l[i + 1], q, n);
                    }
                } @*/
                let has_overlap = (idx + 1) < iter . segs.len()
                    && compare_crossings(c, &iter . segs[idx + 1]) == Ordering::Equal;
                /*@ proof {
                    assert(has_overlap == midway(l, 0, i + 1, k));
                }
                let ghost r1 = rings; @*/
                if !has_overlap {
                    let prev_region = self . edges [ cross ] . get_region (c.line);
                    let next_is_ty = next_region.unwrap().is_ty(self.ty);
                    /*@ proof {
                        assert(turned(above, odd) == par(b0, base));
                        assert(next_is_ty == inn(ty, par(b0, base)));
                        assert(in_ty(prev_region, ty) == inn(ty, above));
                    } @*/
                    if prev_region.is_ty(self.ty) ^ next_is_ty {
                        rings.add_edge(
                            c.line,
                            if !next_is_ty {
                                WindingOrder::CounterClockwise
                            } else {
                                WindingOrder::Clockwise
                            },
                        )
                    }
                    /*@ proof {
                        lemma_part(r0, r1, rings, st.ends, r - d - 1, base, q, ty);
                    } @*/
                    next_region = None;
                }
                idx += 1;
            }
            /*@ proof {
                lemma_ends_done(tr0, st, ty, r0, rings, l, fs, k);
                lemma_steady_push(tr0, st);
                lemma_proper_push(tr0, st);
                assert(iter.tr@ == tr && active(tr) == after_step(st) && before_step(st) == active(tr0));
                assert(level(rings, tr, ty) && steady(tr) && proper_steps(tr) && spread(walls(tr)));
                assert(self.edges@ == e0 && idx == k);
                assert(known(before_step(st), outside(), e0, ty));
                assert(known(st.low, outside(), e0, ty));
            } @*/
            if idx >= iter . segs.len() {
                /*@ proof {
                    assert(st.starts =~= Seq::empty());
                    lemma_known_none(base, e0, ty);
                    lemma_known_step(st, e0, self.edges@, ty);
                } @*/
                continue;
            }
            let botmost_start_segment = iter . segs[idx];
            rt_assert(botmost_start_segment.at_left);
            /*@ proof {
                assert(batch(iter.segs@, iter.tr@.last(), kinds(iter.es@), k));
            } @*/
            let prev = iter.prev_active(&botmost_start_segment);
            /*@ proof {
                if let Some((g, c)) = prev {
                    lemma_top(st.low, outside(), e0, ty, c as int);
                    lemma_stored(e0[c as int], g);
                }
            } @*/
            let mut region = match prev { Some ( ( piece , c ) ) => { let g = & piece ; self . edges [ c ] . get_region (*g) } None => Region::infinity(self.ty), };
            /*@ proof {
                assert(region == reg(ty, base));
                lemma_known_none(base, e0, ty);
                assert(runs(l, fs, k, k) =~= Seq::empty());
            } @*/
            while idx < iter . segs.len()
            /*@
                invariant
                    0 <= k <= idx <= l.len() && l == iter.segs@,
                    forall|t: int| k <= t < l.len() ==> (#[trigger] l[t]).at_left,
                    batch(l, st, fs, k) && records_ok(l, q, n) && q == st.q && flush(l, k, l.len() as int),
                    apart(st.starts),
                    self.edges@.len() == n && kinds(self.edges@) == fs && e0.len() == n && self.ty == ty,
                    !midway(l, k, idx as int, l.len() as int),
                    region == reg(ty, par(runs(l, fs, k, idx as int), base)),
                    known(runs(l, fs, k, idx as int), base, self.edges@, ty),
                    forall|e: int| 0 <= e < n && (forall|t: int| k <= t < idx ==> (#[trigger] l[t]).crossable != e) ==> #[trigger] self.edges@[e] == e0[e],
                decreases l.len() - idx,
            @*/
            {
                let mut c = &iter . segs[idx];
                let mut jdx = idx;
                /*@ let ghost j = idx as int;
                let ghost e1 = self.edges@;
                proof {
                    assert(runs(l, fs, k, j + 1 - 1) == runs(l, fs, k, j));
                    assert(l.len() == iter.segs@.len() && l.len() <= usize::MAX);
                } @*/
                loop
                /*@
                    invariant_except_break
                        region == reg(ty, par(runs(l, fs, k, idx as int), base)),
                    invariant
                        l == iter.segs@ && l.len() <= usize::MAX && 0 <= k <= j && jdx == j,
                        forall|t: int| k <= t < l.len() ==> (#[trigger] l[t]).at_left,
                        batch(l, st, fs, k) && records_ok(l, q, n) && flush(l, k, l.len() as int),
                        self.edges@ == e1 && e1.len() == n && kinds(e1) == fs && self.ty == ty,
                        j <= idx < l.len(),
                        *c == l[idx as int],
                        forall|t: int| j < t <= idx ==> #[trigger] same(l[t - 1], l[t]),
                        runs(l, fs, k, idx + 1).len() == runs(l, fs, k, j).len() + 1,
                    ensures
                        region == reg(ty, par(runs(l, fs, k, idx + 1), base)),
                        !midway(l, k, idx + 1, l.len() as int),
                    decreases l.len() - idx,
                @*/
                {
                    /*@ let ghost i = idx as int;
                    proof {
                        assert(record_ok(l[i], q, n));
                        assert(fs[l[i].crossable as int] == e1[l[i].crossable as int].is_first);
                        lemma_runs_par(l, fs, k, i, base);
                        lemma_crossed(ty, par(runs(l, fs, k, i), base), fs[l[i].crossable as int]);
                        if i + 1 < l.len() {
                            assert(record_ok(l[i + 1], q, n));
                            assert(l[i + 1].at_left && l[i].at_left);
                            lemma_cross_cmp(l[i], l[i + 1], q, n);
                            lemma_runs(l, fs, k, i + 1, i + 1);
                            assert(runs(l, fs, k, i + 2 - 1) == runs(l, fs, k, i + 1));
                        }
                    } @*/
                    region.cross(self . edges [ c . crossable ] . is_first);
                    let has_overlap = (idx + 1) < iter . segs.len()
                        && compare_crossings(c, &iter . segs[idx + 1]) == Ordering::Equal;
                    if !has_overlap {
                        break;
                    }
                    idx += 1;
                    c = &iter . segs[idx];
                }
                /*@ let ghost i = idx + 1; @*/
                while jdx <= idx
                /*@
                    invariant
                        l == iter.segs@ && l.len() <= usize::MAX && records_ok(l, q, n) && 0 <= k,
                        j <= jdx <= idx + 1 && i == idx + 1 && i <= l.len(),
                        self.edges@.len() == n && kinds(self.edges@) == fs && self.ty == ty,
                        kinds(e1) == fs && e1.len() == n,
                        forall|t: int| k <= j && j <= t < jdx ==> stored_at(self.edges@[(#[trigger] l[t]).crossable as int], q) == region,
                        forall|e: int| 0 <= e < n && (forall|t: int| j <= t < jdx ==> (#[trigger] l[t]).crossable != e) ==> #[trigger] self.edges@[e] == e1[e],
                        k <= j,
                        forall|t: int| k <= t < l.len() ==> (#[trigger] l[t]).at_left,
                    decreases idx + 1 - jdx,
                @*/
                {
                    /*@ let ghost e2 = self.edges@;
                    let ghost x = l[jdx as int].crossable as int;
                    proof {
                        assert(record_ok(l[jdx as int], q, n));
                    } @*/
                    let gpiece = iter . segs[jdx].line;
                    self . edges [ iter . segs [ jdx ] . crossable ] . set_region (region, gpiece);
                    /*@ proof {
                        lemma_stored(self.edges@[x], gpiece);
                        assert(kinds(self.edges@) =~= kinds(e2));
                        assert forall|t: int| j <= t < jdx + 1 implies stored_at(self.edges@[(#[trigger] l[t]).crossable as int], q) == region by {
                            assert(record_ok(l[t], q, n));
                            if l[t].crossable != x {
                                assert(self.edges@[l[t].crossable as int] == e2[l[t].crossable as int]);
                            }
                        }
                        assert forall|e: int| 0 <= e < n && (forall|t: int| j <= t < jdx + 1 ==> (#[trigger] l[t]).crossable != e) implies #[trigger] self.edges@[e] == e1[e] by {
                            assert(l[jdx as int].crossable != e);
                            assert(e2[e] == e1[e]);
                        }
                    } @*/
                    jdx += 1;
                }
                /*@ proof {
                    lemma_started(l, st, fs, k, j, i, base, e1, self.edges@, ty, n);
                    assert forall|e: int| 0 <= e < n && (forall|t: int| k <= t < i ==> (#[trigger] l[t]).crossable != e) implies #[trigger] self.edges@[e] == e0[e] by {
                        assert(e1[e] == e0[e]);
                    }
                } @*/
                idx += 1;
            }
            /*@ proof {
                assert(idx == l.len());
                lemma_batch_at(l, st, fs, k);
                assert(known(st.starts, base, self.edges@, ty));
                lemma_starts_all(l, st, fs, k, e0, self.edges@);
                lemma_known_step(st, e0, self.edges@, ty);
            } @*/
        }
        /*@ proof {
            let tr = iter.tr@;
            reveal(level);
            lemma_spread(tr, ty);
            assert(swept(es, tr));
            assert forall|p: Spot| #[trigger] slack(rings.chains@, rings.end_points@, p) == 0 by {
                assert(flux(active(tr), outside(), ty, p) == 0);
            }
        } @*/
        rings.finish()
    }
//@@ end
}

// ---- closed rings ----
proof fn lemma_turned(a: Side, b: Side, c: Side)
    ensures
        turned(turned(a, b), c) == turned(a, turned(b, c)),
        turned(a, b) == turned(b, a),
        turned(outside(), a) == a,
        turned(a, outside()) == a,
        turned(a, a) == outside(),
{
}

proof fn lemma_degree_cat<T: Float>(a: Seq<Edge<T>>, b: Seq<Edge<T>>, p: Spot)
    ensures
        degree(a + b, p) == turned(degree(a, p), degree(b, p)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_degree_cat(a, b.drop_last(), p);
    }
}

// the lines of a ring up to its vertex n leave its first vertex and end in the last
proof fn lemma_degree_path<T: Float>(s: Seq<Coordinate<T>>, n: int, first: bool, ty: OpType, p: Spot)
    requires
        0 <= n < s.len(),
    ensures
        degree(edges_to(s, n, first, ty), p) == if (at(s[0]) == p) != (at(s[n]) == p) {
            one(first)
        } else {
            outside()
        },
    decreases n,
{
    if n > 0 {
        lemma_degree_path(s, n - 1, first, ty, p);
        let (e, g) = (edges_to(s, n - 1, first, ty), of_line(line_at(s, n - 1)));
        if g is Line {
            assert(e.push(fresh(g, first, ty)).drop_last() =~= e);
        }
    }
}

proof fn lemma_degree_ring<T: Float>(r: LineString<T>, first: bool, ty: OpType, p: Spot)
    requires
        closed(ats(r.0@)),
    ensures
        degree(ring_edges(r, first, ty), p) == outside(),
{
    let s = r.0@;
    if s.len() > 3 {
        lemma_degree_path(s, s.len() - 1, first, ty, p);
        let a = ats(s);
        assert(a.len() == s.len() && a[0] == at(s[0]) && a.last() == at(s.last()));
    }
}

proof fn lemma_degree_holes<T: Float>(h: Seq<LineString<T>>, n: int, first: bool, ty: OpType, p: Spot)
    requires
        0 <= n <= h.len(),
        forall|i: int| 0 <= i < h.len() ==> closed(ats((#[trigger] h[i]).0@)),
    ensures
        degree(holes_edges(h, n, first, ty), p) == outside(),
    decreases n,
{
    if n > 0 {
        lemma_degree_holes(h, n - 1, first, ty, p);
        lemma_degree_ring(h[n - 1], first, ty, p);
        lemma_degree_cat(holes_edges(h, n - 1, first, ty), ring_edges(h[n - 1], first, ty), p);
    }
}

proof fn lemma_degree_poly<T: Float>(g: Polygon<T>, first: bool, ty: OpType, p: Spot)
    requires
        poly_closed(g),
    ensures
        degree(poly_edges(g, first, ty), p) == outside(),
{
    lemma_degree_ring(g.ext, first, ty, p);
    lemma_degree_holes(g.ints@, g.ints@.len() as int, first, ty, p);
    lemma_degree_cat(ring_edges(g.ext, first, ty), holes_edges(g.ints@, g.ints@.len() as int, first, ty), p);
}

proof fn lemma_degree_multi<T: Float>(m: Seq<Polygon<T>>, n: int, first: bool, ty: OpType, p: Spot)
    requires
        0 <= n <= m.len(),
        forall|i: int| 0 <= i < m.len() ==> poly_closed(#[trigger] m[i]),
    ensures
        degree(multi_edges(m, n, first, ty), p) == outside(),
    decreases n,
{
    if n > 0 {
        lemma_degree_multi(m, n - 1, first, ty, p);
        lemma_degree_poly(m[n - 1], first, ty, p);
        lemma_degree_cat(multi_edges(m, n - 1, first, ty), poly_edges(m[n - 1], first, ty), p);
    }
}

// ---- bops.rs ----
spec fn poly_inputs<T: Float>(a: Polygon<T>, b: Polygon<T>, ty: OpType) -> Seq<Edge<T>> {
    poly_edges(a, true, ty) + poly_edges(b, false, ty)
}

spec fn multi_inputs<T: Float>(a: MultiPolygon<T>, b: MultiPolygon<T>, ty: OpType) -> Seq<Edge<T>> {
    multi_edges(a.0@, a.0@.len() as int, true, ty) + multi_edges(b.0@, b.0@.len() as int, false, ty)
}
