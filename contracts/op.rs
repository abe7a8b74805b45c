// ---- op.rs -----------------------------------------------------------------------------------
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ enum OpType derives=Clone,Copy
enum OpType {
    Intersection,
    Union,
    Difference,
    Xor,
}
//@@ end

// the set operations
spec fn wanted(ty: OpType, a: bool, b: bool) -> bool {
    match ty {
        OpType::Intersection => a && b,
        OpType::Union => a || b,
        OpType::Difference => a && !b,
        OpType::Xor => a != b,
    }
}

#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
//@@ struct Region derives=Clone,Copy
struct Region {
    is_first: bool,
    is_second: bool,
}
//@@ end

// the points inside a and b of the two operands (of a difference, the second is taken inverted)
spec fn region(ty: OpType, a: bool, b: bool) -> Region {
    Region { is_first: a, is_second: b != (ty is Difference) }
}

spec fn crossed(r: Region, first: bool) -> Region {
    if first {
        Region { is_first: !r.is_first, is_second: r.is_second }
    } else {
        Region { is_first: r.is_first, is_second: !r.is_second }
    }
}

spec fn in_ty(r: Region, ty: OpType) -> bool {
    match ty {
        OpType::Intersection | OpType::Difference => r.is_first && r.is_second,
        OpType::Union => r.is_first || r.is_second,
        OpType::Xor => r.is_first != r.is_second,
    }
}

// C14: a region is in the result exactly if the operation wants its points
proof fn lemma_region(ty: OpType, a: bool, b: bool)
    ensures
        in_ty(region(ty, a, b), ty) == wanted(ty, a, b),
        crossed(region(ty, a, b), true) == region(ty, !a, b),
        crossed(region(ty, a, b), false) == region(ty, a, !b),
{
}

impl Region {
//@@ fn infinity self=Region
    fn infinity(ty: OpType) -> (ret: Self) /*@ ensures ret == region(ty, false, false), @*/ {
        Region {
            is_first: false,
            is_second: (match ty { OpType::Difference => true, _ => false }),
        }
    }
//@@ end
//@@ fn cross self=Region
    fn cross(&mut self, first: bool) /*@ ensures *final(self) == crossed(*old(self), first), @*/ {
        if first {
            self.is_first = !self.is_first;
        } else {
            self.is_second = !self.is_second;
        }
    }
//@@ end
//@@ fn is_ty self=Region
    fn is_ty(&self, ty: OpType) -> (ret: bool) /*@ ensures ret == in_ty(*self, ty), @*/ {
        match ty {
            OpType::Intersection | OpType::Difference => self.is_first && self.is_second,
            OpType::Union => self.is_first || self.is_second,
            OpType::Xor => self.is_first ^ self.is_second,
        }
    }
//@@ end
}

// assumed: Cell, whose content here belongs to its owner
struct Cell<V> {
    v: V,
}

impl<V: Copy> Cell<V> {
    fn get(&self) -> (r: V)
        ensures
            r == self.v,
    {
        self.v
    }

    fn set(&mut self, v: V)
        ensures
            final(self).v == v,
    {
        self.v = v;
    }
}

impl<V> FromSpecImpl<V> for Cell<V> {
    closed spec fn obeys_from_spec() -> bool {
        true
    }

    closed spec fn from_spec(v: V) -> Self {
        Cell { v }
    }
}

impl<V> From<V> for Cell<V> {
    fn from(v: V) -> (r: Self) {
        Cell { v }
    }
}

//@@ struct Edge file=src/bops/op.rs
struct Edge<T: Float> {
    geom: LineOrPoint<T>,
    is_first: bool,
    _region: Cell<Region>,
    _region_2: Cell<Region>,
}
//@@ end

// pieces that start at the far end of the edge or after it use the second cell
spec fn beyond<T: Float>(e: Edge<T>, piece: LineOrPoint<T>) -> bool {
    lex(fst(piece), snd(e.geom)) != Ordering::Less
}

spec fn stored<T: Float>(e: Edge<T>, piece: LineOrPoint<T>) -> Region {
    if beyond(e, piece) {
        e._region_2.v
    } else {
        e._region.v
    }
}

impl<T: Float> Edge<T> {
//@@ fn get_region self=Edge file=src/bops/op.rs
    fn get_region(&self, piece: LineOrPoint<T>) -> (ret: Region) /*@ ensures ret == stored(*self, piece), @*/ {
        if piece.first() < self.geom.second() {
            self._region.get()
        } else {
            self._region_2.get()
        }
    }
//@@ end
//@@ fn set_region self=Edge file=src/bops/op.rs
//@@ sub `( & self ,` => `( & mut self ,`
    fn set_region(&mut self, region: Region, piece: LineOrPoint<T>) /*@
        ensures
            final(self).geom == old(self).geom && final(self).is_first == old(self).is_first,
            stored(*final(self), piece) == region,
            forall|p: LineOrPoint<T>| beyond(*old(self), p) != beyond(*old(self), piece) ==> #[trigger] stored(*final(self), p) == stored(*old(self), p),
    @*/ {
        if piece.first() < self.geom.second() {
            self._region.set(region);
        } else {
            self._region_2.set(region);
        }
    }
//@@ end
}

//@@ struct Op
struct Op<T: Float> {
    ty: OpType,
    edges: Vec<Edge<T>>,
}
//@@ end

// ---- assumed: geo types ----
struct Polygon<T: GeoNum> {
    ext: LineString<T>,
    ints: Vec<LineString<T>>,
}

struct MultiPolygon<T: GeoNum>(Vec<Polygon<T>>);

spec fn line_at<T: GeoNum>(s: Seq<Coordinate<T>>, i: int) -> Line<T> {
    Line { start: s[i], end: s[i + 1] }
}

impl<T: GeoNum> LineString<T> {
    // assumed: geo_types::LineString::is_closed
    #[verifier::external_body]
    fn is_closed(&self) -> (r: bool)
        ensures
            r == closed(ats(self.0@)),
    {
        unimplemented!()
    }

    // assumed: geo::CoordsIter::coords_count
    #[verifier::external_body]
    fn coords_count(&self) -> (r: usize)
        ensures
            r == self.0@.len(),
    {
        unimplemented!()
    }

    // assumed: geo_types::LineString::lines, collected
    #[verifier::external_body]
    fn lines(&self) -> (r: Vec<Line<T>>)
        ensures
            r@.len() == if self.0@.len() == 0 {
                0
            } else {
                self.0@.len() - 1
            },
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == line_at(self.0@, i),
    {
        unimplemented!()
    }
}

impl<T: GeoNum> Polygon<T> {
    // assumed: geo_types::Polygon::{exterior, interiors}
    fn exterior(&self) -> (r: &LineString<T>)
        ensures
            *r == self.ext,
    {
        &self.ext
    }

    fn interiors(&self) -> (r: &Vec<LineString<T>>)
        ensures
            *r == self.ints,
    {
        &self.ints
    }
}

// the edges of a ring up to its vertex n: its lines that have a length
spec fn edges_to<T: Float>(s: Seq<Coordinate<T>>, n: int, first: bool, ty: OpType) -> Seq<Edge<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        let e = edges_to(s, n - 1, first, ty);
        let g = of_line(line_at(s, n - 1));
        if g is Line {
            e.push(fresh(g, first, ty))
        } else {
            e
        }
    }
}

spec fn fresh<T: Float>(g: LineOrPoint<T>, first: bool, ty: OpType) -> Edge<T> {
    let r = Cell { v: region(ty, false, false) };
    Edge { geom: g, is_first: first, _region: r, _region_2: r }
}

// a ring of at most three coordinates encloses nothing and is left out
spec fn ring_edges<T: Float>(r: LineString<T>, first: bool, ty: OpType) -> Seq<Edge<T>> {
    if r.0@.len() <= 3 {
        Seq::empty()
    } else {
        edges_to(r.0@, r.0@.len() - 1, first, ty)
    }
}

spec fn holes_edges<T: Float>(h: Seq<LineString<T>>, n: int, first: bool, ty: OpType) -> Seq<Edge<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        holes_edges(h, n - 1, first, ty) + ring_edges(h[n - 1], first, ty)
    }
}

spec fn poly_edges<T: Float>(p: Polygon<T>, first: bool, ty: OpType) -> Seq<Edge<T>> {
    ring_edges(p.ext, first, ty) + holes_edges(p.ints@, p.ints@.len() as int, first, ty)
}

spec fn multi_edges<T: Float>(m: Seq<Polygon<T>>, n: int, first: bool, ty: OpType) -> Seq<Edge<T>>
    decreases n,
{
    if n <= 0 {
        Seq::empty()
    } else {
        multi_edges(m, n - 1, first, ty) + poly_edges(m[n - 1], first, ty)
    }
}

// as geo_types keeps them
spec fn poly_closed<T: GeoNum>(p: Polygon<T>) -> bool {
    &&& closed(ats(p.ext.0@))
    &&& forall|i: int| 0 <= i < p.ints@.len() ==> closed(ats((#[trigger] p.ints@[i]).0@))
}

spec fn seg<T: GeoNum>(g: LineOrPoint<T>) -> (Spot, Spot) {
    (pt(fst(g)), pt(snd(g)))
}

// such a ring has no edges, or the same one twice
proof fn lemma_few<T: Float>(s: Seq<Coordinate<T>>, first: bool, ty: OpType)
    requires
        closed(ats(s)),
        s.len() <= 3,
    ensures
        ({
            let e = edges_to(s, s.len() - 1, first, ty);
            e.len() == 0 || e.len() == 2 && seg(e[0].geom) == seg(e[1].geom)
        }),
{
    reveal_with_fuel(edges_to, 4);
    if s.len() > 0 {
        let a = ats(s);
        assert(a.len() == s.len());
        assert(a[0] == at(s[0]) && a.last() == at(s.last()));
        if s.len() == 3 {
            let (e0, e1) = (of_line(line_at(s, 0)), of_line(line_at(s, 1)));
            assert(e0 is Line <==> at(s[0]) != at(s[1]));
            assert(e1 is Line <==> at(s[1]) != at(s[2]));
        }
    }
}

// every edge is a line, with nothing known on its sides
spec fn edges_ok<T: Float>(e: Seq<Edge<T>>) -> bool {
    forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).geom is Line && lop_wf(e[i].geom)
}

impl<T: Float> Op<T> {
//@@ fn new self=Op
    fn new(ty: OpType, capacity: usize) -> (ret: Self) /*@ ensures ret.ty == ty && ret.edges@.len() == 0, @*/ {
        Op {
            ty,
            edges: Vec::with_capacity(capacity),
        }
    }
//@@ end
//@@ fn add_closed_ring self=Op
//@@ sub `for line in ring . lines ( ) { $*b }` => `let all = ring . lines ( ) ; let mut i = 0 ; while i < all . len ( ) { let line = all [ i ] ; i += 1 ; $*b }`
    fn add_closed_ring(&mut self, ring: &LineString<T>, is_first: bool, _is_hole: bool) /*@
        requires
            closed(ats(ring.0@)),
        ensures
            final(self).ty == old(self).ty,
            final(self).edges@ == old(self).edges@ + ring_edges(*ring, is_first, old(self).ty),
    @*/ {
        /*@ let ghost (e0, s, ty) = (self.edges@, ring.0@, self.ty); @*/
        rt_assert(ring.is_closed());
        if ring.coords_count() <= 3 {
            /*@ proof {
                assert(self.edges@ =~= e0 + ring_edges(*ring, is_first, ty));
            } @*/
            return;
        }
        let all = ring . lines ( );
        let mut i = 0;
        /*@ proof {
            assert(self.edges@ =~= e0 + edges_to(s, 0, is_first, ty));
        } @*/
        while i < all . len ( )
        /*@
            invariant
                i <= all@.len(),
                all@.len() == s.len() - 1,
                forall|k: int| 0 <= k < all@.len() ==> #[trigger] all@[k] == line_at(s, k),
                self.ty == ty,
                self.edges@ == e0 + edges_to(s, i as int, is_first, ty),
            decreases all@.len() - i,
        @*/
        {
            let line = all [ i ];
            /*@ let ghost e1 = self.edges@; @*/
            i += 1;
            let lp: LineOrPoint<_> = line.into();
            if !lp.is_line() {
                continue;
            }
            let region = Region::infinity(self.ty);
            self.edges.push(Edge {
                geom: lp,
                is_first,
                _region: region.into(),
                _region_2: region.into(),
            });
            /*@ proof {
                assert(self.edges@ =~= e1.push(fresh(lp, is_first, ty)));
                assert(self.edges@ =~= e0 + edges_to(s, i as int, is_first, ty));
            } @*/
        }
    }
//@@ end
//@@ fn add_polygon self=Op
//@@ sub `for hole in poly . interiors ( ) { $*b }` => `let all = poly . interiors ( ) ; let mut i = 0 ; while i < all . len ( ) { let hole = & all [ i ] ; $*b i += 1 ; }`
    fn add_polygon(&mut self, poly: &Polygon<T>, is_first: bool) /*@
        requires
            poly_closed(*poly),
        ensures
            final(self).ty == old(self).ty,
            final(self).edges@ == old(self).edges@ + poly_edges(*poly, is_first, old(self).ty),
    @*/ {
        /*@ let ghost (e0, ty) = (self.edges@, self.ty); @*/
        self.add_closed_ring(poly.exterior(), is_first, false);
        /*@ let ghost e1 = self.edges@;
        let ghost h = poly.ints@; @*/
        let all = poly . interiors ( );
        let mut i = 0;
        /*@ proof {
            assert(self.edges@ =~= e1 + holes_edges(h, 0, is_first, ty));
        } @*/
        while i < all . len ( )
        /*@
            invariant
                i <= all@.len(),
                all@ == h,
                h == poly.ints@ && poly_closed(*poly),
                self.ty == ty,
                self.edges@ == e1 + holes_edges(h, i as int, is_first, ty),
            decreases all@.len() - i,
        @*/
        {
            let hole = & all [ i ];
            /*@ let ghost e2 = self.edges@; @*/
            self.add_closed_ring(hole, is_first, true);
            i += 1;
            /*@ proof {
                assert(self.edges@ =~= e1 + holes_edges(h, i as int, is_first, ty));
            } @*/
        }
        /*@ proof {
            assert(self.edges@ =~= e0 + poly_edges(*poly, is_first, ty));
        } @*/
    }
//@@ end
//@@ fn add_multi_polygon self=Op
//@@ sub `mp . 0 . iter ( ) . for_each ( | p | $*b ) ;` => `let all = & mp . 0 ; let mut i = 0 ; while i < all . len ( ) { let p = & all [ i ] ; $*b ; i += 1 ; }`
    fn add_multi_polygon(&mut self, mp: &MultiPolygon<T>, is_first: bool) /*@
        requires
            forall|i: int| 0 <= i < mp.0@.len() ==> poly_closed(#[trigger] mp.0@[i]),
        ensures
            final(self).ty == old(self).ty,
            final(self).edges@ == old(self).edges@ + multi_edges(mp.0@, mp.0@.len() as int, is_first, old(self).ty),
    @*/ {
        /*@ let ghost (e0, ty) = (self.edges@, self.ty); @*/
        let all = & mp . 0;
        let mut i = 0;
        /*@ proof {
            assert(self.edges@ =~= e0 + multi_edges(mp.0@, 0, is_first, ty));
        } @*/
        while i < all . len ( )
        /*@
            invariant
                i <= all@.len(),
                all@ == mp.0@,
                forall|i: int| 0 <= i < mp.0@.len() ==> poly_closed(#[trigger] mp.0@[i]),
                self.ty == ty,
                self.edges@ == e0 + multi_edges(mp.0@, i as int, is_first, ty),
            decreases all@.len() - i,
        @*/
        {
            let p = & all [ i ];
            self.add_polygon(p, is_first);
            i += 1;
            /*@ proof {
                assert(self.edges@ =~= e0 + multi_edges(mp.0@, i as int, is_first, ty));
            } @*/
        }
    }
//@@ end
}
