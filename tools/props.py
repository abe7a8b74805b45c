"""What decides each property: contract units (with the functions that count), searches, level, texts."""
SPLAY_C02 = r"IntoIter|into_iter|clear|drop"
PROPS = {
    "C01": dict(
        units=[("splay", r"^(?!IntoIter|SplayWrap)")], searches=["map"], level="proof",
        explanation="Every public operation of the sorted map and set is verified against its contract over the abstract sequence of entries (unit splay), `extend` included: its `for` over a generic IntoIterator is taken over a model iterator, a finite sequence of items pulled in order until it is exhausted.",
        assumptions=["the comparator is a total order whose outcome depends only on its arguments", "UnsafeCell access through root_ref/root_mut is exclusive (single-threaded, no re-entrancy from the comparator)", "the iterator given to `extend` is finite, and `for` pulls its items one by one in order (trait Items)"],
        trusted=["extraction drops attributes, visibility, log macros, and the UnsafeCell wrapper of the root (shared-reference splaying becomes &mut self)"],
    ),
    "C02": dict(
        units=[("splay", SPLAY_C02)], searches=["consume"], level="proof",
        explanation="IntoIter::next, next_back, size_hint, drop and the tree's into_iter, clear and drop are verified: each entry is yielded once, in order, from either end, the hint is exact, and the work is done by loops (no recursion), for any size.",
        assumptions=["dropping a node without children does not recurse (Box drop glue)"],
        trusted=["extraction drops attributes, visibility and the UnsafeCell wrapper of the root"],
    ),
}
GEO = ["scalars are finite and compare as the reals they hold (no NaN)", "the kernel's orientation test is exact (robust predicates for floats; no overflow for integers)"]
GEO_TRUST = ["extraction drops attributes and visibility; closures passed to Option/Ordering combinators are written out; `T::Ker::orient2d` becomes a free function; trait impls PartialEq/PartialOrd of LineOrPoint become inherent functions"]
PROPS.update({
    "C04": dict(
        units=[("geom", r"^SweepPoint")], searches=["order"], level="proof",
        explanation="SweepPoint::partial_cmp and cmp are verified to be the lexicographic order of the plane for every scalar that compares as a real; totality, antisymmetry and transitivity are lemmas over that contract, the operators are checked against it, and both conversions and coord() are verified to keep the coordinate.",
        assumptions=GEO + ["the derived PartialEq of SweepPoint compares both components (the derive is checked to be there)"], trusted=GEO_TRUST),
    "C05": dict(
        units=[("geom", r"^LineOrPoint::(from|is_line|line|first|second)")], searches=["normal"], level="proof",
        explanation="Both conversions and the accessors are verified against `of_line` (the two ends, sorted; a point exactly if they are equal); lemma_normal derives the property.",
        assumptions=GEO, trusted=GEO_TRUST),
    "C06": dict(
        units=[("geom", r"^(LineOrPoint::(partial_cmp|eq)|orientation_as_ordering)")], searches=["vertical"], level="proof",
        explanation="partial_cmp and eq are verified against `lop_cmp` (sides of the later left end, then of the other end) with termination; lemma_order gives antisymmetry and equality exactly on collinear lines, lemma_height and lemma_height_after show that those sides are the order of the heights at the later left end and after it, over the reals.",
        assumptions=GEO, trusted=GEO_TRUST),
    "C07": dict(
        units=[("geom", r"^LineOrPoint::intersect_line")], searches=["isect"], level="proof",
        explanation="intersect_line and intersect_line_ordered are verified, including that their debug assertions cannot fire, against the set of common points (segments as sets of points over the reals), given the assumed contract of geo's line_intersection; the point-on-line case rests on lemma_on_seg. That a point in place of the line is refused, and the accuracy of computed crossings, are covered by the bounded search.",
        assumptions=GEO + ["geo::line_intersection returns nothing exactly for disjoint segments, the exact point or overlap for improper ones, and never a point left of a left end", "float_next_after steps to the next representable value"], trusted=GEO_TRUST),
})

REAL = ["scalars are finite and their arithmetic is that of the reals (no rounding, no overflow)"]
MONO_TRUST = ["extraction drops attributes and visibility; `windows(2).chain(..)` becomes two index loops, an iterator returned by from_fn becomes its step function (a `for` over it a loop calling the step), a callback a vector that records its arguments", "contracts assumed for geo-types (Polygon::new, Rect::new, LineString::is_closed), Vec::extend(drain(..)) and slice reverse"]
PROPS.update({
    "C17": dict(
        units=[("mono", r"^MonoPoly::(?!scan_lines)")], searches=["monopoly"], level="proof",
        explanation="MonoPoly::new is verified twice: it keeps two proper chains unchanged without a failing assertion, and (taking its assertions as refusals) whatever it returns has two strictly increasing chains with common ends. bounding_rect, into_ls_pair, into_polygon and the accessors are verified against the chains.",
        assumptions=REAL + ["bounding_rect is asked of a polygon with an extent in both directions"], trusted=MONO_TRUST),
    "C18": dict(
        units=[("mono", r"^(Scanner|MonoPoly::(scan_lines|top|bot)|Trapz)")], searches=["scanner"], level="proof",
        explanation="peek_next, advance_next, advance_to, advance_upto, scan_lines and Scanner::new are verified, with termination and free of panics, against the chains: trapezoids are contiguous, have a width, run along one piece of each chain and end at the next vertex or the target. lemma_same shows that such a sequence is unique (so pulling and pushing agree), lemma_target where the cursor stands.",
        assumptions=REAL, trusted=MONO_TRUST + ["the transmute of a lifetime in advance_to"]),
    "C19": dict(
        units=[("raster", r"^(Scanner|Trapz|MonoPoly::(new|scan_lines|top|bot))")], searches=["raster"], level="proof",
        explanation="cross_area, cross_bounds and cross_ubounds are verified over the trapezoids of the column: each row receives the areas of the parts of those trapezoids between its boundaries (each cut along its own sides, seen from the side) and nothing else; the bounds are the rows of the extreme heights, clipped to the window, and the inner bounds the extremes of the inner sides. They are panic-free.",
        assumptions=REAL + ["the upper chain of the polygon is nowhere below the lower one; its heights are below the scalar's infinity", "the window has at least one row and a height"], trusted=MONO_TRUST + ["contracts assumed for num_traits (floor, to_usize, from, zero, one, infinity)"]),
})


def _search_only(pid, searches, expl, assumptions=(), **kw):
    PROPS[pid] = dict(units=[], searches=searches, level="other", explanation=expl, assumptions=list(assumptions), **kw)

EXACT = ["pairwise intersections are exactly representable", "the standard containers (slab, BinaryHeap) behave as their contracts say"]
# the ordered sets of active pieces
ACTIVE = [("splay", r"^SplayWrap"), ("bset", r"^BTreeSet::"), ("order", r"^(Active|Segment)::")]
SWEEP_TRUST = ["extraction drops attributes, visibility, trace! calls and the Box around the slab; the raw pointer of Active is a reference; `clone()` of generic values is the model `dup()`; closures passed to Option combinators are written out"]
PROPS.update({
    "C10": dict(
        units=[("sweep", r"^(Event|SweepPoint|Sweep::|Segment::|Crossing|CrossingsIter::)")] + ACTIVE, searches=["points"], level="other",
        explanation="Proved: the order of events; creation, splitting and chaining of pieces; that the ordered sets of active pieces (SplayWrap over the splay set, and BTreeSet) yield the nearest piece below or above and gain and lose exactly the piece asked for; that handling any event (and so next_event and the iterator's next) keeps the sweep's invariant - every active piece has an announced end, every announcement is of a piece and lies ahead - that the point yielded is the first one announced, that everything still announced afterwards lies strictly after it (strictly increasing order), and that no assertion of the sweep can fail. Collecting announces both ends of every input and nothing else; every place where something is due is kept until it is yielded, so each end point is yielded, exactly once, and the iterator ends only when nothing is announced any more (and stays ended). Two facts about each computed crossing are assumed where they are used: it lies on both pieces exactly (the property's precondition), and pieces that become neighbours do not cross in what the sweep has passed (sweep-status order). Bounded: that no crossing is missed, that nothing but ends and crossings is yielded, and that the sweep terminates, by exhaustive and random search on the real crate against a brute-force oracle.",
        assumptions=EXACT + GEO + ["pieces that become neighbours meet only ahead of the sweep (assumed at the three calls of adjust)", "the pieces in the active set are totally ordered and keep their order while they are in it (proved: Active::cmp is that of the pieces it stands for, by height and then by key, antisymmetric, defined for any two lines present at one place, and equal only for a piece and itself; assumed: that it is transitive and does not change. What SplayWrap and BTreeSet do with it is proved from the contracts of the splay set and of BTreeSet)", "16 times the number of inputs fits in usize"], trusted=GEO_TRUST + SWEEP_TRUST),
    "C11": dict(
        units=[("sweep", r"^(Segment::|Sweep::|Crossing|CrossingsIter::)")] + ACTIVE, searches=["pieces"], level="other",
        explanation="Proved: every record of a yielded point is a part of its input that starts or ends at that point, an input that is a point only starts there; a record with the overlap flag is followed by the same piece of another input on the same side; a split keeps the parts inside their input, joined end to end, for the piece and every piece that runs over it; what is cut off goes on in one piece or two up to where the piece ended, each with the same input and the same chain of inputs running over it; a chain is lengthened by the chain put behind it and loses none of its pieces. Bounded: that the records at every yielded point account for all of the inputs through it, each once.",
        assumptions=EXACT + GEO + ["pieces that become neighbours meet only ahead of the sweep (assumed at the three calls of adjust)"], trusted=GEO_TRUST + SWEEP_TRUST),
    "C12": dict(
        units=[("sweep", r"^(Segment::|Sweep::|Crossing|CrossingsIter::|Intersections::)")] + ACTIVE, searches=["intersections"], level="other",
        explanation="Proved: step enumerates the pairs of records of each point in order, each once, and keeps the overlap flag true exactly for records joined by overlap; the filter is the stated one; both inputs of a reported pair have a piece at the point, so they meet, line_intersection returns something (the expect cannot fail) and what is reported is their exact common point or overlap. Bounded: that every intersecting pair is reported.",
        assumptions=EXACT + GEO + ["pieces that become neighbours meet only ahead of the sweep (assumed at the three calls of adjust)"], trusted=GEO_TRUST + SWEEP_TRUST),
})
BOPS_TRUST = ["extraction drops attributes, visibility, log macros; `clone()` is the model `dup()`; the Cells of an edge belong to it (set_region takes &mut self); `drain(k..).inspect(f).collect()` becomes the drain and a loop over what it took; iterators over deques, lines and rings become index loops", "CrossingsIter is the model Feed (its record list, next and prev_active by contract), in assemble the model Rounds, `crossable` an index into the edges, LineOrPoint::from(piece) the piece itself", "contracts assumed for sort_unstable_by and sort_by with a total order (proved of both compare_crossings), `vec![v; n]`, filter_map of Options, Polygon::{new, interiors_push}, coords_count (at most usize::MAX / 2), VecDeque, BTreeMap keyed by points, LineString::{close, lines, winding_order}"]
PROPS.update({
    "C14": dict(
        units=[("bops", r"^(Region|Edge|Op|Rings|Ring|Chain|Polygon|MultiPolygon)::|^winding_inverse|^assemble|^compare_crossings|\(BooleanOp\)")], searches=["region"], level="other",
        explanation="Proved: a region is in the result exactly if the set operation wants its points, also for a difference, whose second operand is inverted; crossing an edge toggles its operand; each side of an edge keeps what was stored for it; the edges swept are the lines with a length of all rings with more than three coordinates, what is left out has each edge twice, and at every point an even number of edges of each operand end, as rings are closed. Op::sweep, for any number of edges, overlaps included: every active edge has on record on which sides of both operands one is just above it, counted through all bundles of overlapping pieces below; the rings it returns consist of exactly the pieces above which membership in the result is another than below them, each once, with the result on the stated side; they are closed and proper; no unwrap or assertion on the way can fail. Assumed there (Feed): the records CrossingsIter gives for each point are those of the pieces that end and start there, bundles that overlap compare equal, active bundles are kept bottom to top, and prev_active is the topmost one below (C10, C11; its sort order is proved total here). assemble, for rings that neither cross nor overlap: every ring that is no hole is the exterior of exactly one polygon, every hole is in exactly one, that of the exterior it belongs to (the active edges bound polygons two by two; assumed of the model Rounds), nothing else is there, and no unwrap, index or assertion can fail. boolean_op of Polygon and MultiPolygon and intersection, union, xor and difference compose these contracts for their operation. Assumed besides: rings that are the boundary of a region nest (lemma_nest). Bounded: these assumptions, by exhaustive and random search on the real crate against point membership.",
        assumptions=EXACT + GEO + ["rings that are the boundary of a region nest: each hole lies in one exterior, which is met before it", "rings are closed, as geo_types keeps them", "CrossingsIter reports, per point, the pieces that end and start there, and keeps the active ones in order (Feed)"], trusted=GEO_TRUST + BOPS_TRUST),
    "C15": dict(
        units=[("bops", r"^(Rings|Ring|Chain|Polygon|MultiPolygon)::|^winding_inverse|^Op::sweep|^Op::compare|^assemble|^compare_crossings|\(BooleanOp\)")], searches=["rings"], level="other",
        explanation="Proved: chains of edges stay joined head to tail, and at every point the free ends are all heads or all tails, as many as the edges added call for; when none is left, finish returns rings that are closed, have three vertices or more, visit none twice, turn at their first vertex (so a winding order exists and no unwrap or assertion fails), consist of exactly the edges added, each once, and are holes exactly if they run against the label of their edges; it terminates. That the edges added are balanced at every point is proved of its caller, Op::sweep (from its contract for CrossingsIter, see C14); that they meet at most in ends is assumed of CrossingsIter (Feed) and covered by the bounded search. assemble puts every exterior in exactly one polygon, with exactly the holes that belong to it: a hole is given the exterior that bounds the polygon below its first lower edge, provided the active edges bound polygons two by two (Rounds, a model of CrossingsIter over edges that neither cross nor overlap). Bounded: that holes lie in their exterior and polygons do not overlap.",
        assumptions=EXACT + GEO + ["the pieces CrossingsIter reports to Op::sweep meet at most in ends, once overlapping ones are bundled (Feed)"], trusted=GEO_TRUST + BOPS_TRUST),
})
PROPS["C16"] = dict(
    units=[("decomp", r"^(Event|SweepPoint|Sweep::|Segment::|Helper::|Chain::|LineString::from|MonoPoly::new|monotone_chains|winding_)"), ("bset", r"^BTreeSet::"), ("order", r"^(Active|Segment)::")], searches=["decomposition"], level="other",
    explanation="Proved for every polygon and any number of vertices: monotone/sweep.rs keeps its events balanced and in order; each event it yields names the edges that end and start there and the chains to draw, split or merge (process_event against `told`); monotone_chains terminates, its index accesses and the assertions that tie links and chains to the event cannot fail (those that count the chains at a vertex, and expects on neighbours, are taken as refusals), each piece has two strictly increasing chains with common ends, and the boundaries of the pieces, taken with their directions, add up to exactly the boundary of the polygon with its inside on the stated side: every edge of the polygon is in one piece more on its inner side than on its outer side, and every other edge drawn cancels. So pieces with the upper chain above the lower cover each point of the interior exactly once and no other. Bounded: that the upper chain is strictly above the lower one (the order of the active edges is assumed nowhere and not proved), that chain vertices are those of the polygon, and that valid polygons are not refused, by exhaustive and random search on the real crate against exact areas and point membership.",
    assumptions=GEO + ["an input that is refused (expect on the neighbour below, an open ring, three points or fewer, more than two edges at a point, collinear spikes) is not a valid polygon: that valid ones are not refused is covered by the bounded search only", "geo's winding_order tells the side of the ring its inside is on"],
    trusted=GEO_TRUST + ["extraction drops attributes, visibility, debug!/info! calls, Pin and Box around the sweep (projections become field accesses); the closures handle_remove, handle_insert and fix_up are written out at their calls; iterator chains over chains, rings and lines become index loops; SmallVec is Vec", "contracts assumed for slab::Slab, the ordered set of active edges (next_key yields a key of the set, insertions and removals change the key only), sort_unstable, Polygon and LineString accessors (is_closed, winding_order, coords_count)"])

NOT_APPLICABLE = {}
