#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop("C01", "The sorted map and set behave as an ordinary sorted map for every history",
     "For every total order given as the comparator and every sequence of operations (insert, remove, get, get_mut, contains, find_key, indexing, next, prev, min, max, clear, extend, len, is_empty), each result equals that of a mathematical sorted map: insert replaces the value of an equal key and returns the old one, remove returns what was stored, next and prev give the strict neighbours of any probe whether stored or not, and the length is the number of entries. No operation loses, duplicates, reorders or alters any other entry, and indexing panics exactly for absent keys. The set offers the same for its members.",
     ["histories", "inputs"], "every finite operation sequence, every key/value type, every total-order comparator (including ones that equate distinct keys)",
     "tests run a few fixed or random histories over small integers; the tree rebalances on every access, so the shape reached by a history is unbounded",
     ["src/splay/tree.rs", "src/splay/set.rs", "src/splay/node.rs"],
     [("top-down splay to the searched key before every operation", "src/splay/tree.rs fn splay"), ("insert splits the splayed tree around the new key", "src/splay/tree.rs SplayTree::insert"), ("remove joins the two sides", "src/splay/tree.rs SplayTree::remove"), ("neighbour queries walk from the root", "src/splay/tree.rs SplayTree::next, SplayTree::prev")],
     [("root", "the binary search tree", "src/splay/tree.rs SplayTree"), ("size", "number of entries", "src/splay/tree.rs SplayTree")],
     ["return values of the public operations"])
prop("C02", "Consuming iteration yields every entry once, in order, from either end",
     "Turning a sorted map into an iterator yields every entry exactly once, ascending from the front and descending from the back under any interleaving of the two, and the reported remaining length is always exact. Entries not consumed, cleared or removed are dropped exactly once. This holds for collections of any size and any insertion order: consuming, clearing and dropping never need stack space that grows with the number of entries.",
     ["histories", "inputs"], "every tree reachable by operations, every interleaving of front and back consumption, every size",
     "tests iterate trees of a handful of entries from one end; degenerate (list-shaped) trees and mixed ends are not sampled",
     ["src/splay/tree.rs", "src/splay/node.rs"],
     [("iterator rotates the tree while it descends, without a stack", "src/splay/tree.rs IntoIter::next, IntoIter::next_back"), ("clear and drop go through the iterator", "src/splay/tree.rs clear, Drop")],
     [("cur", "what is left of the tree", "src/splay/tree.rs IntoIter"), ("remaining", "entries left", "src/splay/tree.rs IntoIter")], ["items yielded, size_hint, values dropped"])
prop("C04", "Sweep points are totally ordered, first by x and then by y",
     "For all points with finite coordinates of any supported scalar type, comparison is the lexicographic order by x and then y: total, antisymmetric, transitive, consistent between all comparison operators and equality, and panic-free. Conversion from a coordinate or a pair keeps the coordinate unchanged.",
     ["inputs"], "every pair and triple of finite points, floats and integers", "one test compares four points",
     ["src/events.rs"], [("lexicographic comparison", "src/events.rs SweepPoint::partial_cmp"), ("total comparison derived from it", "src/events.rs SweepPoint::cmp")], (), ["cmp, partial_cmp, ==, <, sort"])
prop("C05", "Every segment is normalised to an ordered line or a point",
     "Converting a segment given by any two end points yields a point exactly when they are equal, and otherwise a line whose first end precedes its second in the sweep order; the two ends are kept unchanged as a set. The accessors (is it a line, the line, its far end) agree with that, and converting the result again changes nothing.",
     ["inputs"], "every pair of end points, in both directions, every scalar type", "tests convert a handful of literals",
     ["src/line_or_point.rs"], [("end points compared on conversion", "src/line_or_point.rs From<Line>"), ("accessors", "src/line_or_point.rs is_line, line, first, second")], (), ["LineOrPoint values and accessors"])
prop("C06", "Segments that share a sweep position are ordered by height",
     "For two segments whose left ends both precede both right ends and which do not cross in between, the comparison says which one lies below the other where both exist: by height at the later left end and, if they touch there, by where they go afterwards; it says equal exactly if they are collinear there, and it is antisymmetric. A point is compared with a line only if it lies within the line's span, and a point on the line counts as below it counted from the line's side (the line compares greater); two points compare equal exactly if they coincide and are otherwise unordered.",
     ["inputs"], "every pair of normalised segments or points in the stated position, every scalar type with an exact orientation test", "the order is exercised only indirectly through a few sweeps",
     ["src/line_or_point.rs"], [("orientation tests of the later segment's ends against the earlier segment", "src/line_or_point.rs LineOrPoint::partial_cmp"), ("orientation to ordering", "src/line_or_point.rs orientation_as_ordering")], (), ["partial_cmp, ==, <, >"])
prop("C07", "Intersecting with a line gives exactly the common point or overlap",
     "Intersecting a segment or point with a line gives nothing exactly if they have no common point, a point if they have one, and the common part as an ordered line if they overlap; a result that is an end point or an overlap is exact, a computed crossing lies on both up to rounding. The ordered variant returns the same result, except that a computed point which rounding placed directly below or before a left end (same x, smaller y) is moved to the next representable x, so that it never precedes the left end of either line. Intersecting with a point in place of the line is refused.",
     ["inputs"], "every pair of segments with finite float coordinates", "tests intersect a few literals, none with rounding",
     ["src/line_or_point.rs"], [("point on line: orientation and span", "src/line_or_point.rs intersect_line"), ("rounded point moved after both left ends", "src/line_or_point.rs intersect_line_ordered")], (), ["intersect_line, intersect_line_ordered"])
prop("C10", "The crossings iterator yields exactly all end points and intersections, in order",
     "For every finite collection of segments and points whose pairwise intersections are exactly representable, the iterator yields each end point, intersection point and end of an overlap exactly once, in strictly increasing sweep order, and nothing else; it then ends and stays ended. It neither panics nor loops.",
     ["inputs"], "every collection of segments and points: any number meeting in a point, overlaps of any multiplicity, verticals, degenerate points, any order and direction of the input", "tests count yields for a few literal inputs",
     ["src/crossings.rs", "src/crossings/sweep.rs", "src/active.rs", "src/events.rs", "src/splay/tree.rs", "src/line_or_point.rs"],
     [("event heap ordered by point and kind", "src/events.rs Event::cmp"), ("neighbours tested on insertion and removal", "src/crossings/sweep.rs handle_event"), ("segments split at intersections", "src/crossings/sweep.rs adjust_for_intersection"), ("events of one point batched", "src/crossings.rs CrossingsIter::next")],
     [("segments", "pieces of the input", "src/crossings/sweep.rs Sweep"), ("events", "pending end points", "src/crossings/sweep.rs Sweep"), ("active_segments", "pieces crossing the sweep line, by height", "src/crossings/sweep.rs Sweep")], ["points yielded"])
prop("C11", "At each crossing the reported pieces account exactly for the inputs through it",
     "At every yielded point, each input that contains it is reported exactly once as ending there (unless it starts there) and exactly once as starting there (unless it ends there), and an input that is a point exactly once; no other input is reported. Every piece is part of its input, a piece that ends at the point has no other crossing inside, consecutive pieces of an input join up to the whole input, and the flag for overlapping is set only if the next record is the same piece of another input. The first-piece flag is set exactly on the piece that begins where its input begins.",
     ["inputs"], "every collection of segments and points with exactly representable intersections", "tests only print the pieces",
     ["src/crossings.rs", "src/crossings/sweep.rs"],
     [("splits keep the left part in place and create the rest", "src/crossings/sweep.rs Segment::adjust_for_intersection, adjust_one_segment"), ("overlapping pieces chained and copied on splits", "src/crossings/sweep.rs chain_overlap, create_segment"), ("stale right events skipped", "src/crossings/sweep.rs segment_for_event")],
     [("overlapping", "next piece over the same geometry", "src/crossings/sweep.rs Segment"), ("first_segment", "piece starts where its input starts", "src/crossings/sweep.rs Segment")], ["CrossingsIter::intersections after each yield"])
prop("C12", "The intersections iterator reports exactly the intersecting pairs",
     "For every finite collection of segments and points whose pairwise intersections are exactly representable, every pair of inputs that have a common point is reported at least once with its exact common point or overlap, and no pair that has none is ever reported, nor an input with itself. The inputs handed back are the ones given.",
     ["inputs"], "every collection of segments and points with exactly representable intersections, any overlap multiplicity", "two tests count pairs of literal inputs",
     ["src/crossings.rs", "src/crossings/sweep.rs"],
     [("pairs of records of a point enumerated once", "src/crossings.rs Intersections::step"), ("pairs filtered by first piece and side", "src/crossings.rs Intersections::intersection")],
     [("idx, jdx", "current pair of records", "src/crossings.rs Intersections"), ("is_overlap", "the pair runs over the same geometry", "src/crossings.rs Intersections")], ["tuples yielded"])
prop("C14", "Boolean operations compute the set operation on the regions",
     "For any two polygons or multi-polygons (each read as the set of points with an odd number of rings around them) whose edges intersect in exactly representable points, the union, intersection, difference and symmetric difference cover exactly the points that the set operation demands, each by exactly one polygon of the result. It neither panics nor loops.",
     ["inputs"], "every pair of (multi-)polygons incl. shared edges, shared vertices, holes, nested and self-touching rings", "tests compare a few fixtures with another library",
     ["src/bops.rs", "src/bops/op.rs", "src/bops/rings.rs", "src/bops/laminar.rs", "src/crossings.rs"],
     [("membership of the region above and below each edge", "src/bops/op.rs Region::cross, is_ty"), ("edges kept where membership changes", "src/bops/op.rs Op::sweep")],
     [("region", "membership in the two operands just above an edge", "src/bops/op.rs Edge")], ["BooleanOp methods"])
prop("C15", "Boolean operations return well-formed polygons",
     "Every ring of a result is closed, encloses area, visits no vertex twice and runs along input edges only; every hole lies inside the exterior of its own polygon, holes of one polygon do not overlap and neither do the polygons of the result.",
     ["inputs"], "every pair of (multi-)polygons with exactly representable edge intersections", "tests do not look at the rings",
     ["src/bops.rs", "src/bops/rings.rs", "src/bops/laminar.rs", "src/bops/op.rs"],
     [("edges at a vertex paired by turn", "src/bops/rings.rs Rings::process, extract"), ("rings cut at repeated vertices", "src/bops/rings.rs"), ("holes attached to the ring around them", "src/bops/laminar.rs assemble")], (), ["rings of the result"])
prop("C16", "Monotone decomposition tiles the polygon with monotone pieces",
     "For every valid polygon (simple disjoint rings, holes inside), the decomposition returns x-monotone pieces made of the polygon's own vertices, each with its upper chain strictly above the lower, whose interiors are disjoint and together fill exactly the interior of the polygon. It neither panics nor loops, for any ring direction or start vertex.",
     ["inputs"], "every valid polygon with any number of holes, any vertical or collinear edges", "tests decompose a few literals and check little",
     ["src/monotone/chains.rs", "src/monotone/sweep.rs", "src/monotone/segment.rs", "src/monotone.rs"],
     [("sweep over vertices with the active edges", "src/monotone/sweep.rs"), ("chains opened, split and merged at vertices", "src/monotone/chains.rs")], (), ["monotone_chains"])
prop("C17", "Monotone polygons keep their chains through every conversion",
     "Building a monotone polygon from two strictly increasing chains with common ends keeps both unchanged; malformed chains are refused. Its bounding box is the tightest one, taking it apart returns the same chains, and converting it to a polygon gives the ring that follows the upper chain forward and the lower chain back, closed and without repeating the end points.",
     ["inputs"], "every pair of chains of any length, well-formed or not", "tests build two literals",
     ["src/monotone/mono_poly.rs"], [("checks on construction", "src/monotone/mono_poly.rs MonoPoly::new"), ("conversion", "src/monotone/mono_poly.rs into_polygon, into_ls_pair, bounding_rect")], (), ["MonoPoly methods"])
prop("C18", "The scan cursor sweeps the polygon in contiguous exact trapezoids",
     "Advancing the cursor to increasing positions emits non-degenerate trapezoids that are contiguous from the start position to the smaller of the target and the right end, whose upper and lower sides run along the upper and lower chain; pulling them one by one and pushing them to a callback give the same. The cursor afterwards stands at the last position, and advancing backwards or beyond the end emits nothing.",
     ["inputs", "histories"], "every monotone polygon, every sequence of positions, both ways of advancing", "tests scan one literal",
     ["src/monotone/mono_poly.rs"], [("next chain vertex or target, whichever is first", "src/monotone/mono_poly.rs Scanner::peek_next, advance_to, advance_upto")], [("curr", "position of the cursor", "src/monotone/mono_poly.rs Scanner")], ["trapezoids emitted, curr()"])
prop("C19", "Rasterising a column gives its exact row bounds and covered areas",
     "For every column between two positions and every window divided into rows, the covered area added to each row is the area of the polygon inside that cell and nothing else is changed; the row bounds are the first and last row that the polygon crosses inside the window, and nothing (or an empty range) exactly if it does not cross the window. The inner bounds are the highest lower side and the lowest upper side of the column.",
     ["inputs", "histories"], "every monotone polygon, every increasing sequence of columns, every window and number of rows", "tests rasterise a few literals against another crate",
     ["src/monotone/rasterize.rs", "src/monotone/mono_poly.rs"], [("trapezoids cut at row boundaries", "src/monotone/rasterize.rs")], (), ["cross_area, cross_bounds, cross_ubounds"])

if __name__ == "__main__":
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(v, "properties.jsonl"), "w") as h:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            h.write(json.dumps(p) + "\n")
