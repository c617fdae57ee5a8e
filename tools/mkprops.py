#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

G1 = "plycutter/geometry/geom1d.py"
I2 = "plycutter/geometry/impl2d/"
prop("C01", "1D interval-set operations are exact set operations",
 "For any two 1D interval sets built from exact rational or infinite endpoints, union, intersection, difference, symmetric difference and complement give an interval set that contains exactly the points the set operation prescribes (intervals read as closed below and open above). The operands are never modified, and the empty and full sets contain no point and every point respectively.",
 ["inputs"], "all interval sets with any number of intervals and any exact endpoints (also +-infinity, empty intervals, touching, nested and duplicate intervals), and every point of the line",
 "The tests sample small random expression trees and compare two evaluations of the same code; they never compare with the set-theoretic result and never use infinite endpoints.",
 [G1], [("normalisation of the interval list", G1+": Geom1D.__init__"), ("complement by re-pairing endpoints; the other operations by De Morgan", G1+": __invert__, __and__, __sub__, __xor__, __or__")])
prop("C02", "1D interval sets are canonical and their queries agree with the set",
 "Every 1D interval set exposes its intervals in increasing order, each non-empty, pairwise disjoint and not touching, and covering exactly the points of the intervals it was built from. Point location says inside exactly for interior points, indeterminate exactly for end points and outside for all others; emptiness, total length, boundedness, splitting into pieces and filtering all agree with that point set.",
 ["inputs"], "all lists of intervals (any order, overlaps, duplicates, zero-length) and all query points",
 "Tests check two literal examples of the interval list and locate at sampled points; length, boundedness, pieces and filter have no test.",
 [G1], [("sort, merge, drop empty intervals", G1+": Geom1D.__init__"), ("queries walk the sorted list", G1+": locate, measure1d, is_empty, is_bounded, disjoint_pieces, filter")])
prop("C03", "1D dilation and erosion are exact",
 "Dilating a 1D interval set by an exact amount r >= 0 yields exactly the points within distance r of the set, and eroding by r yields exactly the points whose whole r-neighbourhood lies in the set (end points read by the closed-below, open-above convention). An amount that is not exact is refused.",
 ["inputs"], "all interval sets (also unbounded ones) and all exact amounts of either sign",
 "No unit test calls the 1D buffer operation; only the end-to-end smoke test executes it, for one model.",
 [G1], [("per-interval widening, dropping vanished intervals, re-normalising", G1+": Geom1D.buffer")])
prop("C04", "Inexact numbers are refused, exact numbers are preserved",
 "Converting a value to the exact rational type keeps its value unchanged when it is an exact integer or rational, and raises an error for every other kind of value, finite floats included; the variant that allows infinities additionally returns an infinity unchanged. Building a 1D interval set or a 2D polygon from coordinates therefore either preserves every coordinate exactly or raises.",
 ["inputs"], "all values of all numeric kinds used by the program (int, bool, big integer, rational of both libraries, float, infinities, NaN, numpy scalars) and non-numbers",
 "Tests only ever pass rationals and small ints; no test passes a value that must be refused.",
 ["plycutter/plytypes.py", G1, I2+"geom2d_simple_holes.py"], [("class dispatch", "plycutter/plytypes.py: FractionFromExact, FractionFromExactOrInf"), ("constructor checks", G1+": Geom1D.__init__; "+I2+"geom2d_simple_holes.py: polygon")])
prop("C05", "Fractional angles order directions exactly like true angles",
 "The fractional angle of every non-zero vector lies in [0, 8), depends only on its direction, and sorts vectors in the same clockwise order as their true angles. Rotating a vector by 90 or 180 degrees adds exactly 2 or 4 modulo 8, and converting a fractional angle to a vector on the unit square and back returns the same fractional angle modulo 8.",
 ["inputs"], "all non-zero exact rational vectors and all exact rational fractional angles",
 "Tests check 16 vectors and a round trip on samples with denominators up to 101; the order property, on which every arrangement sort depends, is never tested.",
 [I2+"frangle2d.py"], [("octant case analysis", I2+"frangle2d.py: vector_frangle, frangle_unit_square_vector")])
prop("C06", "Line and segment intersection primitives are exact",
 "For two non-parallel lines the intersection primitive returns the unique common point together with its exact parameters along both. The segment version returns a point exactly when two non-parallel closed segments meet and then that common point; and the position-along-a-segment query returns the exact fraction of a point on the segment's line and no value for every other point.",
 ["inputs"], "all exact rational segments and points, including vertical, horizontal and degenerate segments",
 "Tests compare the primitive with itself under transforms on samples with small denominators; the position query has no test.",
 [I2+"primitive2d.py", I2+"scan2d.py"], [("Cramer's rule with exact rationals", I2+"primitive2d.py: segment_segment_general_intersection, line_segment_point_fraction"), ("sign-normalised range test", I2+"scan2d.py: _nonparallel_intersection_point, _at_y_no_horizontal")])
prop("C07", "Polygon area and point location are exact",
 "The signed area of a closed vertex list equals the exact shoelace value, clockwise lists being positive, whatever the starting vertex. Point location reports on-edge exactly for points on the closed boundary, and otherwise inside exactly when the boundary winds around the point; a polygon with holes, and a set of such polygons, answers by combining these answers so that points in holes are outside and points in any member polygon are inside.",
 ["inputs"], "all vertex lists of any length with exact rational coordinates (also with horizontal and vertical edges through the query point's row) and all query points",
 "No test calls area or location directly; the degenerate rows (vertices and horizontal edges level with the point) are what goes wrong and are not sampled by any oracle.",
 [I2+"primitive2d.py", I2+"geom2d_simple_holes.py"], [("trapezoid sum", I2+"primitive2d.py: simple_polygon_area"), ("signed crossing count with half-open rows", I2+"primitive2d.py: locate_point_polygon_winding_number"), ("hole and union logic", I2+"geom2d_simple_holes.py: Simple_Polygon_With_Holes.locate/area, Geom2D.locate/area")])
prop("C08", "Bounding boxes are tight and their tests are exact",
 "A bounding box that has been given points contains each of them and is the smallest such box, and an empty one contains nothing and meets nothing. Box-box and box-segment tests answer true exactly when the closed box and the closed box or segment share a point.",
 ["inputs", "histories"], "all sequences of points in any order, all boxes and all segments, also degenerate, touching and axis-parallel ones",
 "Tests sample segments that start inside or lie wholly on one side; corner-cutting, touching and degenerate segments are not decided by any oracle.",
 ["plycutter/geometry/aabb.py"], [("NaN-aware updates", "plycutter/geometry/aabb.py: include_point"), ("separating axis test", "plycutter/geometry/aabb.py: intersects_segment")])
prop("C09", "Segment quadtree never misses a crossing segment",
 "A query with a segment returns every stored segment that shares a point with it inside the tree's box, whatever the order of insertion and the split threshold, and returns only segments that were stored. Inserting further segments never removes earlier ones from the answers.",
 ["inputs", "histories"], "all insertion sequences, thresholds, boxes and query segments",
 "The only test stores one segment and never triggers a split.",
 [I2+"pmr_quadtree.py", "plycutter/geometry/aabb.py"], [("recursive insertion into every overlapping quadrant", I2+"pmr_quadtree.py: Node.add, Node.split"), ("recursive collection", I2+"pmr_quadtree.py: Node.find_all")])
prop("C10", "Stabbing queries return exactly the intervals containing the value",
 "For every collection of closed intervals and every value, the interval tree's stabbing query yields exactly the intervals whose closed range contains the value, each as often as it occurs in the collection.",
 ["inputs"], "all collections of closed intervals (also empty, duplicate, zero-length, sharing end points) and all values, also outside the overall range",
 "The test compares with a linear scan for sampled integer intervals and mostly hits end points or nothing.",
 [I2+"segment_tree.py"], [("elementary intervals, bottom-up pairing", I2+"segment_tree.py: SegmentTree1D.__init__"), ("canonical covering and single-path descent", I2+"segment_tree.py: Node.add_segment, Node.stab, PointLeaf, RangeLeaf")])
prop("C11", "The segment sweep reports all intersections and only intersections",
 "For every set of distinct non-degenerate segments the sweep reports each point where two of them cross, touch or where a collinear overlap begins or ends, exactly once and with every segment through it. Every reported point lies exactly on every segment reported with it.",
 ["inputs"], "all sets of distinct exact segments, including horizontal, vertical, collinear overlapping and many segments through one point",
 "The test compares the sweep with itself under affine maps on samples; a crossing missed in both runs is invisible.",
 [I2+"scan2d.py"], [("shear to general position", I2+"scan2d.py: _find_general_y_shear, all_segment_intersections"), ("event queue and ordered active list", I2+"scan2d.py: _all_segment_intersections_no_horizontal, _SweepKey")])
prop("C12", "2D set operations are exact",
 "For any 2D polygon sets, the results of union (also of many), intersection and difference contain exactly the points that the set operation prescribes, apart from points on the edges, and their area is consistent with that. The operands are unchanged and the results are valid: clockwise outer rings, holes inside them, interiors disjoint.",
 ["inputs"], "all exact polygon sets, including shared edges and vertices, collinear overlaps, holes, islands in holes, nested and touching pieces, and unions of more pieces than one batch",
 "There is no unit test of 2D operations: benchmarks run them on four inputs without any assertion.",
 [I2+"geom2d_simple_holes.py", I2+"arrangement2d.py", I2+"scan2d.py", I2+"cell_merger.py"], [("arrangement of all edges, cell-wise decision, polygon rebuild, self check", I2+"geom2d_simple_holes.py: _arrangement_op, union, union_tree"), ("cells and containment", I2+"arrangement2d.py: SegmentArrangement")])
prop("C13", "2D dilation and erosion bracket the true offset",
 "Dilating a 2D polygon set by r > 0 yields exactly its Minkowski sum with one fixed convex offset polygon that depends only on r, is proportional to it and is centrally symmetric; eroding by r yields exactly the points at which that polygon fits inside the set. Hence dilation contains the set and every point within 0.99 r of it, and reaches no further than 1.42 r.",
 ["inputs"], "all exact polygon sets (holes, reflex and very sharp corners, collinear vertices) and all non-zero exact amounts",
 "Benchmarks run dilation and erosion on four parabola-shaped inputs without any assertion.",
 [I2+"geom2d_simple_holes.py"], [("offset polygon", I2+"geom2d_simple_holes.py: buffer_of_size"), ("edge and corner ribbon pieces, union and subtraction", I2+"geom2d_simple_holes.py: minkowski_ribbon_simple_convex, _minkowski_convex_op")])
prop("C14", "Cell merging cancels shared edges and keeps track of every cell",
 "After adding any sequence of cells of one subdivision, the merged outlines consist of exactly the directed edges whose reverse was not added, each once, and form closed loops. Every added cell is attributed to the merged outlines that bound its group, and none is lost or invented.",
 ["inputs", "histories"], "all sequences of distinct cells (closed vertex loops whose directed edges are all distinct), in every order",
 "The test adds the nine squares of one 3 x 3 grid in different orders and looks only at the final outline.",
 [I2+"cell_merger.py"], [("half-edge cancellation and loop walking", I2+"cell_merger.py: CellMergerSlow.Cell.merged, add_cell")])
prop("C15", "Fingers and joint coordinates correspond exactly",
 "The finger material made for a set of positions along a joint is, on the sheet, exactly the strip between the joint's two bounding lines restricted to those positions. Projecting a polygon back to joint coordinates gives exactly the range its outline spans, and for a unit joint direction projecting fingers returns the original positions.",
 ["inputs"], "all joints (directions, offsets, strip widths), all bounded sets of positions, all fraction ranges across the joint, and all polygon sets",
 "Only the end-to-end smoke test executes this, for one joint, with no assertion.",
 ["plycutter/sheetplex.py", I2+"geom2d_simple_holes.py"], [("parallelogram per interval", "plycutter/sheetplex.py: InterSide.make_fingers"), ("min/max of dot products", I2+"geom2d_simple_holes.py: project_to_1d; plycutter/sheetplex.py: InterSide.project_to_1d")])
prop("C16", "Joint decisions never give the same place to two sheets",
 "Starting from a consistent set of decisions, choosing a still-permitted range for one side of a joint, or ruling a range or area out, yields a consistent set again: everything chosen is permitted, and no position of a joint chosen for one side is still permitted to the other. Exactly the stated side, range and sheet areas change; all other decisions stay as they were, and the initial set of decisions (for a support radius of at least 1) is consistent.",
 ["histories", "inputs"], "all sheet models, all decision states reachable by choose and unchoose steps, all ranges",
 "The invariants are asserted at run time only every 150th call and with tolerances; the smoke test runs one two-sheet model.",
 ["plycutter/sheetbuild.py"], [("choose/unchoose transitions", "plycutter/sheetbuild.py: SheetBuild.choose_interside(s), unchoose_interside(s), unchoose_sheet_area"), ("map helpers", "plycutter/sheetbuild.py: map_or_geom, map_and_geom, map_sub_geom, map_and, map_or"), ("initial state", "plycutter/sheetbuild.py: create_sheetbuild")],
 state=[{"name": "sheet_chosen / sheet_ok", "meaning": "area fixed / still permitted per sheet", "where": "plycutter/sheetbuild.py: SheetBuild"}, {"name": "interside_chosen / interside_ok", "meaning": "joint ranges fixed / still permitted per side", "where": "plycutter/sheetbuild.py: SheetBuild"}])
prop("C17", "Every heuristic step only narrows what is permitted and keeps what is chosen",
 "Each step of the joint-making pipeline returns a new decision state in which nothing previously chosen was given up and nothing was newly permitted that was not permitted before (beyond rounding, areas and lengths below 1e-6), on any sheet or joint side, and the chosen areas of the sheets remain permitted. The state passed in is left unchanged and the sheet model is carried over as is.",
 ["inputs", "histories"], "all sheet models, parameters and consistent decision states, every step of the pipeline",
 "The smoke test runs the pipeline on one two-sheet model and asserts nothing about the states.",
 ["plycutter/heuristics.py", "plycutter/sheetbuild.py"], [("persistent-map updates by subtraction only", "plycutter/heuristics.py: choose_obviously_irrelevant, remove_loose, update_intersection_ok, update_sheet_ok, choose_the_ok_side, clean_up_thin_ok_parts, heuristic_multi_inter_single_decisions, single_fingers_random")])
prop("C18", "Generated fingers tile each free joint range within the width limits",
 "For every free range of a joint the generated fingers lie end to end from one end of the range to the other, alternate between the two sides, and each is between the minimum and maximum finger width (up to rounding); when no such division exists the whole range goes to one side. The neighbours at both ends decide the first and last finger so that the pattern continues alternating across them.",
 ["inputs", "configurations"], "all ranges, all width limits, all seeds of the random generator, both parities of the neighbouring sides",
 "The smoke test generates one set of fingers with the default limits and asserts nothing.",
 ["plycutter/heuristics.py"], [("bounded random partition", "plycutter/heuristics.py: random_min_max"), ("finger count parity and alternation", "plycutter/heuristics.py: single_fingers_random")])
prop("C19", "The DXF output shows every part once, to scale, without overlap",
 "For every collection of parts the written drawing contains, for each part, exactly one closed polyline per outline and per hole, equal to the part's geometry shifted by one translation. The parts' bounding boxes are side by side with a positive margin and no part is missing, distorted, rotated or mirrored, whatever the other parts are (empty ones included).",
 ["inputs"], "all mappings from names to 2D polygon sets, including sets with several pieces, holes, or no piece at all",
 "The smoke test writes one file with two parts and never reads it back.",
 ["plycutter/writer.py", "plycutter/geometry/aabb.py"], [("bounding box per part, running x offset, polyline per ring", "plycutter/writer.py: write_dxf")])
prop("C20", "A failing run reports its error and never yields a pattern",
 "If any stage of the pipeline raises or the final consistency check fails, the command ends with that same error and writes no output file; it also fails when no sheet is found in the model. On success it writes exactly the chosen area of every sheet, dilated by the requested kerf compensation, to the requested file (by default the input's name with the .dxf suffix).",
 ["fault_sequences", "configurations"], "every stage at which an exception can occur, every option setting",
 "The smoke test runs the success path once with one option.",
 ["plycutter/canned.py", "plycutter/command_line.py"], [("stage list with final forced check and exception handling", "plycutter/canned.py: canned_1"), ("option handling and output", "plycutter/command_line.py: main")])
prop("C21", "The sheet model's joints are complete and symmetric",
 "Every pair of non-parallel sheets has exactly one joint, with exactly one side on each of the two sheets, and no other joints exist; the side opposite to the opposite of a side is that side, and a side is found again by its identifier. Restricting the model to some sheets keeps exactly those sheets and the joints between them.",
 ["inputs"], "all sheet models with any number of sheets and all subsets of sheets",
 "The smoke test has two sheets and one joint; restriction is never called by a test.",
 ["plycutter/sheetplex.py", "plycutter/create_sheetplex.py"], [("pairwise creation", "plycutter/create_sheetplex.py: create_intersections, create_intersection, intersection_id"), ("lookups", "plycutter/sheetplex.py: SheetPlex.interside, intersides, limit, InterSide.opposite, Intersection.side_by_sheet")])
prop("C22", "Overlapping joints are grouped into disjoint clusters",
 "Where joints on a sheet overlap, every overlapping pair of joint ranges ends up together in one cluster. Different clusters never share a position of a joint, and a cluster contains nothing but such overlapping ranges.",
 ["inputs", "histories"], "all collections of overlapping joint ranges in any order",
 "The smoke test's model has a single joint, so no overlap and no cluster is ever formed by any test.",
 ["plycutter/heuristics.py", "plycutter/sheetbuild.py"], [("pairwise overlap of finger areas", "plycutter/heuristics.py: _find_interactions"), ("incremental cluster merging", "plycutter/heuristics.py: _find_interaction_clusters"), ("map intersection and union", "plycutter/sheetbuild.py: map_and, map_or")])
prop("C23", "Same input, options and seed give the same pattern",
 "Two runs of the program on the same model with the same options and random seed write the same outlines, independent of the process, its hash seed and earlier runs.",
 ["inputs", "configurations"], "all models and options, all process hash seeds",
 "The smoke test runs once per process and compares nothing.",
 ["plycutter/heuristics.py", "plycutter/create_sheetplex.py", "plycutter/canned.py"], [("seeded generator", "plycutter/heuristics.py: single_fingers_random"), ("iteration over persistent maps and sets of string ids", "plycutter/create_sheetplex.py: create_intersections; plycutter/heuristics.py")])
prop("C24", "Every sheet of the model is found, and only sheets",
 "For a solid model made of flat sheets of the given thickness, each sheet is found once, with faces and cross-sections equal to the model's to within the tolerances, and nothing else is reported as a sheet.",
 ["inputs"], "all STL models of flat sheets, all placements and thicknesses",
 "The smoke test loads one model with two sheets and does not look at them.",
 ["plycutter/create_sheetplex.py"], [("facet grouping and slicing", "plycutter/create_sheetplex.py: create_sheets, find_all_facets, _find_facet_status")])
prop("C25", "The parts of a two-sheet joint fit together",
 "The cut parts, placed back at their sheets' positions in space, fill the joint region without interpenetrating beyond the kerf compensation.",
 ["inputs", "configurations"], "all models and options",
 "No test places parts back in space.",
 ["plycutter/canned.py", "plycutter/heuristics.py"], [("the whole heuristic pipeline", "plycutter/canned.py: canned_1")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
