#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
T = "deterministic simulation with fault injection"
P = []
def prop(id, title, st, over, q, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
      tech=tech, note=note, na=na))

FB = "src/flatbush/mod.rs"; HI = "src/flatbush/hilbert.rs"
EN = "src/planar/primitives/envelope.rs"; LE = "src/linear/primitives/envelope.rs"
TY = "src/planar/types/"
prop("C01", "A shared spatial index answers every concurrent question exactly",
 "Any number of threads may put questions to the same spatial index at the same time (boxes met by a query box, boxes within a distance, pairs within the index, pairs with another index, the total box), and build further indexes meanwhile, and every answer is exactly what comparing all boxes one by one would give: nothing missing, nothing extra, nothing twice. This holds for any boxes (empty, points, without extent along an axis, coinciding, very large or very small), any number of them, any node size that is a power of two of at least two, with or without spatial sorting. Asking leaves the index as it was, and indexes and boxes can be shared between threads.",
 ["schedules","inputs","configurations","histories"],
 "every interleaving of the calls of any number of threads, at any instruction; every set of boxes, node size, build option and sequence of questions",
 "The tests ask single questions on one thread about a few fixed boxes; they never run two calls at once, ask the same index long series of questions, or build over degenerate extents, and they cannot show the absence of shared mutable state.",
 [FB, HI, EN, "src/coordinate.rs"],
 [("immutable tree of padded levels, traversed with call-local stacks", FB), ("spatial sort affects only the order of leaves", HI), ("coordinate numbers are required to be sendable and sharable", "src/coordinate.rs")],
 [("tree, level boundaries, node size", "the built index; never written after building", FB)],
 ["results of every query and join", "a walk over the nodes of the index before and after"],
 note="Seeded search over schedules and inputs; brute-force oracle for every answer; sequentially consistent interleavings at basic blocks, loads, stores, allocations and callbacks.")
prop("C02", "Geometries shared between threads answer as if each call were the only one",
 "Any number of threads may use the same points, lines, polygons, collections, segments and linear shapes at once, and every call (bounding box, emptiness, simplicity, validity, boundary, hull, centroid, parts, equality, linear and segment operations and so on) gives exactly the answer it would give if it were the only call ever made. Earlier calls, calls on other objects and calls in progress elsewhere have no influence, and no call changes an object it only reads. All these types can be shared between threads.",
 ["schedules","histories","inputs"],
 "every interleaving and every history of calls over every set of shared geometries",
 "The tests call one method on one fresh object on one thread; hidden state that leaks from one call, object or thread to another (a cache keyed too coarsely, a shared scratch buffer) is invisible to them.",
 [TY+"geometry.rs", TY+"line_string.rs", TY+"polygon.rs", TY+"multi_point.rs", TY+"multi_line_string.rs", TY+"multi_polygon.rs", "src/planar/validation", "src/planar/algorithms", "src/planar/primitives", "src/linear"],
 [("methods take shared references and work on call-local buffers", "src/planar, src/linear"), ("bounding boxes are computed at construction", TY)],
 [("stored bounding box", "computed when the object is made", TY)],
 ["encoded result of each call", "the objects before and after"],
 note="Oracle: the same call alone in a fresh process. Judges independence from history and schedule, not the geometric formula itself (see not_applicable).")
prop("C03", "Results are reproducible across processes, machines' memory and time",
 "The same call on the same arguments gives bit for bit the same result, in the same order, however often it is made, in whichever process, on whichever thread, after whatever other calls, whatever the random seed of hash tables, the addresses, reuse and previous contents of memory, or the clock. This covers lists whose order the interface does not promise, so that recorded results can be compared.",
 ["schedules","histories","configurations"],
 "every distribution of calls over threads and processes, every order, hash seed, heap layout and clock",
 "A test runs in one process with one layout, and re-running it changes only what the operating system happens to change; results that depend on hash seeds, addresses or uninitialised contents can agree by luck.",
 [FB, TY+"multi_point.rs", TY+"multi_line_string.rs", "src/planar/validation/multi_point.rs", "src/planar/algorithms/loop_relation.rs", "src/serde/wkt.rs"],
 [("ordered sets where results are listed; hash tables only for membership and counting", TY+", src/planar/algorithms/loop_relation.rs")],
 observe=["encoded results under replaced hash seed, heap base, reuse policy, fill pattern, clock, thread distribution and order"],
 note="Each case is executed in at least three environments plus once alone per call; hash seeds, heap and clock are under the simulator's control.")
prop("C04", "A panic in the caller's own code passes through and leaves nothing broken",
 "If code supplied by the caller panics at any point at which the library calls it (a number type's arithmetic, comparisons and conversions, an item's bounding box, an iterator over inputs), the panic reaches the caller unchanged, the process lives on, and no memory is lost. Every object, including one that was part of the failed call, still gives exactly the answers it gives otherwise, on every thread. A bounding box that was being extended is exactly as it was before the call that failed.",
 ["crash_points","inputs","schedules"],
 "every callback at which a panic can strike, in every call, alone and with other threads running",
 "No test uses caller code that fails; the property ranges over every point at which it could.",
 [FB, HI, EN, LE, "src/coordinate.rs", TY],
 [("values are computed completely before being stored", EN+", "+LE), ("ownership of call-local buffers frees them while unwinding", FB)],
 observe=["payload seen by the caller", "objects and answers afterwards", "blocks held in the library's heap"],
 note="Panics are thrown at seeded callbacks of a caller-defined number type, box providers and iterators.")
prop("C05", "Running out of memory never corrupts, aborts needlessly or leaks",
 "If an allocation fails at any point inside a call, the call either still gives its right answer or fails by unwinding as the allocation error handling in force prescribes; it does not crash, hang or give a wrong answer. Shared objects are unchanged, nothing allocated by the failed call stays allocated, and the same call made again once memory is available gives its right answer.",
 ["fault_sequences","schedules","inputs"],
 "every allocation that may fail, alone, in bursts or from then on, in every call, alone and with other threads running",
 "Tests never run out of memory; the property ranges over every allocation of every call.",
 [FB, TY, "src/planar/algorithms", "src/planar/validation", "src/serde/wkt.rs"],
 [("standard containers own all memory; no unsafe code, no partially stored state", "src")],
 observe=["how the call ends", "objects afterwards", "blocks held in the library's heap", "the retried call"],
 note="Allocation failures are injected in a simulated heap with an unwinding error hook; collections that need B-tree node splits are kept small because std does not promise to survive a failed split.")
prop("C06", "Damaged geometry text is either refused or read for exactly what it says",
 "Whatever happens to a well-known-text document in storage or transport (truncation, torn or lost blocks, duplication, reordering, flipped bits, zeroed blocks), reading it terminates without panicking. It is accepted exactly if it still follows the grammar, and then yields precisely the geometries and coordinates it spells out, in order, with nothing added, dropped or altered; every other text, including one with a kind of geometry the library does not represent, is refused with an error.",
 ["fault_sequences","inputs","schedules"],
 "every sequence of storage and transport faults over every document, read on any number of threads at once",
 "The tests read a score of well-formed texts and one malformed one.",
 ["src/serde/wkt.rs"],
 [("reader of the wkt dependency, converted variant by variant", "src/serde/wkt.rs")],
 observe=["the parsed geometries or the error"],
 note="Oracle: an independent reader of the same grammar, written for this check.")
prop("C07", "Bounding boxes gathered from many sources are exact whatever the delivery",
 "Bounding boxes in the plane and on the line that are accumulated from individual boxes, points and other accumulated boxes, by any number of workers, with deliveries reordered, repeated, lost and sent again, and with workers crashing and going on from a saved copy, are at every moment exactly the smallest box around what was taken in: never too small, never too large, empty boxes contributing nothing. Merging gives the same box in any order and grouping, repeats included.",
 ["histories","fault_sequences","crash_points","schedules"],
 "every order, grouping, repetition and loss-with-resending of deliveries, every checkpoint and crash point, every interleaving of workers",
 "The tests merge two or three fixed boxes in one order.",
 [EN, LE, "src/planar/primitives/position.rs"],
 [("merging takes the smaller of the minima and the larger of the maxima, with a separate empty box", EN+", "+LE)],
 [("box", "empty, or its least and greatest corner", EN)],
 ["the box held by each worker after each delivery, and the final merge"],
 note="Oracle: set of items known to each worker, folded by a model. Coordinates that are not numbers are not generated.")
prop("C08", "An index does not depend on how its items arrived or were split",
 "If items are routed to any number of separately built indexes, in any order, with repeats, and resent after loss, each index answers exactly for the items that reached it, identified by their place in its input, and joining the indexes pairwise finds exactly the meeting pairs between them. Node size, spatial sorting and arrival order change only the order of answers, and the total box is exact.",
 ["histories","fault_sequences","configurations","schedules"],
 "every routing, order, repetition and resending of items, every build option of each index, and every moment at which an index is built",
 "The tests build one or two indexes over fixed lists in one order.",
 [FB, HI],
 [("leaves carry the position of their item in the input", FB), ("joins descend the taller index first", FB)],
 observe=["queries, self joins and joins between all indexes built over what arrived"],
 note="Oracle: brute force over what arrived at each index.")
prop("C09", "An index over items that move while it is built is still consistent",
 "If the boxes of items change while an index is being built over them (moved by other threads between any two steps, or answering differently each time they are asked), the build finishes, without panicking, and the result is an index in which each item has one box that it really reported during the build. All questions to that index (queries, pairs, total box) are answered exactly for those boxes.",
 ["schedules","histories","inputs"],
 "every interleaving of movements with the steps of a build, and every sequence of boxes an item may report",
 "No test uses items whose boxes change; each test's items answer alike every time.",
 [FB, HI],
 [("leaves keep the box obtained when the entries were collected; positions outside the total box sort last", FB+", "+HI)],
 observe=["every box handed out during the build", "walk, queries and self join of the result"],
 note="Boxes come from an interior-mutable test item, moved by seeded other threads or scripted per question.")
prop("C10", "Nobody waits: calls finish whatever other callers do, and never panic",
 "A call on valid, finite input finishes within a number of steps that depends only on the call itself, even if every other thread is suspended or dies in the middle of any other call, and however the threads are scheduled. No call blocks on, spins for or repeats work because of another caller. No such call panics, for building indexes, queries, joins, bounding boxes, geometry operations, validity checks and reading text.",
 ["schedules","crash_points","inputs"],
 "every point at which other threads may stall or die, every schedule, every valid finite input",
 "Tests never suspend or kill a thread in the middle of a call, and sample few inputs; a lock, a retry loop or a panic on unusual extents passes them.",
 [FB, HI, TY, "src/planar/validation", "src/planar/algorithms", "src/serde/wkt.rs"],
 [("no locks, no shared writable state, bounded loops over the input", "src")],
 observe=["steps per call against the same call alone", "whether any thread ever waits", "panics"],
 note="Liveness as a bound: at most 8 times the steps of the call alone plus 50000; suspended threads resume only once everyone else is done, killed ones never.")
prop("C11", "Calls made from inside other calls' callbacks work like any others",
 "While the library is calling the caller's code (a number's arithmetic, an item's bounding box, an iterator), that code may itself use the library, including the very object and the very operation in progress. The inner call and the outer call both give exactly the answers they give separately; there is no deadlock, panic or unbounded recursion of the library's own making.",
 ["histories","schedules","inputs"],
 "every callback of every call, and every call that could be made there, alone and with other threads running",
 "No test makes a call from within a callback.",
 [FB, HI, EN, TY, "src/coordinate.rs"],
 [("no locks or exclusive borrows are held, and no global state is used, across calls of the caller's code", "src")],
 observe=["results of the inner and outer calls against the same calls alone"],
 note="Re-entrant calls are injected at seeded callbacks; the answer of each is compared with the same call alone in a fresh process.")
prop("C12", "Using the library does not accumulate memory",
 "Once calls have returned and their results and objects have been dropped, the memory they used has been given back, for every number and mix of calls on every number of threads. Memory kept between calls is at most a fixed amount that does not grow with the number of calls, of distinct arguments, or of objects made and dropped.",
 ["histories","schedules","inputs"],
 "every series of calls of any length, with any arguments, objects and threads",
 "Tests run each operation a few times and do not look at memory; growth shows only over long histories.",
 [FB, TY, "src/planar/algorithms", "src/planar/validation", "src/serde/wkt.rs"],
 [("all state is owned by values and dropped with them", "src")],
 observe=["blocks and bytes held in the library's heap after the whole series and after its first half"],
 note="A simulated heap attributes every block to library code; what is held after 2n rounds may not exceed what is held after n.")
prop("C13", "Collections are independent of the order in which their parts arrive",
 "A collection put together from the same parts in any order (points, lines, polygons with holes, holes of one polygon) has the same bounding box, emptiness, simplicity and validity, and the same boundary as a set. Repeated points make a point set non-simple and are removed by its simplification, which otherwise keeps exactly the distinct points; the boundary of a set of lines is exactly the set of end points of open lines met an odd number of times.",
 ["histories","inputs","fault_sequences"],
 "every order and repetition in which parts may be delivered, over every collection",
 "The tests assemble a handful of fixed collections in one order.",
 [TY+"multi_point.rs", TY+"multi_line_string.rs", TY+"multi_polygon.rs", TY+"polygon.rs", "src/planar/validation"],
 [("boxes folded over parts; end points counted modulo two; pairwise checks through an index", TY+", src/planar/validation")],
 observe=["bounding box, emptiness, simplicity, validity, boundary and simplification of each assembly"],
 note="Oracle: set models for box, boundary and simplification; equality between assemblies for the verdicts. Small-integer-like coordinates, so that rounding cannot distinguish orders.")

PURE = "a pure function of its arguments with no scheduling, time, I/O, memory fault or delivery history for the simulator to control; a simulated run would only be an ordinary test of the formula"
prop("N01", "Segment intersection is geometrically exact",
 "Two segments are reported to meet exactly if they do, and the reported common point or segment lies on both and is the same whichever segment is asked, up to the rounding of the number type.",
 ["inputs"], "every pair of segments", "The tests try some thirty pairs.", ["src/planar/primitives/segment.rs"],
 [("orientation tests and parametric intersection", "src/planar/primitives/segment.rs")], na=PURE)
prop("N02", "Line validity follows its definition",
 "A line is valid exactly if it has enough distinct points, no repeated consecutive points and does not meet itself, except where a closed line's ends coincide.",
 ["inputs"], "every sequence of points", "The tests try a score of lines.", ["src/planar/validation/line_string.rs"],
 [("consecutive and indexed pairwise checks", "src/planar/validation/line_string.rs")], na=PURE)
prop("N03", "Polygon and multi-polygon validity follow their definitions",
 "A polygon is valid exactly if its rings are valid, its holes lie inside and do not cross or nest; a set of polygons is valid exactly if its members are and do not overlap.",
 ["inputs"], "every arrangement of rings", "The tests try a score of arrangements.", ["src/planar/validation/polygon.rs","src/planar/validation/multi_polygon.rs","src/planar/algorithms/loop_relation.rs"],
 [("winding numbers over indexed segment pairs", "src/planar/algorithms/loop_relation.rs")], na=PURE)
prop("N04", "The convex hull is the smallest convex polygon around the points",
 "The hull of a geometry is convex, contains all its points and uses only points of the geometry.",
 ["inputs"], "every set of points", "The tests try a few sets.", ["src/planar/algorithms/convex_hull.rs"],
 [("monotone chain", "src/planar/algorithms/convex_hull.rs")], na=PURE)
prop("N05", "The spatial sort order is the Hilbert curve",
 "Positions are ordered along a Hilbert curve over the total box, so that neighbours in the order are neighbours in the plane; only efficiency depends on it.",
 ["inputs"], "every position in every box", "The tests try a few positions.", [HI],
 [("bit-parallel Hilbert index", HI)], na=PURE)
prop("N06", "Point location relative to a segment or ring is right",
 "A position is reported left of, right of, on the line or on the segment exactly as it lies, and winding numbers count the turns of a ring around it.",
 ["inputs"], "every position and segment", "The tests try a few dozen positions.", ["src/planar/primitives/segment.rs","src/planar/primitives/triangle.rs"],
 [("signed area of a triangle", "src/planar/primitives/triangle.rs")], na=PURE)
prop("N07", "Centroids and representative points lie where their definitions put them",
 "Centroids are the mean of the positions by the definition of each kind of geometry, and a point on the surface lies on the geometry.",
 ["inputs"], "every geometry", "The tests try a few geometries.", ["src/planar/types/line_string.rs","src/planar/types/multi_point.rs"],
 [("sums over positions", "src/planar/types")], na=PURE)
prop("N08", "Lines, rings and geometries convert and classify faithfully",
 "Conversions between kinds of geometry and plain coordinates keep every coordinate, and kind, dimension, closedness and ringness follow their definitions.",
 ["inputs"], "every geometry", "The tests convert a few.", ["src/planar/types/geometry.rs","src/planar/types/line_string.rs"],
 [("conversions by enumeration", "src/planar/types/geometry.rs")], na=PURE)

import os
here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id","title","statement","quantifier","why_tests_cant","anchors")}) + "\n")
m = dict(version=1, setup_cmd="./check.sh setup", checks=[], not_applicable=[],
  notes="One check per property: ./check.sh ID builds the simulator with /repo's working tree (cargo, offline, sanitizer-coverage instrumentation through a rustc wrapper) and runs the seeded search; ./check.sh replay FILE replays a recorded violation; ./check.sh selftest shows that a seed is an execution. No hooks in /repo: number type, bounding-box callbacks, iterators, allocator, system calls and compiler instrumentation are the seams.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
          technique=T + ": seeded search over schedules and faults", level="exploration", level_note=p["note"]))
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
