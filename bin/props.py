#!/usr/bin/env python3
"""The properties, and the generator of properties.jsonl and MANIFEST.json.

  props.py            rewrite both files
"""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"rec": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                      "why_tests_cant": why, "anchors": a}, "note": note})


prop("C01", "Any sequence of edits leaves a sound half-edge mesh",
     "After any sequence of adding and removing triangles, flipping, splitting and collapsing edges, splitting faces and rebuilding border loops, the mesh is sound. "
     "Every edge has two opposite sides with matching ends and at least one face, walking around a face returns after three steps over three distinct corners, walking along a border stays on the border, no directed edge occurs twice, and nothing live refers to anything removed. "
     "Every vertex in use can reach its surroundings, and looking up an edge by its two ends finds exactly the live edges.",
     ["histories", "inputs"],
     "for every sequence of edits, accepted or refused, from every mesh such edits can build, with and without border, in the plane and in space, for every scalar type",
     "Unit tests apply one or two edits to one mesh and look at a few counts; dangling references only show after particular interleavings around particular borders.",
     ["src/mesh/core.rs", "src/mesh/topology.rs", "src/mesh/edge_collapse.rs", "src/mesh/basic_types.rs"],
     [("linking of half-edges, faces and the edge index by each edit", "add_triangle, remove_triangle, split_edge, split_face, flip_edge, collapse_edge"),
      ("border loop linking", "build_boundary_loops, weld_border_components_from")],
     ["vertices, half_edges, faces and edge_map of the mesh after every edit"],
     "All histories of two edits from four (thorough: seven) small surfaces and random histories of up to 24 edits over 13 surfaces are generated by TLC and replayed; the full structure is judged after every step.",
     state=[("mesh structure", "half-edges with head, face, next, previous and twin", "Mesh.half_edges, faces, vertices, edge_map")])

prop("C02", "Every edit does exactly what it says, and refused edits change nothing",
     "Adding or removing triangles, flipping, splitting, collapsing and inserting a vertex change exactly the triangles, vertices and positions the edit names and no others. "
     "The answer of the edit (accepted or refused, the vertex, the new faces) describes what happened, and a refused edit leaves the triangles and positions as they were.",
     ["histories", "inputs"],
     "for every edit in every state reachable by edits, including duplicate triangles, triangles given in the wrong winding, flips of border edges, and splits at existing vertices",
     "Unit tests check counts after one edit; an edit that also disturbs a distant face or answers for the wrong vertex needs the whole mesh compared after arbitrary histories.",
     ["src/mesh/core.rs", "src/mesh/topology.rs", "src/mesh/edge_collapse.rs"],
     [("local rewiring by each edit", "add_triangle, add_triangles_deferred, remove_triangle, remove_triangles_deferred, flip_edge, split_edge, split_face, get_or_insert_vertex")],
     ["triangle set, vertex positions and retired vertices after every edit", "the value each edit returns"],
     "The abstract mesh machine predicts the triangle set, positions and answer of every edit; the same replayed histories as C01, biased to adding, removing and refilling.")

prop("C03", "Flips, splits and collapses keep the topology of the surface",
     "Flipping or splitting an edge, splitting a face and collapsing an edge keep the Euler characteristic, the number of pieces, the number of border loops and manifoldness of a manifold surface, whatever was done to it before, except that a collapse may consume a whole piece that consists of the triangles at that edge.",
     ["histories", "inputs"], "for every manifold reachable by edits and every accepted flip, split and collapse of it",
     "Tests check the counts of one closed mesh; surfaces with borders, several pieces and handles need many histories.",
     ["src/mesh/core.rs", "src/mesh/edge_collapse.rs"],
     [("rewiring that must be a local homeomorphism", "flip_edge, split_edge, split_face, collapse_edge")],
     ["Euler characteristic, components, border loops and vertex fans of the triangle set before and after each edit"],
     "TLC checks the law on the abstract machine for all short edit sequences; replayed histories, including a torus and annuli, are judged step by step.")

prop("C04", "Neighbourhood queries agree with the triangles of the mesh",
     "After any sequence of edits, every neighbourhood query answers for the triangles the mesh then has. "
     "The ring of a vertex lists its edges, neighbours and faces once each in counter-clockwise order and knows whether the vertex is on the border, and the queries for the faces at a vertex, across the sides of a face, between two faces or two vertices, around an edge, and for border vertices agree with the triangle set. "
     "A face search tree built from the mesh holds exactly its live faces with their boxes.",
     ["histories", "inputs"], "for every mesh reachable by edits, with and without border, and every vertex, edge, face and pair of them, including removed ones",
     "Tests ask a few queries of fresh meshes; wrong order around a border vertex or answers from removed faces need edited meshes and all vertices.",
     ["src/mesh/topology.rs", "src/mesh/core.rs"],
     [("rotation around vertices over twins, including border half-edges", "vertex_ring_ccw, outgoing_half_edges, faces_around_face, build_face_adjacency_graph"),
      ("edge lookup", "edge_map based queries")],
     ["answers of all adjacency queries for every vertex, edge and face", "entries of the built face tree"],
     "TLC generates random edit histories over 13 surfaces; each is cut at a random point and every query is asked for every element and judged against the triangle set.")

prop("C05", "Splitting keeps the surface and the search tree in step",
     "Splitting an edge or a face at a point replaces exactly the faces that contain the point by faces over the same corners and the new vertex, with the same winding, and splitting at an existing vertex changes nothing and names that vertex. "
     "A point of a face that lies on one of its edges splits that edge on both sides. "
     "A face search tree passed along contains exactly the live faces afterwards.",
     ["histories", "inputs"], "for every sequence of splits and flips of inner and border edges, from either side, in 2D and 3D, at every position relative to the face",
     "Tests split one edge or face of a fresh mesh; border edges, repeated splits and the search tree after several splits are not looked at.",
     ["src/mesh/core.rs", "src/geometry/aabb_tree.rs"],
     [("edge and face subdivision with optional tree maintenance", "split_edge, split_face")],
     ["triangle set, positions, answer, live entries of the tree after each split"],
     "Random histories of splits and flips with a tracked tree; positions are midpoints and interior points.")

prop("C06", "Locating a point on a mesh names the element it lies on",
     "Locating a point of the surface answers with a live face that contains it and says truthfully whether the point is at a corner, on an edge at which parameter, or inside with which weights. "
     "This also holds when the search starts from a face or half-edge that splits have since replaced: the answer is then the part of it that holds the point, with a half-edge in the same direction. "
     "Weights and edge tests on one face are offered exactly for points on it and reproduce the point.",
     ["histories", "inputs"], "for every sequence of splits, every face or half-edge that ever existed, every point of it (in the plane: every point of the mesh), and every scalar type",
     "Tests locate a point in a fresh mesh; handles several splits old and points on edges between pieces are not tried.",
     ["src/mesh/topology.rs", "src/mesh/core.rs"],
     [("walk from an old handle to the live face", "find_valid_face, find_valid_half_edge and the split maps"),
      ("barycentric classification", "location_on_face, point_is_on_some_half_edge, barycentric_coords_on_face, faces_containing_point_aabb")],
     ["the located element and its parameters, mapped back to the point"],
     "Random histories of splits over 13 surfaces; points are corners, midpoints, quarter points and interior points of live faces, asked from random old and live handles.",
     state=[("split records", "which faces and half-edges replaced a split one", "face_split_map, half_edge_split_map")])

prop("C07", "Inserting a vertex by position never doubles or displaces vertices",
     "Inserting a vertex at a position where a live vertex is finds a vertex and makes none. "
     "Inserting one farther from all vertices than the merge tolerance makes exactly one new vertex with exactly that position, and a vertex reported as found is within the tolerance. "
     "This holds at every magnitude of the coordinates and however the coordinate values were computed, and no insertion moves another vertex.",
     ["histories", "inputs"], "for every sequence of adding and inserting vertices, positions equal, just within and just beyond the tolerance, on either side of grid cells, tiny and huge, in 2D and 3D, every scalar type",
     "Tests insert one point twice; cell borders, negative zeros, coordinates beyond the grid and values equal in value but not in representation are not tried.",
     ["src/mesh/core.rs", "src/mesh/spatial_hash.rs", "src/kernel/predicates.rs"],
     [("grid of cells with neighbour search", "get_or_insert_vertex, position_to_hash_key, pack_key3"), ("tolerant equality", "are_approximately_equal")],
     ["index and found flag of each insertion, all positions afterwards"],
     "All histories of three insertions over five positions and random ones of fourteen are generated by TLC and replayed at eight scales.",
     state=[("position grid", "which vertices lie in which cell", "Mesh.vertex_spatial_hash")])

prop("C08", "Cleaning a mesh keeps its surface",
     "Merging duplicate vertices, dropping unused vertices and dropping removed faces leave the surface as it was: the same triangles, as cycles of positions, each as often as before. "
     "Merging leaves no two live vertices at one position and reports how many it merged, dropping leaves no unused vertex and no removed face, and the result is a sound mesh in which vertices are found by position; pieces that met only in position are joined by merging and dropping together.",
     ["histories", "inputs"], "for every mesh reachable by edits, as it is, cut into separate triangles, partly cut, or with extra vertices nobody uses, and every order of cleaning",
     "Tests do not clean edited meshes; stale references after renumbering show only when vertices and faces were removed before.",
     ["src/mesh/core.rs", "src/mesh/spatial_hash.rs"],
     [("renumbering of vertices and faces", "remove_duplicate_vertices, remove_unused_vertices, remove_invalidated_faces")],
     ["the whole structure before and after each step, the reported count, look-ups afterwards"],
     "TLC generates edit histories; each mesh is cut up or padded, cleaned, and judged. Merging alone is not required to join edges; that is the next step's part.")

prop("C28", "An edge collapses exactly when the surface survives it",
     "Collapsing an edge merges its ends in their midpoint, removing one end and the triangles at the edge and nothing else. "
     "It is refused, with no change, exactly when the ends are not joined by an edge, when they share a neighbour other than the corners opposite the edge, when it would pinch the surface at the border or leave two triangles on the same corners, or when a triangle would become flat or turn over.",
     ["histories", "inputs"], "for every pair of vertices of every mesh reachable by edits, inner, border and mixed edges included",
     "Tests collapse one edge of one mesh; which refusals are missing or superfluous shows only over many neighbourhoods.",
     ["src/mesh/edge_collapse.rs", "src/mesh/core.rs"],
     [("link condition and geometric checks before the collapse", "collapse_edge and its begin and commit phases")],
     ["acceptance, triangle set, position of the merged vertex"],
     "All pairs of vertices of small surfaces after one more edit, and random histories of collapses, splits and flips. The acceptance rule is the specification's reading of the code's checks, see DESIGN.md.")

prop("C09", "Box tree queries equal brute force after any history of edits",
     "After any sequence of building, inserting, invalidating and compacting, a query of the box tree returns exactly the entries ever stored whose closed box meets the query box, and a live query exactly those not invalidated since, each as often as it was stored. "
     "Invalidation reports how many live entries it retired, compaction keeps exactly the live entries, looking up an entry returns its box, and a rebuild is asked for exactly when fewer than half of the entries are live.",
     ["histories", "inputs"],
     "for every history of build, insert, invalidate and compact with any boxes (touching, nested, flat, equal, closer than doubles resolve) and payloads, and every query",
     "Unit tests build a few trees once and query them; lost, duplicated or miscounted entries need particular interleavings of insertion, invalidation and compaction with particular box overlaps.",
     ["src/geometry/aabb_tree.rs", "src/geometry/aabb.rs"],
     [("approximate bounds in front of exact box tests", "AabbTree query/query_valid"),
      ("insertion descent and live counts", "AabbTree insert, invalidate, compact")],
     ["query, query_valid, get_aabb", "invalidate count, compact, needs_rebuild"],
     "The tree is specified as a bag of entries; TLC enumerates all histories of four further edits over three boxes and generates long random ones, the real tree is replayed and every answer after every step is judged. Larger trees are seeded.",
     state=[("entries", "boxes with payload and live flag", "AabbTree leaves")])

prop("C10", "Box algebra is exact",
     "The box of two points, the union of boxes, the bounding box of a point set, the overlap test, centre, longest axis and inflation of boxes are exactly those of the coordinates, closed boxes that merely touch do meet, and the approximate overlap test never contradicts the exact one.",
     ["inputs"], "for every pair of boxes and every point set in 2D and 3D, every scalar type exact on it, including coordinates closer than doubles resolve and beyond their range",
     "Tests check single generic boxes; touching, flat and nearly equal boxes have to be enumerated.",
     ["src/geometry/aabb.rs", "src/kernel/predicates.rs"],
     [("per-axis comparisons", "Aabb from_points, union, intersects, intersects_approx; bbox2d, bbox3d")],
     ["results of the box functions"],
     "Exhaustive over all pairs of boxes on a 3x3 lattice plus seeded 3D boxes and point sets under exact affine maps.")

prop("C11", "Exact numbers do not depend on how they were evaluated",
     "Every value computed with an exact scalar type has the value that exact rational arithmetic gives, whatever sequence of operations built it and whatever questions were asked of it on the way. "
     "Every sign, zero test, comparison, minimum, maximum and absolute value of such a number answers for that exact value, equal numbers are equal and hash alike, and an interval of doubles offered for a number contains it. "
     "This includes values that differ by less than a double can resolve, values beyond the range of doubles, and zeros of either sign.",
     ["programs", "inputs"],
     "for every straight-line arithmetic program over exact leaves (integers, doubles, rationals), every interleaving of queries with construction, and every operand magnitude",
     "Unit tests evaluate a few fixed expressions whose doubles already decide the answer; the filter, caching and rebuilding paths depend on the history of operations and queries and on near-cancellation that fixed examples do not reach.",
     ["src/numeric/lazy_exact.rs", "src/numeric/cgar_rational.rs", "src/numeric/scalar.rs"],
     [("interval filter in front of exact evaluation", "LazyExact sign/compare paths, Ball arithmetic"),
      ("lazy expression graph with cached exact values", "LazyExact nodes, exact()")],
     ["sign, is_zero, is_positive, ...", "partial_cmp, cmp_ref, ==, <, <=, >, >=", "Hash", "exact value", "double_interval"],
     "TLC explores the ordered field Q(eps), generates random and exhaustive short programs over it with interleaved queries, and judges every recorded answer; infinitesimals are instantiated at eight magnitudes, so results hold for those.")

prop("C13", "Orientation is the sign of the exact determinant",
     "The orientation of three points in the plane or four points in space is the sign of the exact determinant of their coordinates: zero exactly when the points are collinear or coplanar, opposite after exchanging two points, unchanged by translation and positive scaling. "
     "This holds for every scalar type on coordinates that type represents exactly, including coincident and axis-aligned points.",
     ["inputs"], "for every point configuration, in 2D and 3D, and every scalar type whose arithmetic is exact on it",
     "The tests try a handful of generic configurations; degenerate and zero-pivot configurations form thin sets that have to be enumerated.",
     ["src/kernel/predicates.rs", "src/kernel/orientation.rs"],
     [("elimination with sign bookkeeping", "orient, orient2d")],
     ["orient in 2D and 3D", "orient2d"],
     "Exhaustive over small 2D and 3D lattices plus seeded degenerate-biased configurations under exact affine maps; the determinant laws are model checked.")

prop("C14", "Collinearity, on-segment and parameter answers are consistent and exact",
     "Equality of points, collinearity of three points, degeneracy of a triangle, membership of a point in a segment and the parameter of a point along a segment all answer for the exact configuration, in the plane and in space. "
     "Both end points belong to a segment, membership does not depend on the direction of the segment, and a parameter is offered exactly for points on the segment and reproduces the point.",
     ["inputs"], "for every point and non-degenerate segment in 2D and 3D and every scalar type exact on it",
     "Tests check one interior and one exterior point; end points, reversed segments, points on the supporting line but outside and axis-aligned cases need enumeration.",
     ["src/kernel/predicates.rs"],
     [("coordinate-wise ratio and sign tests", "is_point_on_segment, are_collinear, point_u_on_segment")],
     ["are_equal", "are_collinear", "triangle_is_degenerate", "is_point_on_segment", "point_u_on_segment"],
     "Exhaustive over small lattices plus seeded degenerate-biased configurations; each answer is recomputed by the specification.")

prop("C15", "Point against triangle: inside, edge, vertex or outside, exactly",
     "Classifying a point against a triangle in the plane, or against a triangle in space for a point of its plane, answers vertex, edge, inside or outside exactly as the geometry dictates, for either winding of the triangle and for every scalar type exact on the input.",
     ["inputs"], "for every triangle of either winding and every point of its plane",
     "Tests classify a few points of one triangle; the boundary cases and both windings of arbitrary triangles form a large case space.",
     ["src/kernel/predicates.rs"],
     [("signed area tests with edge and vertex cases", "point_in_or_on_triangle")],
     ["point_in_or_on_triangle"],
     "Exhaustive on the 3x3 lattice (all quadruples) plus seeded planar and spatial cases.")

prop("C16", "In-circle test is the sign of the exact determinant",
     "The in-circle test is positive exactly for points strictly inside the circle through a counter-clockwise triangle, zero on the circle and negative outside, and changes sign with the winding of the triangle, for every scalar type exact on the input. "
     "Only a determinant smaller than 1e-10 times the squared extent of the points may be rounded to zero.",
     ["inputs"], "for every four points of the plane",
     "Cocircular and degenerate quadruples are thin sets no example-based test covers.",
     ["src/kernel/predicates.rs"],
     [("lifted determinant", "incircle")],
     ["incircle"],
     "Exhaustive over all quadruples of the 3x3 lattice plus seeded cases; the tolerance of the implementation limits this to coordinates well above 1e-10.")

prop("C17", "Two segments intersect in exactly the point or overlap they share",
     "Intersecting two segments of the plane or of space reports nothing when they share no point, the one common point when they share one, and the whole common part when they overlap, with the exact coordinates and in every order and direction of the arguments.",
     ["inputs"], "for every pair of segments in 2D and 3D, including touching, collinear, parallel and skew ones, and every scalar type",
     "Tests cover proper crossings and one overlap; end-point contacts, partial overlaps in each direction and skew lines with crossing projections need the whole case space.",
     ["src/geometry/intersection.rs", "src/geometry/edge_edge_intersect.rs"],
     [("parametric solution with range tests", "segment_segment_intersection_2, edge_edge_intersection_2")],
     ["segment_segment_intersection_2/_3", "segment_intersect_2d", "edge_edge_intersection_2"],
     "Exhaustive over lattice segment pairs plus seeded degenerate-biased pairs; coordinates of results are compared exactly for exact types.")

prop("C18", "Two triangles intersect in exactly the set they share",
     "Intersecting two non-degenerate triangles in space reports nothing when they are disjoint, and otherwise the exact point, segment or coplanar contact they share, whatever the order of the triangles and of their corners. "
     "Each reported end point states on which corner, edge or interior of each triangle it lies and at which parameters, and that statement is true of the point.",
     ["inputs"], "for every pair of triangles in general and degenerate position, every vertex order and every scalar type",
     "Tests use a few pairs; the contact cases (corner-corner, corner-edge, edge-edge, corner-face, coplanar overlap) combine into far more situations than examples can list.",
     ["src/geometry/tri_tri_intersect.rs"],
     [("plane splitting and interval overlap on the common line", "tri_tri_intersection and its precomputed and detailed variants"),
      ("contact records per end point", "EndpointInfo, ContactOnTri")],
     ["tri_tri_intersection and its variants", "contact records"],
     "Exhaustive over a unit cube sample plus seeded contact-biased pairs; the intersection set and each contact record are recomputed by the specification in exact arithmetic.")

prop("C19", "The convex hull is the strictly convex cycle of the extreme points",
     "The convex hull of a planar point set is the counter-clockwise cycle of exactly its extreme points, each once, with no collinear or interior point, for every input order and with duplicate points.",
     ["inputs"], "for every finite planar point set that is not all on one line, with duplicates and collinear runs, and every order of presentation",
     "Tests use a square with an interior point; collinear boundary points, duplicates and permutations are not covered.",
     ["src/geometry/tri_tri_intersect.rs"],
     [("monotone chain over sorted points", "convex_hull_2d_indices")],
     ["hull output"],
     "Exhaustive over small lattice subsets plus seeded point sets with duplicates and collinear runs.")

prop("C21", "Triangulating points yields the Delaunay triangulation",
     "Triangulating a planar point set gives counter-clockwise triangles over the given points that cover exactly the convex hull without overlap, use every distinct position, and whose circumcircles hold no other point inside. "
     "Points on one line, repeated points and fewer than three points give no flat, repeated or overlapping triangles, and the answer does not depend on where the points lie or in which exact number type they are given.",
     ["inputs"], "for every planar point set, with collinear runs, cocircular groups and repeated points, in every order, at every offset and scale above the predicates' tolerance, every scalar type",
     "Tests triangulate a square; missing hull triangles, overlaps and wrong decisions far from the origin need particular sets.",
     ["src/operations/triangulation/delaunay.rs", "src/kernel/predicates.rs"],
     [("incremental insertion inside a super-triangle", "Delaunay::build"), ("approximate circumcircle in front of the exact one", "point_in_circumcircle_fast")],
     ["triangles and points of the result"],
     "The specification states covering, orientation and empty circles over integer points; flips between triangulations are model checked. All subsets of a 3x3 grid in TLC's order and random sets of up to nine points on a 13x13 grid are replayed for every scalar type at six placements.")

prop("C22", "Constrained triangulations contain their constraints",
     "Triangulating points with constraint edges that do not cross gives a triangulation of the whole hull in which every constraint is an edge, or a chain of edges where points lie on it. "
     "Triangulating several jobs at once gives for each job, in order, what triangulating it alone promises, and restricting the result to an outline keeps exactly the triangles inside it.",
     ["inputs"], "for every planar point set, every set of constraints that do not cross (including through points and along the hull), every list of jobs, every scalar type",
     "Tests insert one diagonal; constraints crossing many edges, passing through points or meeting reflex corners are not tried.",
     ["src/operations/triangulation/delaunay.rs"],
     [("walking and flipping across the constraint", "build_with_constraints_bowyer_watson"), ("collecting the triangles of a face", "build_batch_with_constraints_bowyer_watson, triangles_inside_for_job")],
     ["triangles of each job"],
     "Same generated sets as the unconstrained case with TLC-chosen constraints; every pair of every subset of a 3x3 grid is constrained in turn.")

prop("C23", "Union, intersection and difference of solids bound the right points",
     "Combining two closed solids by union, intersection or difference gives a closed, outward-facing surface that bounds exactly the points the operation names, also when faces, edges or corners of the two coincide, when one contains or misses the other, when one is empty or has cavities, and when results are combined again. "
     "The operands are cut where the surfaces meet and still bound what they did.",
     ["programs", "inputs"], "for every sequence of operations on closed solids whose results do not touch themselves along an edge or at a corner, every relative position of the operands and every number type",
     "Tests combine a few solids in general position and look at counts; the ways in which two surfaces can touch and the errors that only show in a later combination are not reached.",
     ["src/mesh_processing/boolean.rs", "src/mesh_processing/batching.rs", "src/operations/triangulation/delaunay.rs", "src/geometry/tri_tri_intersect.rs", "src/mesh/topology.rs"],
     [("intersection segments, retriangulated faces, region classification", "corefine_and_boolean")],
     ["result surface after each operation", "operand surfaces after each operation"],
     "Solids and operations are specified as sets of boxes; TLC checks laws of the specification, generates sequences of operations, and judges closedness, volume and winding around every box for the surfaces the real code returns.")

prop("C24", "Rays and point location agree with the region a mesh bounds",
     "A point is reported inside, outside or on a closed mesh exactly as it lies to the solid it bounds, wherever other faces, edges and corners are in line with it; a point in a planar mesh likewise. "
     "A ray reports a nearest hit with the right distance and the face, edge or corner it lies on, with parameters that reproduce the point, and reports a miss only when it meets nothing, whatever the length of its direction.",
     ["inputs"], "for every closed solid or planar region, every query point on, inside or outside it, and every ray from it, including rays through edges and corners and within faces",
     "Tests shoot a few rays at cubes and single triangles; rays through edges and corners, in the plane of faces, and tree traversal are special cases that only show for particular meshes.",
     ["src/mesh/topology.rs", "src/geometry/aabb_tree.rs", "src/mesh/core.rs"],
     [("tree traversal along rays, crossing parity, nearest hit", "point_in_mesh_3, point_in_mesh_2, cast_ray_3, cast_ray_2")],
     ["answers of point location and ray casting"],
     "Solids are specified as sets of cells; TLC checks that crossing parity, winding and cell membership agree in the specification, enumerates solids and judges every answer of the real code on a lattice of points and rays.")

prop("C25", "Smoothing and remeshing keep the surface",
     "Smoothing a vertex moves it the asked share of the way to the mean of its neighbours within the tangent plane, unless it lies on the border, an edge would exceed the given length or a triangle would turn over, and changes nothing else. "
     "Remeshing to a length leaves a well-formed surface of the same topology, inserts vertices exactly when edges are too long, keeps flat meshes flat and facing the same way, and every vertex is found at its position afterwards.",
     ["histories", "inputs", "configurations"], "for every connected manifold mesh reachable by edits, every vertex, share and length limit, every target length and number of rounds",
     "One test remeshes a file that is not in the repository; turned-over triangles, stale lookups and collapsed closed surfaces show only for particular neighbourhoods.",
     ["src/mesh_processing/remesh.rs", "src/mesh/core.rs", "src/mesh/edge_collapse.rs", "src/mesh/spatial_hash.rs"],
     [("moving a vertex", "smooth_tangential, smooth_vertices"), ("rounds of splits, collapses, flips and smoothing", "isotropic_remesh")],
     ["answer and position for each smoothing step", "half-edge structure, positions and vertex lookup after remeshing"],
     "The place a vertex moves to and the refusals are specified in exact wide integers with laws model checked; TLC generates meshes by edit histories and judges each smoothing step, and the mesh left by remeshing against surface invariants because the order of collapses is not determined.")

prop("C26", "A mesh survives being written to a file and read back",
     "Writing a mesh and reading it back yields the same positions and the same oriented triangles, in formats with numbered vertices in the same order. "
     "The file holds exactly that mesh for any other reader of the format, removed vertices and faces leave no trace, and facet normals have the direction of their triangles.",
     ["histories", "inputs"], "for every mesh reachable by edits, with removed vertices and faces, in every supported format, every scalar type",
     "Tests write fresh meshes; renumbering past removed elements shows only for edited ones.",
     ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
     [("writers that renumber live vertices", "write_obj, write_off, write_stl"), ("readers", "read_obj, read_off, read_stl")],
     ["bytes of the file as parsed by an independent reader", "mesh read back"],
     "TLC generates edit histories; each mesh is written in every format, parsed independently and read back. The round trip of the specified writers and readers is model checked.")

prop("C27", "Reading a file gives the mesh it describes or an error",
     "Reading a well-formed OBJ, OFF or STL document gives exactly the mesh it describes, whatever its comments, blank lines, spacing and extra attributes. "
     "Reading a document that holds less than it announces, names vertices that do not exist, repeats a corner of a face, or has text, nothing or infinite values where numbers belong gives an error: no crash, no half-read mesh.",
     ["inputs", "fault_sequences"], "for every document in the three formats, whole, cut at any line, with tokens dropped, doubled or replaced, and for files that are not text",
     "Tests read well-formed files; each malformed place is a separate case.",
     ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
     [("line and token parsing with bounds checks", "read_obj, read_off, read_stl")],
     ["error or mesh for each document"],
     "The formats are specified as token documents; TLC generates well-formed documents, damages them in up to three places and the real readers are judged against the specified reading.")

prop("C12", "Moving a number between the scalar types keeps its value",
     "Converting a number from one scalar type to another, by value, by reference or inside a point, vector or matrix, keeps its value when the target can hold it; a double that has to stand for another number is one of its two neighbours. "
     "Conversions to whole numbers drop the fraction, or say that the number does not fit. "
     "The interval of doubles a number reports contains it.",
     ["programs", "inputs"], "for every number within the range of doubles and every chain of conversions between the scalar types",
     "Tests convert a few small numbers; losses show for whole numbers beyond 2^53, fractions without a finite binary form and long chains.",
     ["src/numeric/cgar_f64.rs", "src/numeric/cgar_rational.rs", "src/numeric/lazy_exact.rs", "src/numeric/scalar.rs", "src/geometry/point.rs", "src/geometry/vector.rs"],
     [("conversions between scalar types", "From and RefInto implementations, ToPrimitive, double_interval"), ("casting of points and vectors", "cast methods")],
     ["exact value of the number after each conversion", "answers of conversions to whole numbers and intervals"],
     "Faithful rounding is specified over whole numbers and model checked on a small format; TLC enumerates chains of conversions, the real code runs them on seeded numbers and TLC judges each step in wide integers.")

prop("C20", "Vector, matrix, plane and segment arithmetic is exact",
     "Sums, multiples, products, lengths, determinants and inverses of vectors and matrices have the values of their definitions, with an inverse exactly for regular matrices. "
     "Planes through points contain them, their canonical forms and hashes are equal exactly for equal planes, and their bases span them right-handed. "
     "Middles, parameters, canonical edges, boxes and barycentric weights of segments and triangles have the values of their definitions.",
     ["inputs"], "for all vectors, matrices, planes, segments and triangles, every scalar type",
     "Tests use a few axis-aligned values in which wrong components, signs and orders cancel.",
     ["src/geometry/vector.rs", "src/geometry/point.rs", "src/geometry/matrix.rs", "src/geometry/plane.rs", "src/geometry/segment.rs", "src/geometry/canonical_edge.rs", "src/geometry/util.rs"],
     [("component-wise arithmetic", "operators and VectorOps"), ("normal forms", "Plane::canonicalized, canonical edges")],
     ["every result, as an exact rational in lattice units"],
     "The operations are specified over whole numbers and their laws (distributivity, cofactor expansion, inverse, canonical forms) are model checked; recorded results of the real code on exhaustive and seeded lattice data are judged by TLC.")

prop("C30", "Measures of faces and edges follow from the current corners",
     "Whatever edits led to a mesh, the normal, plane, centroid, area (its square in space) and bounding box it reports for a face are those of the triangle its corners form now, oriented as the face is. "
     "The segment of an edge runs between its ends in its direction, and a point is on the edge, at the reported share of the way, exactly when it lies on that segment.",
     ["histories", "inputs"], "for every mesh reachable by edits, every face and edge, points on, beside and beyond the edge, every scalar type",
     "Tests measure single fresh triangles; wrong corners and orders show only after edits moved the start of a face or reused slots.",
     ["src/mesh/topology.rs", "src/mesh/core.rs"],
     [("measures from the corners of a face", "face_normal, plane_from_face, face_centroid, face_area, face_aabb, area2x4_after_move"), ("measures along an edge", "segment_from_half_edge, point_on_half_edge")],
     ["normal, plane, centroid, area and box of every face", "segment and parameters of edges"],
     "The measures are specified as functions of corner positions and their laws (no dependence on the first corner, zero net normal of closed surfaces, additivity under splits) are model checked over edit histories; TLC generates histories and judges what the real mesh reports afterwards.")



def main():
    from plan import PLAN

    P.sort(key=lambda p: p["rec"]["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in P:
        i = p["rec"]["id"]
        if i in PLAN:
            checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i,
                           "technique": PLAN[i].get("technique", "TLA+ specification checked by TLC, conformance of recorded calls of the real code"),
                           "level": "model_checking", "level_note": p["note"], "evidence_file": "evidence/%s.json" % i})
    m = {"version": 1, "setup_cmd": "bin/check --setup",
         "hooks": HOOKS, "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "TLA+ with TLC. bin/plan.py lists the stages of each check; KNOWN_FINDINGS.txt the findings."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


HOOKS = {"guard": "none needed so far", "enable": "the harness crate links the library as built from the working tree", "source_commits": []}
NOT_APPLICABLE = []

if __name__ == "__main__":
    main()
