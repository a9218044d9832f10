#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Free-form curve evaluation equals the mathematical curve",
  "For every Bezier or B-spline curve, polynomial or rational (weighted), evaluating it at a parameter of its domain returns the point of the curve its degree, knots, control points and weights define. At a knot the value is the limit from the right (at the last knot, from the left), so the curve is interpolated at clamped ends; for a clamped curve, parameters outside the domain continue the first or last polynomial piece.",
  ["inputs"], "every degree, control polygon, weight set, knot vector (any multiplicities, clamped or not, unnormalised) and parameter value",
  "the tests evaluate one cubic Bernstein basis at one value and one Bezier knot vector at three; interior knots, multiplicities, unclamped vectors, weights and every other degree are never compared with a value",
  ["src/basis.rs", "src/knot.rs", "src/curve/bezier.rs", "src/curve/bspline.rs"],
  [("bernstein", "src/basis.rs"), ("KnotVector::span_index, bspline_basis", "src/knot.rs"), ("Curve::get_point", "src/curve/bezier.rs, src/curve/bspline.rs")],
  observe=["Curve::get_point"])
p("C02", "Free-form surface evaluation equals the tensor-product surface",
  "For every Bezier or B-spline surface, polynomial or rational, evaluating it at (u, v) returns the tensor-product point its degrees, knot vectors, control net and weights define, where rows of the net belong to u and columns to v. Surfaces built with uniform clamped knots interpolate the four corners of the control net over the parameter square [0,1]x[0,1].",
  ["inputs"], "every pair of degrees, net size (square or not), weights, knot vectors and parameters",
  "no test evaluates a free-form surface at all",
  ["src/surface/bezier.rs", "src/surface/bspline.rs", "src/knot.rs", "src/basis.rs"],
  [("Surface::get_point", "src/surface/bezier.rs, src/surface/bspline.rs"), ("BSplineSurface::uniform_clamped", "src/surface/bspline.rs")],
  observe=["Surface::get_point"])
p("C03", "Derivative curves and surfaces are the true derivatives",
  "The derivative of a Bezier or B-spline curve is again such a curve, one degree lower, and at every parameter of the domain its value is the derivative of the original curve (one-sided at knots, in the same way as evaluation). The same holds for the u- and v-derivatives of a B-spline surface, for second and mixed derivatives obtained by repeating the operation, and the derivative with respect to a direction of degree 0 is zero.",
  ["inputs"], "every degree, control polygon or net, knot vector and parameter, and every order of repeated differentiation up to the degree",
  "no test looks at a derivative; they are only used inside projection",
  ["src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs", "src/knot.rs"],
  [("derivative", "src/curve/bezier.rs, src/curve/bspline.rs"), ("derivative_u, derivative_v", "src/surface/bspline.rs"), ("shrink, spans", "src/knot.rs")],
  observe=["get_point of the derivative object"])
p("C04", "Knot insertion, splitting and Bezier conversion preserve the curve",
  "Whatever sequence of knot insertions, clampings and splits is applied to a B-spline curve, the resulting curve or pieces together describe exactly the same parametric curve over the same domain. Inserting adds exactly one knot and one control point; clamping makes both end knots' multiplicity degree+1; splitting at t gives two clamped-at-t curves covering the parts before and after t; conversion to Bezier form gives one curve of the same degree per non-empty knot span, in order.",
  ["histories", "inputs"], "every B-spline curve and every finite sequence of edits on it, with parameters on and between existing knots, at the ends, and repeated",
  "no test inserts a knot, splits, clamps or converts a curve; the result depends on the whole edit history",
  ["src/curve/bspline.rs", "src/knot.rs"],
  [("add_knot, split, clamp, to_piecewise_bezier", "src/curve/bspline.rs"), ("KnotVector::add_knot, multiplicity, span_index", "src/knot.rs")],
  state=[("knots, control_points, degree", "the curve being edited", "BSplineCurve")],
  observe=["fields of BSplineCurve after each edit", "Curve::get_point of the pieces"])
p("C05", "Knot vectors keep their algebra",
  "Basis functions at a parameter of the domain are non-negative, sum to one, and vanish away from the spans that contain the parameter; there is one per control point. Constructors, normalisation, dropping end knots, sub-ranges, range, multiplicity and insertion behave as the operations on the sorted multiset of knots: insertion keeps the order and returns the position of the new knot, normalisation maps the range affinely onto [0,1], and the span found for a parameter is the non-empty half-open interval that contains it (the last one for the end).",
  ["inputs", "histories"], "every sorted knot vector (any values, multiplicities, degrees) and parameter, and every sequence of insertions",
  "the tests look at three values of one cubic Bezier basis and two constructors",
  ["src/knot.rs"],
  [("KnotVector methods", "src/knot.rs")], observe=["public KnotVector API"])
p("C06", "Lines, circles and polylines evaluate to their definition",
  "A line at parameter u is origin plus u times its direction; a circle at angle a is the centre plus radius times the reference direction rotated by a about the axis, counter-clockwise seen from the axis tip; a polyline at t in [0,1] is the point at that fraction of its total length, its ends for t outside, also when some or all of its vertices coincide. Evaluation never fails on a valid curve, and evaluation through a boxed curve gives the same result.",
  ["inputs"], "every line, circle (any orthonormal frame), polyline (any number of vertices, repeated vertices included) and parameter",
  "tests only print points of one circle; polyline evaluation can fail by rounding just below t = 1, which no sample hits",
  ["src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve.rs"],
  [("Curve::get_point", "src/curve/line.rs, circle.rs, polyline.rs"), ("impl Curve for Box<dyn Curve>", "src/curve.rs")], observe=["Curve::get_point"])
p("C07", "Projection onto lines, circles and polylines finds a nearest point",
  "The parameter returned for a point is one at which the line, circle, polyline or degree-1 Bezier/B-spline curve is nearest to that point: no other point of the curve is closer. For a circle the parameter is an angle in [0, 2pi); for a polyline it is a fraction in [0,1]; for a degree-1 spline it is a parameter of its knot range; projecting a point of the curve gives back that point.",
  ["inputs"], "every such curve (any direction length, any vertices, uneven segments and knots) and every point of space",
  "tests print two or three projections and compare none of them",
  ["src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/utils.rs"],
  [("Curve::project", "src/curve/*.rs"), ("distance_to_line_segment", "src/utils.rs")], observe=["Curve::project followed by Curve::get_point"])
p("C08", "Projection onto free-form curves and surfaces never loses a better sample",
  "Projecting a point onto a Bezier or B-spline curve or surface returns parameters inside the parameter domain whose point is at least as close as every point of the library's own initial uniform sampling, up to its convergence tolerance. Projecting a point that lies on a regular curve or surface comes back to that point.",
  ["inputs"], "every free-form curve or surface of degree at least 2 and every point of space",
  "one test prints a degree-1 projection; the iteration's convergence depends on the shape and the starting sample",
  ["src/utils.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs"],
  [("find_nearest_parameter", "src/utils.rs"), ("project_points", "src/surface/bspline.rs"), ("clamp_in_range", "src/utils.rs")], observe=["Curve::project", "BSplineSurface::project_points"])
p("C09", "Planes, cylinders, spin, sweep and umbrella surfaces and their inverses",
  "A plane at (u,v) is origin + u*u_axis + v*v_axis; a cylinder at (length, angle), a spin surface at (section parameter, angle), a sweep surface and the umbrella surface are the points their construction defines, with rotation counter-clockwise about the axis. Projection to plane or cylinder parameters inverts evaluation (angles in [0, 2pi)), and lifting a cylinder point from its ring image inverts the projection to the ring.",
  ["inputs"], "every frame, radius, section and path curve, and every parameter and projection distance",
  "one test round-trips the ring projection of one cylinder; everything else only produces files",
  ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs"],
  [("Surface::get_point, project, project_to_ring, generate_point_from_ring", "src/surface/*.rs")], observe=["Surface::get_point", "Plane::project", "Cylinder::project"])
p("C10", "Curve sampling starts and ends at the range, in order and within tolerance",
  "Uniform division of a range into n parts returns n+1 equally spaced values from exactly the first to exactly the second end, in either direction. Adaptive sampling of a curve segment, even of a curve with jumps, returns points of the curve at strictly monotone parameters from exactly the start to exactly the end of its range, only ever bisecting it; the polyline it gives stays within the tolerance of the curve for parabolas and arcs, and within a small multiple of it for curves whose pieces bend to one side. For an arc of a circle the refined range runs from the first to the second angle in the given sense, at most one turn, and a full turn when the two angles coincide.",
  ["inputs", "schedules"], "every range (either direction), division count, curve, tolerance, and every value of the random probe the sampler draws",
  "doc tests divide two ranges; adaptive sampling is random and only printed",
  ["src/utils.rs", "src/curve.rs", "src/curve/circle.rs"],
  [("uniform_divide, parameter_division", "src/utils.rs"), ("CurveSegment::get_points", "src/curve.rs"), ("refine_parameter_range", "src/curve/circle.rs, src/curve.rs")],
  state=[("pending sub-range, emitted parameters", "recursive bisection", "parameter_division")], observe=["uniform_divide", "parameter_division", "CurveSegment::get_points", "refine_parameter_range"])
p("C11", "A surface patch is meshed as a complete, consistently oriented grid",
  "Meshing a patch with n x m divisions gives the (n+1)(m+1) grid points of the surface at the uniformly divided parameters, row by row in u, and exactly 2nm triangles that split every grid cell into two. Every inner grid edge is used by exactly two triangles in opposite directions, every boundary edge once, all triangles turn from u towards v, and every index is in range.",
  ["inputs", "configurations"], "every surface, parameter rectangle (either direction) and division count from 1 up",
  "tests write two meshes to files without looking at them",
  ["src/face.rs", "src/mesh.rs", "src/surface.rs", "src/utils.rs"],
  [("Face for SurfacePatch", "src/face.rs"), ("create_triangles", "src/mesh.rs"), ("get_point_grid", "src/surface.rs")], observe=["Face::get_triangle_mesh", "SurfacePatch::get_point_grid"])
p("C12", "Patch normals are unit surface normals, one per vertex",
  "For a surface that provides normals, the mesh of a patch has one normal per vertex, in vertex order, also when the surface is used through a boxed surface; where the two partial derivatives are independent it is their normalised cross product. Where the normal is undefined it takes the value of a grid neighbour that has one, and a surface that provides no normals gives a mesh without normals.",
  ["inputs", "configurations"], "every B-spline surface (with degenerate edges and points), patch and division, boxed or not",
  "no test asks for normals",
  ["src/face.rs", "src/surface.rs", "src/surface/bspline.rs"],
  [("get_normals", "src/surface/bspline.rs, src/surface.rs"), ("NaN filling", "src/face.rs")], observe=["TriangleMesh.normals", "Surface::get_normals"])
p("C13", "Planar predicates and nearest-point helpers are exact up to rounding",
  "Distance to a segment (2D and 3D) is the Euclidean distance to the nearest point of the closed segment; the triangle test accepts exactly the points of the closed counter-clockwise triangle (within the tolerance); polygon orientation is the sign of its area; vertex convexity classes are those of the turn at each vertex. Nearest-point searches return the first index with the least distance, and range clamping, interpolation, least and greatest keys, reciprocals and closeness are what they say, whatever the signs and sizes.",
  ["inputs"], "every argument: degenerate segments, points on edges and vertices, any polygon, point set or grid",
  "tests print the results of two predicates on one input each",
  ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs"],
  [("distance_to_line_segment, find_nearest_point(_in_grid), clamp_in_range, range_at, get_min_max_by_key", "src/utils.rs"), ("Point trait", "src/utils/point.rs"), ("is_polygon_counter_clockwise, compute_vertex_convexity", "src/utils/polygon.rs")], observe=["geom3d::utils"])
p("C14", "A planar face bounded by one loop is triangulated exactly",
  "Trimming a plane with one counter-clockwise simple polygon gives a mesh whose triangles all face along the plane's normal, do not overlap, and together cover exactly the inside of the polygon: their areas add up to its area and their outer boundary is the polygon. All polygon vertices keep their positions and order in the vertex list; a clockwise convex loop gives an empty mesh.",
  ["inputs"], "every simple polygon (convex or not, with collinear vertices, any start vertex) in every plane",
  "no test trims a plane; ear clipping goes wrong only for particular sequences of clipped ears",
  ["src/surface/plane.rs", "src/utils/polygon.rs", "src/surface.rs"],
  [("Plane::trim", "src/surface/plane.rs"), ("trianglate_polygon, compute_vertex_convexity", "src/utils/polygon.rs")],
  state=[("remaining ring, concave set", "polygon still to be clipped", "trianglate_polygon")], observe=["TriangleMesh from Surface::trim"])
p("C15", "A planar face with holes is triangulated exactly, whatever the loop order",
  "Trimming a plane with one counter-clockwise outer polygon and any number of disjoint clockwise hole polygons inside it gives triangles that all face along the normal, do not overlap, and cover exactly the outer polygon minus the holes. The result does not depend on the order in which the loops are listed, and loops without edges or without extent count for nothing.",
  ["inputs", "configurations"], "every outer polygon with every arrangement and number of holes (also concave holes, holes hidden behind others), in every loop order",
  "no test has a hole",
  ["src/surface/plane.rs", "src/utils/polygon.rs"],
  [("merge_polygons, merge_two_polygons, find_concave_vertices, trianglate_polygon", "src/utils/polygon.rs"), ("Plane::trim", "src/surface/plane.rs")],
  state=[("merged ring", "outer loop with the holes bridged in so far", "merge_polygons")], observe=["TriangleMesh from Surface::trim"])
p("C16", "Advancing-front meshing fills the region and keeps its boundary",
  "Meshing a region given by a counter-clockwise outer loop and clockwise inner loops terminates with a mesh that keeps the given vertices first and unchanged, uses every boundary edge exactly once in the given direction and every other edge exactly twice in opposite directions. All triangles are counter-clockwise and their areas add up to the area of the region, so they tile it without gap or overlap.",
  ["inputs", "histories"], "every simple region (convex, concave, with holes, long and short edges) and the whole sequence of front updates it causes",
  "the tests mesh three polygons into files without checking them; the front is rebuilt at every step",
  ["src/utils/meshgen.rs", "src/utils/point.rs"],
  [("generate_triangular_mesh, find_intersection_with_front, shape_factor, is_segments_intersect", "src/utils/meshgen.rs")],
  state=[("front", "oriented edges between meshed and unmeshed area", "generate_triangular_mesh")], observe=["generate_triangular_mesh"])
p("C17", "Trimmed cylinders and B-spline surfaces are meshed on the surface",
  "Trimming a cylinder or a B-spline surface with an edge loop, or with an outer loop and holes, gives a connected mesh whose boundary is the sampled loops, whose every vertex lies on the surface, and whose triangles cover the trimmed region once and all face the same side: the one from which the loop is seen counter-clockwise. No file is written and no loop direction, start vertex or position along the axis makes it fail.",
  ["inputs", "configurations"], "every cylinder frame, every loop or set of loops around or on its side (any offset along the axis), and every regular B-spline patch region",
  "one test meshes the ring image of a half cylinder by hand; trim itself is never called",
  ["src/surface/cylinder.rs", "src/surface/bspline.rs", "src/utils/meshgen.rs"],
  [("Cylinder::trim", "src/surface/cylinder.rs"), ("BSplineSurface::trim", "src/surface/bspline.rs"), ("reverse_winding_direction", "src/mesh.rs")], observe=["TriangleMesh from Surface::trim"])
p("C18", "OBJ export contains exactly the model's geometry",
  "A mesh or model saved as OBJ, read back, gives every vertex and normal of every face with bit-identical coordinates, in order, and every triangle in order with the same winding. Indices are one-based and shifted by the vertices and normals written before, so every face of a model refers to its own vertices, whatever mix of faces with and without normals or triangles precedes it.",
  ["inputs", "histories"], "every sequence of faces added to a model, with any vertex, normal and triangle counts and any finite coordinates",
  "tests write OBJ files but never read one; none has two faces or normals",
  ["src/mesh.rs", "src/model.rs"],
  [("write_obj, save_as_obj", "src/mesh.rs"), ("Model::save_as_obj", "src/model.rs")],
  state=[("vertex_start, normal_start", "index offsets", "Model::save_as_obj")], observe=["the OBJ file"])
p("C19", "STL export is a well-formed binary file with every triangle once",
  "A model saved as STL is a binary file of exactly 84 + 50n bytes: an 80-byte header, the count n of triangles of all faces together, and for each triangle, in order, a normal, its three corners as single-precision coordinates in winding order and a zero attribute count. This holds for every file name and every number of faces, including none.",
  ["inputs", "histories", "configurations"], "every sequence of faces, every mesh, every output file name",
  "no test saves an STL file",
  ["src/model.rs", "src/mesh.rs"],
  [("Model::save_as_stl", "src/model.rs")], observe=["the STL file"])
p("C20", "SVG export draws every curve of the model",
  "Saving as SVG writes one path per composite curve, in order, that draws the x/y image of its segments, each over its parameter range and from its start to its end: lines and polylines by their vertices, cubic B-splines by their exact Bezier pieces, other curves by their samples, all rounded to two decimals. The page has the requested size in millimetres and the y axis is flipped about exactly the page height.",
  ["inputs", "histories"], "every list of composite curves with every mix, order and number of segment kinds, every page size",
  "one example writes an SVG; nothing is checked",
  ["src/model.rs", "src/curve/bspline.rs"],
  [("Model::save_as_svg", "src/model.rs")],
  state=[("path data", "pen position and current drawing command", "save_as_svg")], observe=["the SVG file"])
p("C21", "Point-cloud files round-trip and bad input is an error, not a crash",
  "Saving points (scaled beforehand or not) and loading the file gives back exactly the same points in the same order; files with normals or 2D points contain every value exactly. Loading accepts three coordinates, or four columns of which the first is skipped, separated by any mix of spaces, commas and tabs, skips comment lines and lines with other column counts, and reports malformed numbers or a missing file as an error.",
  ["inputs", "histories"], "every list of finite points and every text file",
  "a test saves one cloud and never loads it",
  ["src/points.rs"],
  [("load_point_cloud, save_point_cloud, save_point_cloud_with_normal, save_points, scale_points", "src/points.rs")], observe=["returned points", "file contents"])
p("C22", "STEP geometry is imported as the standard defines it",
  "Curves and surfaces read from a STEP file are the ones the file describes: lines, circles, polylines, B-spline curves, planes, cylinders, Bezier and (rational) B-spline surfaces and surfaces of revolution, with their control points, weights, knots, multiplicities and placements. Optional placement directions get their defaults, directions are normalised, a line's parameter is scaled by its vector, and unsupported geometry is skipped without losing the rest of the file.",
  ["inputs", "configurations"], "every well-formed file with supported entities, in any entity order and with any values, directions of any length, optional attributes absent",
  "no test reads a STEP file",
  ["src/model/step_reader.rs"],
  [("extract_curve, extract_surface, axis2_placement_3d, extract_knot_vector", "src/model/step_reader.rs")], observe=["Model.faces surfaces and Model.curves after StepReader::read_model"])
p("C23", "STEP topology is imported completely and with its orientations",
  "Every advanced face with a supported surface becomes one face of the model with all its bounds, outer bounds included, and every composite curve one curve with all its trimmed segments. Each bound's edges form a closed chain in the order and direction given by the edge, oriented-edge and bound orientation flags, each running from its start to its end vertex along its curve in the given sense. Planar faces of the file therefore mesh to the region they describe.",
  ["inputs", "configurations"], "every combination of same_sense, edge orientation and bound orientation flags, edge counts, bounds and composite curves",
  "no test reads a STEP file",
  ["src/model/step_reader.rs", "src/surface.rs", "src/curve/circle.rs"],
  [("extract_edge_curve, read_model, extract_curve_segment", "src/model/step_reader.rs")], observe=["Model.faces bounds and meshes", "Model.curves"])
p("C24", "An edge loop becomes a closed polygon without repeated vertices",
  "The polygon of an edge loop visits the samples of its edges in order, each edge from its start to its end, and contains no two cyclically adjacent vertices that coincide within the tolerance: where one edge ends and the next begins, and where the last edge meets the first, the shared vertex appears once. No sample other than such duplicates is dropped, and an empty loop gives an empty polygon.",
  ["inputs", "histories"], "every list of edges of every curve kind and direction, including one closed edge, edges shorter than the tolerance and no edge at all",
  "no test builds an edge loop",
  ["src/surface.rs", "src/curve.rs"],
  [("EdgeLoop::to_polygon", "src/surface.rs")], observe=["EdgeLoop::to_polygon"])

p("C25", "An imported solid is exported as the closed surface around it",
  "Reading a STEP file that describes a solid bounded by planar and cylindrical faces and saving the model as OBJ or STL gives a closed surface: every edge of a triangle is met by another triangle in the opposite direction, except along curved edges, which neighbouring faces may divide differently. The triangles face outwards and enclose the volume of the solid. This holds whatever the edge, bound and face orientation flags of the file and the order of its entities, for solids with holes, pockets, bosses and voids and for several solids at once.",
  ["inputs", "configurations"], "every solid of planar and cylindrical faces meeting at straight edges and arcs, in every way its edges and bounds can be oriented in the file",
  "no test reads a STEP file or looks at an exported file",
  ["src/model/step_reader.rs", "src/model.rs", "src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface.rs"],
  [("read_model", "src/model/step_reader.rs"), ("save_as_obj, save_as_stl", "src/model.rs"), ("Plane::trim", "src/surface/plane.rs"), ("Cylinder::trim", "src/surface/cylinder.rs"), ("EdgeLoop::to_polygon", "src/surface.rs")], observe=["the OBJ and STL files"])
p("C26", "A save that reports success has written the whole file",
  "Every export (OBJ of a mesh, a model or a boundary polygon, STL, SVG, point clouds with or without normals, 2D points) that returns success has written all of its file, byte for byte what it writes when nothing is in its way. When the destination cannot be created (a missing folder, a folder, a path without a file name) or becomes full after any number of bytes, the call returns an error; it does not panic, and with room enough it succeeds, also after an earlier failure and over an older file. Loading a point cloud or STEP file that cannot be opened is an error as well.",
  ["inputs", "fault_sequences"], "every content to save and every byte after which the device is full",
  "tests only write to places that work",
  ["src/points.rs", "src/mesh.rs", "src/model.rs", "src/surface/bspline.rs", "src/model/step_reader.rs"],
  [("save_point_cloud, save_point_cloud_with_normal, save_points, load_point_cloud", "src/points.rs"), ("save_as_obj, write_obj", "src/mesh.rs"), ("save_as_stl, save_as_obj, save_as_svg", "src/model.rs"), ("save_bound_as_obj", "src/surface/bspline.rs"), ("read_model", "src/model/step_reader.rs")], observe=["the saved files and returned results under a file size limit"])

p("C27", "Answers depend on the geometry alone; queries and saves change nothing else",
  "What a query returns or a save writes is a function of the data of the object and the arguments alone: asking again, asking a clone or an equal object built afresh, in another order, after other queries, edits or saves of this or other objects, in a batch or alone, or in another thread at the same time, gives bit-wise the same answer (queries that sample at random excepted). Queries and saves leave the object and every other object as they were, clones are independent of their originals under edits, and a save leaves in the file system exactly the file it was asked to write.",
  ["histories", "schedules", "inputs"], "every sequence of constructions, clones, edits, queries, saves and loads on any number of objects, and every interleaving of such sequences on separate objects in several threads",
  "every test asks one question of one fresh object; anything remembered between calls, or shared between objects or threads, only shows in histories and schedules",
  ["src/knot.rs", "src/curve", "src/surface", "src/mesh.rs", "src/model.rs", "src/points.rs"],
  [("get_point, derivative, project, normal_at, project_points", "src/curve, src/surface"), ("add_knot, clamp, insert, normalize", "src/knot.rs, src/curve/bspline.rs"), ("TrimmedSurface::get_triangle_mesh", "src/surface"), ("save_as_obj, save_as_stl, save_as_svg, write_obj", "src/mesh.rs, src/model.rs"), ("save_point_cloud, load_point_cloud", "src/points.rs")],
  state=[("data", "the public data of every object", "all modules"), ("files", "the files in the folder worked in", "src/model.rs, src/mesh.rs, src/points.rs")],
  observe=["returned values, public data and the folder, over whole sessions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        n = d["statement"].replace("2pi).", "2pi)").count(". ") + 1
        assert n <= 3, (d["id"], n)
        f.write(json.dumps(d) + "\n")
