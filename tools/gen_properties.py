#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("G01", "Bezier curves evaluate to the Bernstein blend of their control points",
     "For every control polygon and every parameter in [0,1], a Bezier curve (plain or rational) evaluates to the Bernstein-weighted combination of its control points: it starts at the first control point, ends at the last, stays inside the coordinate bounds of the control points, is unchanged by affine maps of the control points, and a rational curve with equal positive weights equals the plain curve. All results are up to floating-point rounding.",
     ["inputs"], "all control points and parameters, degrees 1 to 5",
     "test_bernstein evaluates one parameter of one degree; Bezier curve evaluation itself has no test.",
     ["src/basis.rs", "src/curve/bezier.rs"], [("Bernstein recurrence", "src/basis.rs:bernstein"), ("weighted sum / homogeneous divide", "src/curve/bezier.rs:get_point")],
     ["BezierCurve::get_point"])
prop("G02", "B-spline basis: locality, non-negativity, partition of unity",
     "For every non-decreasing clamped knot vector, degree and parameter in its range (both ends included), the basis has one value per control point, all values are non-negative, they sum to 1, only the degree+1 functions whose support contains the parameter are non-zero, and the values equal the Cox-de Boor recursion. Consequently a clamped B-spline curve starts at its first and ends at its last control point and stays inside the coordinate bounds of its control points.",
     ["inputs"], "all clamped knot vectors with possibly repeated interior knots, all parameters, degrees 1 to 3",
     "test_bspline_basis looks at three parameters of one Bezier knot vector; interior and repeated knots are never evaluated.",
     ["src/knot.rs", "src/curve/bspline.rs"], [("span search", "src/knot.rs:span_index"), ("triangular recurrence", "src/knot.rs:bspline_basis")],
     ["KnotVector::bspline_basis", "BSplineCurve::get_point"])
json_path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")

prop("G03", "Derivative curves and surfaces are the true derivatives",
     "For every Bezier or B-spline curve or B-spline surface and every parameter, the object returned by derivative / derivative_u / derivative_v has the documented degree and control-point count and evaluates to the derivative of the original with respect to that parameter (one-sided at knots), also when knots are repeated or the parameter range is not [0,1]. The degree is at least 1.",
     ["inputs"], "all control points, parameters and knot positions; Bezier degrees 1 to 6, B-spline curves 1 to 4, surfaces 1 to 2",
     "No test calls a derivative.",
     ["src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs", "src/knot.rs"],
     [("differenced control points", "src/curve/bezier.rs:derivative"), ("knot spans", "src/knot.rs:spans"), ("derivative_u / derivative_v", "src/surface/bspline.rs")],
     ["BezierCurve::derivative", "BSplineCurve::derivative", "BSplineSurface::derivative_u", "BSplineSurface::derivative_v"])
prop("G04", "Knot insertion, splitting, clamping and Bezier conversion keep the shape",
     "Inserting a knot, splitting at an interior parameter, clamping, or converting to Bezier pieces never changes the curve: every point of the original is reproduced at the same parameter (at the affinely corresponding parameter for Bezier pieces), the pieces join end to end, knots stay sorted, and the knot count stays equal to control points + degree + 1. This holds for clamped and unclamped knot vectors (inner multiplicities up to the degree) and for parameters that coincide with existing knots or lie at least 0.001 from each, without panicking.",
     ["inputs"], "all control points, insertion/split parameters and evaluation parameters; degrees 1 to 3; clamped, repeated and unclamped knot vectors",
     "No test inserts a knot, splits, clamps or converts.",
     ["src/curve/bspline.rs", "src/knot.rs"],
     [("Boehm insertion", "src/curve/bspline.rs:add_knot"), ("split", "src/curve/bspline.rs:split"), ("clamp", "src/curve/bspline.rs:clamp"), ("to_piecewise_bezier", "src/curve/bspline.rs:to_piecewise_bezier")],
     ["BSplineCurve::add_knot", "BSplineCurve::split", "BSplineCurve::clamp", "BSplineCurve::to_piecewise_bezier", "KnotVector::add_knot"])
prop("G05", "Knot vector operations are consistent",
     "For every non-decreasing knot vector and every parameter in its range, the span index names a non-empty span containing the parameter (the last non-empty one at the end), multiplicities count equal knots, inserting keeps the vector sorted and reports the new knot's position, normalising maps the range affinely onto [0,1] preserving order, and building from values and multiplicities repeats each value exactly its multiplicity in order.",
     ["inputs"], "all knot vectors of up to 7 knots with gaps of zero or at least 1/8, all parameters",
     "Doc tests build two uniform vectors; searching, inserting, normalising and repetition are untested.",
     ["src/knot.rs"], [("span search", "src/knot.rs:span_index"), ("multiplicity", "src/knot.rs:multiplicity"), ("insertion", "src/knot.rs:add_knot"), ("normalize", "src/knot.rs:normalize")],
     ["KnotVector"])
prop("G06", "Projecting onto lines, polylines and circles finds the nearest point",
     "For a line (any non-zero direction), a polyline (including repeated vertices), a degree-1 Bezier or B-spline curve, and a circle, the parameter returned by projecting a point lies in the curve's parameter range and evaluates to a point that is at least as close to the given point as every other point of the curve. Projecting a point of the curve therefore returns to that point.",
     ["inputs"], "all points and curve positions; polylines of up to 4 vertices; circles in a set of orthonormal frames",
     "test_circle and test_bspline_curve only print projected parameters; no assertion on any projection.",
     ["src/curve/line.rs", "src/curve/polyline.rs", "src/curve/circle.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/utils.rs"],
     [("nearest segment search", "src/curve/polyline.rs:project"), ("distance_to_line_segment", "src/utils.rs"), ("angle", "src/curve/circle.rs:project")],
     ["Curve::project", "Curve::get_point"])
prop("G07", "Iterative projection stays in range and solves affine cases exactly",
     "Projection onto a Bezier or B-spline curve of degree 2 or more, or onto a B-spline surface, always returns parameters inside the curve's or surface's parameter range. When the curve is an affinely parameterised line the returned parameter is the nearest point's; when the surface is an affinely parameterised parallelogram the returned parameters are the perpendicular foot's, each clamped into its own range. Singular surfaces (collapsed edges) give finite parameters in range.",
     ["inputs"], "all points; affinely parameterised curves of degree 2 and bilinear surfaces, ranges other than [0,1] included",
     "No test projects onto a curve of degree 2 or more or onto a surface.",
     ["src/utils.rs", "src/surface/bspline.rs", "src/curve/bspline.rs", "src/curve/bezier.rs"],
     [("Newton iteration", "src/utils.rs:find_nearest_parameter"), ("surface Newton iteration", "src/surface/bspline.rs:project_points"), ("clamp_in_range", "src/utils.rs")],
     ["Curve::project", "BSplineSurface::project_points"])
prop("G08", "Polylines are parameterised by arc length, end to end",
     "A polyline's parameter runs from its first vertex (t <= 0) to its last (t >= 1) with arc length proportional to t; every t, including values just below 1 and polylines with repeated vertices, evaluates without panicking to a point on the polyline, and the recorded lengths are the segment lengths and their sum.",
     ["inputs"], "all parameters and vertices (up to 4), and all rounding behaviours of the length bookkeeping (bit-precise)",
     "No test evaluates a polyline.",
     ["src/curve/polyline.rs"], [("segment walk", "src/curve/polyline.rs:get_point"), ("length bookkeeping", "src/curve/polyline.rs:new")],
     ["Polyline::new", "Polyline::get_point"])
prop("G09", "Circles: points lie on the circle and arcs follow the requested sense",
     "Every point of a circle is at distance radius from the centre in the plane orthogonal to the axis, angle 0 is the reference direction and angles grow counter-clockwise about the axis; projecting inverts evaluation with a result in [0, 2pi). Refining an angle range keeps both end points, runs upward for same sense and downward otherwise, and covers more than zero and at most one full turn.",
     ["inputs"], "all angles, centres and radii; a set of orthonormal frames; all pairs of angles in [0,2pi)",
     "test_circle prints two projected angles and never checks them.",
     ["src/curve/circle.rs"], [("rotation", "src/curve/circle.rs:get_point"), ("atan2", "src/curve/circle.rs:project"), ("refine_parameter_range", "src/curve/circle.rs")],
     ["Circle::get_point", "Circle::project", "Circle::refine_parameter_range"])
prop("G10", "Cylinder parameterisation and ring map are inverse to each other",
     "A cylinder point at (length, angle) lies at distance radius from the axis and at the given length along it; projecting returns the same length and the same angle in [0, 2pi). Mapping a cylinder point to the planar ring and back returns the same point for every height below a positive ring distance.",
     ["inputs"], "all lengths, angles, radii, origins; a set of orthonormal frames",
     "test_cylinder_projection samples one grid on one cylinder, half a turn.",
     ["src/surface/cylinder.rs"], [("project", "src/surface/cylinder.rs"), ("project_to_ring / generate_point_from_ring", "src/surface/cylinder.rs"), ("get_point", "src/surface/cylinder.rs")],
     ["Cylinder::get_point", "Cylinder::project", "Cylinder::project_to_ring", "Cylinder::generate_point_from_ring"])
prop("G11", "Plane, spin, sweep and umbrella surfaces follow their definitions",
     "A plane point is origin + u*u_axis + v*v_axis and projecting inverts it; a spin surface keeps every section point's distance to the axis and position along it and starts at the section itself, turning counter-clockwise; a sweep surface is the sum of path and section; an umbrella is the cycloid z = r(1+cos), radial r(t - sin t) revolved about z. Wrapping a curve or surface in a box changes none of its results, including normals.",
     ["inputs"], "all parameters and positions; a set of orthonormal frames",
     "test_create_umbrella_surface has no assertions; plane, spin and sweep surfaces and boxing are untested.",
     ["src/surface.rs", "src/surface/plane.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs", "src/curve.rs"],
     [("get_point", "src/surface/*.rs"), ("Box<dyn ...> forwarding", "src/surface.rs, src/curve.rs")],
     ["Surface::get_point", "Plane::project", "Box<dyn Surface>", "Box<dyn Curve>"])
prop("G12", "Bezier and B-spline surfaces are the tensor product of their control grid",
     "A Bezier or B-spline surface (plain or rational) evaluates at every (u,v) to the tensor-product blend of its control grid with u running over rows and v over columns: its corners are the corner control points, it stays inside the coordinate bounds of the grid, each boundary is the curve of the boundary row or column, and a rational surface with equal weights equals the plain one while unequal weights give the weighted average.",
     ["inputs"], "all control grids and parameters; degrees 1 to 3 and unequal in u and v, non-square grids",
     "No test evaluates a Bezier or B-spline surface.",
     ["src/surface/bezier.rs", "src/surface/bspline.rs"], [("get_point", "src/surface/bezier.rs"), ("get_point", "src/surface/bspline.rs"), ("uniform_clamped", "src/surface/bspline.rs")],
     ["BezierSurface::get_point", "BSplineSurface::get_point"])
prop("G13", "Surface patches mesh into a complete, consistently oriented grid",
     "Meshing a surface patch yields (u_div+1)*(v_div+1) vertices, each the surface point at its uniformly divided parameters with the range ends included, and 2*u_div*v_div triangles whose indices are valid, which cover every cell exactly once and are all wound like the parameter plane. When the surface supplies normals there is one per vertex, of unit length and perpendicular to the surface, and an undefined (NaN) normal is replaced by a defined normal of a neighbouring grid vertex whenever one of them is defined.",
     ["inputs"], "all parameter ranges (also reversed) and surface parameters; divisions up to 3",
     "test_create_umbrella_surface and test_cylinder_projection mesh one patch each without checking the mesh.",
     ["src/face.rs", "src/surface.rs", "src/mesh.rs", "src/utils.rs", "src/surface/bspline.rs"],
     [("parameter grid", "src/face.rs:get_triangle_mesh"), ("create_triangles", "src/mesh.rs"), ("NaN normal repair", "src/face.rs"), ("uniform_divide", "src/utils.rs")],
     ["Face::get_triangle_mesh", "SurfacePatch::get_point_grid", "create_triangles", "uniform_divide"])
prop("G14", "Ear clipping triangulates every simple polygon exactly",
     "For every simple counter-clockwise polygon, the planar triangulation consists of counter-clockwise triangles over the polygon's own vertices that do not overlap and whose areas add up to the polygon's area (vertices on a straight side may be left out); it terminates and never panics, whatever the mixture of convex, concave and collinear vertices.",
     ["inputs"], "all order types of simple polygons with up to 6 vertices (thorough 7), cross products zero or well above the tolerance",
     "test_compute_convexity prints one convexity; no test triangulates a polygon.",
     ["src/utils/polygon.rs", "src/surface/plane.rs"], [("convexity", "src/utils/polygon.rs:compute_vertex_convexity"), ("ear clipping", "src/utils/polygon.rs:trianglate_polygon"), ("ear test", "src/utils/polygon.rs:is_ear")],
     ["trianglate_polygon", "compute_vertex_convexity"])
prop("G15", "Polygons with holes are bridged and triangulated exactly",
     "For a counter-clockwise outer polygon with clockwise holes inside it, merging yields one vertex cycle that traverses every polygon completely in its own order, joined by bridges walked in both directions that cross no edge, and triangulating the merged cycle covers exactly the outer area minus the hole areas with counter-clockwise triangles.",
     ["inputs"], "all order types of a triangle with a triangular hole; all integer positions of one of two holes in a concave polygon",
     "No test merges polygons.",
     ["src/utils/polygon.rs", "src/surface/plane.rs"], [("merge_polygons", "src/utils/polygon.rs"), ("merge_two_polygons", "src/utils/polygon.rs"), ("find_concave_vertices", "src/utils/polygon.rs")],
     ["merge_polygons", "find_concave_vertices", "trianglate_polygon"])
prop("G16", "Trimming a face meshes exactly the bounded region of the surface",
     "Trimming a surface by edge loops yields a mesh whose first vertices are the loop points (loop by loop, each in its own or the reversed order), whose other vertices lie on the surface within the extent of the loops, whose triangle indices are valid, and which for a plane has exactly the bounded area, counter-clockwise about the normal for outer loops that are; for a cylinder or B-spline the mesh covers exactly the bounded parameter region without folds. A face without usable loops gives an empty mesh, and meshing has no side effect on the file system.",
     ["inputs"], "all positions of the loop vertices within stated shapes: planar triangles/quads/pentagons, cylinder and B-spline patches",
     "No test trims any surface.",
     ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/bspline.rs", "src/surface.rs", "src/face.rs"],
     [("trim", "src/surface/plane.rs"), ("trim", "src/surface/cylinder.rs"), ("trim", "src/surface/bspline.rs"), ("to_polygon", "src/surface.rs")],
     ["TrimmedSurface::get_triangle_mesh", "Surface::trim"])
prop("G17", "Advancing-front meshing fills the polygon exactly",
     "For every simple counter-clockwise polygon, with or without clockwise holes, the advancing-front mesher terminates, keeps the given points as the first vertices, and returns counter-clockwise triangles in which every polygon edge is used exactly once, every other edge exactly twice in opposite directions, and the areas add up to the polygon's area, up to the tolerance of its predicates.",
     ["inputs"], "all positions of the polygon vertices within stated shapes",
     "test_gen_mesh meshes one polygon and only saves the result.",
     ["src/utils/meshgen.rs"], [("front bookkeeping", "src/utils/meshgen.rs:generate_triangular_mesh"), ("node selection", "src/utils/meshgen.rs:find_intersection_with_front")],
     ["generate_triangular_mesh"])
prop("G18", "Planar predicates and nearest searches are exact",
     "A polygon is reported counter-clockwise exactly when its signed area is positive; a point is reported inside a counter-clockwise triangle exactly when it lies in the closed triangle; the distance from a point to a segment (2D and 3D) is the smallest distance to any of its points; and nearest-point searches return the first index of minimal distance in lists and grids, range helpers return true extremes and clamp into the range in either order.",
     ["inputs"], "all points; lists of up to 5 points and grids up to 2x3",
     "test_distance_to_line_segment and test_inside_triangle print one value each.",
     ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs"],
     [("distance_to_line_segment", "src/utils.rs, src/utils/point.rs"), ("is_inside_triangle", "src/utils/point.rs"), ("find_nearest_point(_in_grid)", "src/utils.rs"), ("is_polygon_counter_clockwise", "src/utils/polygon.rs")],
     ["utils::*"])
prop("G19", "Curve division covers the whole range in order",
     "Uniform division (into one part or more) returns division+1 evenly spaced parameters whose first and last are exactly the range ends, in either direction. Adaptive division, for every outcome of its random sampling, starts and ends exactly at the range ends, is strictly monotone in the direction of the range, splits only at midpoints, leaves no interval whose sampled chord error reaches the tolerance, and curve segments sample their points at exactly those parameters.",
     ["inputs", "histories"], "all ranges, tolerances and random outcomes with recursion depth up to 3",
     "One doc test of uniform_divide; adaptive division runs with unseeded randomness and is only printed.",
     ["src/utils.rs", "src/curve.rs"], [("uniform_divide", "src/utils.rs"), ("parameter_division", "src/utils.rs"), ("get_points", "src/curve.rs")],
     ["uniform_divide", "parameter_division", "CurveSegment::get_points"])
prop("G20", "Edge loops become closed polygons without duplicate points",
     "Approximating an edge loop by a polygon lists the points of its edges in order, drops points that repeat the previous one and the closing point, keeps every genuine corner, and returns an empty polygon for an empty loop without panicking.",
     ["inputs"], "all end points of loops of up to 4 straight edges",
     "No test builds an edge loop.",
     ["src/surface.rs"], [("to_polygon", "src/surface.rs")], ["EdgeLoop::to_polygon"])
prop("G21", "OBJ and point-cloud files reproduce the geometry exactly",
     "Writing a mesh or model as OBJ emits every vertex, normal and triangle in order, with 1-based indices offset by everything written before, so that reading the file back gives exactly the same coordinates and triangles; reversing the winding reverses each triangle and nothing else. Saving a point cloud and loading it returns the same points in the same order, skipping comments and lines that have neither three nor four fields. Coordinates are finite.",
     ["inputs"], "all coordinates and normals; models of up to 3 faces",
     "Tests write OBJ and point-cloud files and never read them back.",
     ["src/mesh.rs", "src/model.rs", "src/points.rs"], [("write_obj", "src/mesh.rs"), ("save_as_obj", "src/model.rs"), ("load/save_point_cloud", "src/points.rs")],
     ["TriangleMesh::write_obj", "Model::save_as_obj", "points::*"])
prop("G22", "Binary STL files are well formed and complete",
     "A model saved as STL is an 80-byte header, then a little-endian 32-bit count equal to the number of triangles of all faces, and exactly one 50-byte record per triangle holding its three vertices in order as single-precision values (after 12 bytes of normal, before 2 of attributes), whatever the file name and the number of faces.",
     ["inputs"], "all coordinates; models of up to 3 faces; file names of various lengths, non-ASCII included",
     "No test writes an STL file.",
     ["src/model.rs"], [("save_as_stl", "src/model.rs")], ["Model::save_as_stl"])
prop("G23", "SVG export draws every curve completely",
     "A model saved as SVG has one path per polycurve; each line segment runs between its end points, each polyline (over its full range) visits all its vertices, each cubic B-spline (over its full range) is drawn as a chain of cubic Bezier pieces reproducing the curve, and other curves are drawn through their sampled points, all in order, flipped about the page height, with coordinates within 0.005 of the exact ones.",
     ["inputs"], "all coordinates; polycurves of up to 2 segments",
     "No test writes an SVG file.",
     ["src/model.rs"], [("save_as_svg", "src/model.rs")], ["Model::save_as_svg"])
prop("G24", "STEP import reproduces the geometry described in the file",
     "Reading a STEP file yields one face per supported advanced face and one polycurve per composite curve of trimmed curves, with exactly the coordinates, knots, multiplicities, weights and radii in the file, axes as orthonormal directions (defaults where left out), and line trimming parameters scaled by the vector magnitude; edge loops run from edge to edge in loop order honouring edge, sense and bound orientation, outer bounds included, so that consecutive edges connect. Angles are in radians.",
     ["inputs"], "all coordinates in files of stated structure: line, circle, polyline, B-spline edges; plane, cylinder, Bezier, B-spline and rational B-spline surfaces",
     "No test reads a STEP file.",
     ["src/model/step_reader.rs", "src/model.rs"], [("read_model", "src/model/step_reader.rs"), ("extract_curve / extract_surface / extract_edge_curve", "src/model/step_reader.rs")],
     ["StepReader::read_model"])

with open(json_path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
