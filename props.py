"""Which harnesses decide which property, and the bounds each claim carries."""
def H(name, **k): return dict(name=name, **k)
PROPS = {
 'G01': dict(harnesses=[H('g01_plain'), H('g01_basis'), H('g01_rational'), H('g01_long')],
   bounds='plain: 1..7 control points, coordinates any real in [-100,100], u any real in [0,1]; basis: 1..6; rational: 1..5 control points, weights in [0.01,100]; long: 8..12 control points, one coordinate each symbolic'),
 'G02': dict(harnesses=[H('g02_basis'), H('g02_small'), H('g02_nonneg'), H('g02_curve'), H('g02_rational'), H('g02_long')],
   bounds='degree 1..4 (thorough 5), 0..3 interior knots of every multiplicity pattern up to the degree, first knot any real in [-100,100], every non-zero gap any real in [0.01,100], u any real in the closed range; degree 1..2 also with every gap in [1e-9,1e-8]; sign also on 7 concrete knot patterns; long: 6..14 interior knots, concrete, in 3 patterns (simple, every multiplicity, uneven), degree 1..5, any parameter'),
 'G03': dict(harnesses=[H('g03_bezier'), H('g03_bspline'), H('g03_surface'), H('g03_surface_mixed'), H('g03_long')],
   bounds='Bezier 2..7 points; B-spline degree 1..4, 0..3 interior knots with all multiplicities, symbolic gaps in [0.01,100]; surfaces degree 1..2 each way, 0..1 interior knots; u, u+h any two reals in one span; Taylor identity to full order; long: curves of degree 1..4 over the 3 patterns of 6..14 concrete interior knots'),
 'G04': dict(harnesses=[H('g04_add_knot'), H('g04_add_twice'), H('g04_split'), H('g04_clamp'), H('g04_bezier'), H('g04_long')],
   bounds='degree 1..3, up to degree+4 control points clamped (all interior multiplicities up to the degree), up to degree+3 unclamped and partly repeated (multiplicity at most degree, non-zero gaps any real in [0.01,10], dyadic beyond 5 symbolic gaps), insertion/split parameter any real at least 0.001 from a knot or exactly a knot, u any real in the knot range; long: insertion, split and Bezier pieces over the 3 patterns of 6..14 concrete interior knots, degree 1..3'),
 'G05': dict(harnesses=[H('g05_span'), H('g05_ops', reach=2), H('g05_build'), H('g05_uniform'), H('g05_long')],
   bounds='2..7 knots (thorough 8), every repetition pattern, non-zero gaps any real in [1e-6,100] (multiplicity: [1e-3,100]); values/multiplicities: 1..4 values, multiplicities 1..4; uniform: degree 0..4, division 1..6; long: knot vectors of 9..22 concrete knots, any parameter'),
 'G06': dict(harnesses=[H('g06_line'), H('g06_polyline'), H('g06_bezier1'), H('g06_bspline1'), H('g06_circle'), H('g06_own_points'), H('g06_on_ref_dir'), H('g06_long')],
   bounds='line: any origin, direction of squared length at least 0.01, any point in [-100,100]; polyline: 1..2 segments (thorough 3), each a repeated vertex or of any length in [0.01,10] along a direction of rational length (3, thorough 5 directions), any point in [-20,20], nearest up to 1e-6; degree-1 Bezier / B-spline 1..2 segments; circle: any rotation, radius [0.01,100], any point off the axis, points in the reference direction on their own; long: concrete polylines and degree-1 B-splines of 5..8 segments (zigzag, returning, repeated vertices), any point of 3 (thorough 5) lines'),
 'G08': dict(harnesses=[H('g08_arc', reach=3), H('g08_all_equal'), H('g08_float', timeout_ms=6000, budget=70), H('g08_general'), H('g08_long')], fp=1,
   bounds='1..3 segments (thorough 4), each a repeated vertex or of any length in [0.01,10] along one of 3 directions of rational length, any t in [-2,3]; vertex lengths also for 2..4 arbitrary vertices; no-panic also in bit-precise IEEE doubles for 1..3 segments of any double length in [0.001,1000] at every t in [0,1] (one segment) and at the three largest doubles below 1 (two or three); long: concrete polylines of 5..8 segments, repeated vertices included, any parameter'),
 'G09': dict(harnesses=[H('g09_point'), H('g09_inverse'), H('g09_range'), H('g09_special')],
   bounds='any centre in [-100,100]^3, radius [0.01,100], frames: identity, two one-axis rotations by any angle, any rotation (Euler angles); any angle; ranges: any two angles in [0,2pi), both senses, plain and boxed, with 0, half turns and equal angles on their own'),
 'G10': dict(harnesses=[H('g10_point'), H('g10_project'), H('g10_any_point'), H('g10_on_ref_dir'), H('g10_ring'), H('g10_ring_back')],
   bounds='any origin in [-100,100]^3, radius [0.01,100], any rotation, length [-100,100], any angle; ring distance [0.01,200] and at least 0.001 above the height'),
 'G11': dict(harnesses=[H('g11_plane'), H('g11_spin'), H('g11_sweep'), H('g11_umbrella'), H('g11_boxed')],
   bounds='any origin, rotation, parameters in [-100,100]; spin and sweep with Bezier sections of 2..3 points and lines; boxed: a B-spline surface 3x3 with any heights (points, normals, projections, trimming and face meshes), a line, a circle, single and double boxes'),
 'G12': dict(harnesses=[H('g12_bezier'), H('g12_bezier_rational'), H('g12_bspline'), H('g12_bspline_rational'), H('g12_boundary'), H('g12_uniform'), H('g12_long'), H('g12_long_bezier')],
   bounds='Bezier grids 2..4 x 2..4 (rational 2..3, weights [0.1,10]); B-spline degrees 1..3 (rational 1..2), 0..2 x 0..1 interior knots with every multiplicity up to the degree, gaps [0.01,100]; any points in [-100,100], any (u,v) in the closed range; long: concrete knots with 1..4 interior knots, degrees (1,2), (2,1), (3,2), (2,3); Bezier grids 2x7, 7x2, 6x5, 5x6; z coordinates symbolic'),
 'G07': dict(harnesses=[H('g07_range'), H('g07_bezier'), H('g07_bspline'), H('g07_surface', workers=8), H('g07_line_surface'), H('g07_pole')],
   bounds='range: a curve and derivatives with arbitrary values in [-100,100] at every evaluation, any range, 1..2 start divisions (3 points), 0..2 iterations (thorough 3); affine: Bezier degree 2..3 (thorough 5), B-spline degree 2..3 with 3 knot vectors (thorough 5), any point of a plane through one of 3 lines; parallelograms: 3 (thorough 4) degree/knot shapes x 2 axis pairs, points along 2 (thorough 4) lines above the surface up to one width outside; singular: 3 degenerate surfaces, any height'),
 'G13': dict(harnesses=[H('g13_grid'), H('g13_normals'), H('g13_undefined'), H('g13_pole')],
   bounds='any bilinear patch (coefficients in [-10,10], any ranges), 1..5 x 1..5 divisions (thorough 9), 1..2 x 6..17 and the other way round (thorough 40); normals: bent B-spline patches of degree 1..2, 2x2 divisions; undefined normals: every subset of the vertices of 1x1, 2x1, 1x2, 2x2 (thorough 3x2, 2x3) patches, any other normals; poles: a degenerate edge on each side'),
 'G14': dict(harnesses=[H('g14_3'), H('g14_4'), H('g14_5'), H('g14_6'), H('g14_bumps'), H('g14_slide', workers=8), H('g14_7', thorough_only=True, budget=600), H('g14_8', thorough_only=True, budget=900)],
   bounds='every order type of simple polygons with 3..6 vertices (thorough 7, and part of 8 in general position), collinear vertices and vertices on the line of a distant edge included, coordinates integers in [-1000,1000] so that cross products are zero or far above the tolerance; bumps: 8 vertices, a convex quadrilateral with a triangular bump on two of its edges, so that cutting a bump makes further vertices collinear, from every start vertex; slide: 60 (thorough 600) polygons of 7..12 vertices on a small grid (many collinear), each vertex in turn at every integer position of a 100x100 square that leaves the polygon simple'),
 'G15': dict(harnesses=[H('g15_33'), H('g15_slide'), H('g15_shapes'), H('g15_34', thorough_only=True, budget=400), H('g15_43', thorough_only=True, budget=600)],
   bounds='every order type and x order of a triangle with a triangular hole (thorough: 3+4 and part of 4+3 in general position), coordinates integers in [-1000,1000]; slide: concave outer polygon with two holes, one of them at every integer position of 4 rows, polygons in 4 orders; shapes: 2 (thorough 18) outer polygons of 7..8 (thorough 12) vertices, a triangular or concave hole at every integer position inside, listed first or last; (thorough: any integer position in the plane, 3 outer shapes, 2 hole shapes, 3 start vertices)'),
 'G16': dict(harnesses=[H('g16_plane'), H('g16_plane_holes'), H('g16_empty'), H('g16_cylinder'), H('g16_cylinder_slant'), H('g16_cylinder_hole'), H('g16_bspline'), H('g16_bspline_hole')],
   bounds='plane: the shapes and sliding vertex of G17 in 4 axis frames, a rectangle with 2 triangular holes one sliding along a row, loops in either order; cylinder: any position along its axis in [-20,20], any height in [0.5,4], 3 angle ranges, both senses, one corner at any height, a rectangular hole at any height in a range; B-spline: an affine patch, a triangle with one corner at any u, a square with a triangular hole at any u, both senses'),
 'G17': dict(harnesses=[H('g17_slide'), H('g17_holes')],
   bounds='triangle, rectangle, concave pentagon (thorough also kite, L-shape, rectangle with vertices on its sides), each vertex in turn at every position of a line in 2 (thorough 3) directions through it as long as the polygon is simple and no three corners are within 0.001 of a line without being on it; a rectangle with a triangular hole at every position along 1 (thorough 3) lines; new points up to what these shapes need'),
 'G18': dict(harnesses=[H('g18_orientation', reach=2), H('g18_inside', reach=2), H('g18_segment2'), H('g18_segment3'), H('g18_nearest'), H('g18_nearest_grid'), H('g18_range', reach=2), H('g18_long'), H('g18_ties')],
   bounds='any coordinates in [-100,100] (searches [-10,10]); polygons of 1..6 points (thorough 8), lists of 1..4 points (thorough 5), grids up to 2x2 (thorough 2x3), 1..5 keys; segments also of length 0; 3-D segments in two planes; long: 14 concrete points or grids 7x2 and 2x7, any point of 3 lines, ties among 4..12 integer points; polygons of 14 corners, one of them anywhere on a line'),
 'G19': dict(harnesses=[H('g19_uniform'), H('g19_adaptive', reach=2), H('g19_arbitrary', reach=2), H('g19_segment'), H('g19_exact', timeout_ms=6000)],
   bounds='uniform: division 1..24 (thorough 64), any range; adaptive: every random outcome, parabolas of any curvature in [0.01,1], 3 widths, 2 tolerances; arbitrary curves: any value at each of the first 9 (thorough 12) evaluations; exact ends: bit-precise, any two doubles in [-1e6,1e6], 1..7 parts (thorough 15), adaptive up to 4 intervals'),
 'G20': dict(harnesses=[H('g20_lines'), H('g20_reversed'), H('g20_empty'), H('g20_curved', reach=2), H('g20_gaps'), H('g20_close'), H('g20_many')],
   bounds='loops of 1..4 line edges (thorough 5), every corner new (any place at least 1 from the others), the previous corner again or the first corner again; reversed ranges, polylines, one parabola edge of any curvature; 1..4 (thorough 5) edges whose ends meet or not; an edge of any length from 0.0005 to 0.017 in any direction; loops of 24 lines (thorough 60), one corner anywhere'),
 'G21': dict(harnesses=[H('g21_mesh'), H('g21_model'), H('g21_reverse'), H('g21_cloud'), H('g21_cloud_lines', budget=200), H('g21_cloud_normals'), H('g21_points'), H('g21_scale'), H('g21_long'), H('g21_long_cloud')],
   bounds='bit-precise; any finite coordinates, in each case one at most of them negative (every one in turn; models and line formats: 2 places, thorough 4 and 6); meshes of 0..3 triangles with and without normals, 3 start indices; models of 0..3 faces (thorough 4); clouds of 0..3 points (thorough 5), 5 separators, 4 line starts (label included), 2 line ends, 7 unrelated lines at every place, last line complete or not; long: meshes of 300..1100 vertices, 9 faces, clouds of 700 points, 3..4 coordinates of each symbolic'),
 'G22': dict(harnesses=[H('g22_faces'), H('g22_names'), H('g22_patch'), H('g22_long')],
   bounds='bit-precise; any finite coordinates; models of 0..3 faces (thorough 4) of 0..3 triangles; file names of 1..240 bytes of 4 kinds of letters with and without extension; a patch of a plane at any origin; long: meshes of up to 70000 triangles, 8 faces, 3 coordinates of each symbolic'),
 'G23': dict(harnesses=[H('g23_pieces'), H('g23_bspline'), H('g23_sampled', reach=2), H('g23_page'), H('g23_paths')],
   bounds='coordinates in [-1000,1000], at most one of them negative (each of 3..5 places, thorough more); 1..2 (thorough 3) line segments with 3 parameter ranges and polylines of 2..3 points; cubic B-splines over 6 knot vectors of full range, each piece compared at 5 parameters; sampled parabolas (a user-defined curve, B-splines of degree 2, 4 and 5 and of two spans) of any curvature in [0.005,0.04] in both directions, every random outcome; 6 page sizes; 0..3 polycurves of 0..2 segments'),
 'G24': dict(harnesses=[H('g24_loop'), H('g24_bounds'), H('g24_circle'), H('g24_curved'), H('g24_composite', budget=200), H('g24_plane'), H('g24_axes'), H('g24_spin'), H('g24_patches'), H('g24_faces')],
   bounds='coordinates in [-1000,1000], at most one of them negative; rectangles and triangles of any place and size with every combination of edge, curve and bound orientation; outer bound and 0..2 holes in both orders; circle edges of any centre and radius in 4 (thorough 8) written frames (axes of any length, oblique or left out) between 4x4 (thorough 7x7) places in all senses; polyline and B-spline edges of 3 shapes at any place; composite curves of 1 or 3 (thorough 1..3) trimmed lines, circles, polylines and B-splines (any control points, knots, 5 degree and multiplicity patterns), trimmed by parameters or by points and parameters in both orders; planes and cylinders in 8 written frames; surfaces of revolution of 3 sections; Bezier, B-spline and rational surfaces of 7 shapes (grids 2x2 to 4x5), any control points, knots, weights; files of 0..3 faces, an unsupported surface among them, and 0..2 composite curves; angles in radians; a fixed file layout'),
}
NOT_APPLICABLE = {}
