"""Regenerates properties.jsonl and MANIFEST.json from the table below (run from /verif: python3 tools/mkmeta.py)."""
import json

S = "src/skspatial/"
O = S + "objects/"

# id, title, statement, quantifier text, why tests cannot settle it, files, mechanism [(name, where)], level note (bounds)
T = [
("C01", "Array objects hold exactly the given finite numbers",
 "A vector, point or collection of points built from any array-like holds exactly the given numbers, in order, with the matching dimension, and empty, non-finite, ragged or wrongly shaped input is rejected with a ValueError. Raising the dimension pads with zeros and lowering it is rejected; copies (deep and pickled ones included), array conversion, slicing, arithmetic and rounding give correct values and dimensions and leave the operand unchanged.",
 "all real coordinates (magnitudes up to 1e308 and down to 1e-305 included), every position of a non-finite entry, dimensions 1-9, 1-5 points, any number of rounding digits",
 "Tests construct a handful of literals; a wrong value for one coordinate, sign or position of a NaN goes unnoticed.",
 [O + "_base_array.py"], [("validation and conversion of input", O + "_base_array.py _BaseArray.__new__, _BaseArray1D.__new__, _BaseArray2D.__new__"), ("padding", O + "_base_array.py set_dimension"), ("rounding", O + "_base_array.py round")],
 "dimensions 1-9, up to 5 rows; coordinates range over all reals; rounding digits -2 to 3"),
("C02", "Constructors accept exactly their documented domain and store their input",
 "Lines, planes, segments, triangles, circles, spheres and cylinders are created exactly when their defining data are valid: equal dimensions, a direction or normal that is not zero, endpoints that are not close, vertices that are not collinear, a positive radius that is not NaN, and the required dimension. Otherwise construction raises a ValueError. A created object stores the given points, vectors and radius unchanged and reports their dimension.",
 "all real coordinates and radii, NaN and infinity in every argument, all pairs of dimensions 1-4, single dimensions up to 7",
 "The boundary between valid and invalid is a surface in input space; tests sample a few points on either side.",
 [O + "line.py", O + "plane.py", O + "line_segment.py", O + "triangle.py", O + "_base_sphere.py", O + "circle.py", O + "sphere.py", O + "cylinder.py", O + "_base_line_plane.py"],
 [("domain checks", O + "_base_line_plane.py __init__, triangle.py __init__, line_segment.py __init__, _base_sphere.py __init__, cylinder.py __init__"), ("alternative constructors", O + "line.py from_points, from_slope; cylinder.py from_points")],
 "dimensions 1-7, all pairs of dimensions 1-4; the documented closeness tolerances are part of the domain"),
("C03", "Vector algebra: norms, unit vectors, cross products, projections",
 "The norm is the Euclidean length; the unit vector has length one, the same direction, and exists exactly for non-zero vectors. The cross product is the right-handed normal of both vectors (rejected beyond three dimensions), and projecting onto a non-zero vector leaves an orthogonal residual, with the scalar projection as signed length. A vector in a different direction is never parallel to the original and exists exactly for non-zero vectors.",
 "all pairs of real vectors, dimensions 1-8",
 "Algebraic identities over all vectors; tests compare a few numeric results.",
 [O + "vector.py"], [("vector operations", O + "vector.py from_points, norm, unit, cross, project_vector, scalar_projection, different_direction")],
 "dimensions 1-8; all reals"),
("C04", "Zero, parallel and perpendicular tests decide the geometric relation",
 "Whether a vector is zero, or two vectors are parallel or perpendicular, is answered according to the geometry within the stated relative and absolute tolerances. The answer is symmetric, does not depend on the length or sense of the vectors for parallelism, treats the zero vector as parallel and perpendicular to everything, and rejects vectors of different dimensions.",
 "all pairs of real vectors and tolerances, dimensions 1-5, all pairs of different dimensions 1-4",
 "Tolerances turn a relation into a region with a boundary; tests do not probe the boundary for general directions.",
 [O + "vector.py"], [("predicates", O + "vector.py is_zero, is_parallel, is_perpendicular, cosine_similarity")],
 "dimensions 1-5; fixed rational tolerances for parallelism, symbolic ones elsewhere; two slices fix part of the vectors"),
("C05", "Angles between vectors",
 "The cosine similarity of two non-zero vectors is their normalised dot product, never outside [-1, 1], and the angle between them lies in [0, pi] and has that cosine. The signed angle is counter-clockwise positive in 2D and follows the right-hand rule about the given perpendicular reference direction in 3D. Zero vectors, other dimensions and a reference that is not perpendicular are rejected with a ValueError.",
 "all pairs of real vectors, dimensions 1-6",
 "Sign conventions and clamping matter on measure-zero sets (parallel, opposite) and in all quadrants.",
 [O + "vector.py"], [("angles", O + "vector.py cosine_similarity, angle_between, angle_signed, angle_signed_3d")],
 "dimensions 1-6; 3D signed angles with reference directions along a fixed oblique frame or all reals"),
("C06", "Side predicates agree with orientation",
 "The side of a point relative to a 2D line is +1 on the right of the direction, -1 on the left and 0 on the line; the side of a vector relative to another is decided the same way; the side of a point relative to a plane is +1 where the normal points, -1 behind and 0 on it. Line and vector sides are rejected outside two dimensions.",
 "all real points, lines, planes",
 "The sign must be right in every orientation, and zero exactly on the boundary.",
 [O + "line.py", O + "plane.py", O + "vector.py"], [("side predicates", O + "line.py side_point, plane.py side_point, vector.py side_vector")],
 "planes in dimensions 2-3; all reals"),
("C07", "Projection onto and distance from a line",
 "Projecting a point onto a line gives the foot of the perpendicular, the distance is the length of that perpendicular, and a point is contained exactly when the distance is within the tolerance. Bulk projection, distances, coordinates along the line and the sum of squared distances agree with the single-point answers. Points at a parameter lie at that multiple of the direction from the line's point, and points of another dimension are rejected.",
 "all real lines and points, dimensions 1-5, 1-4 points at a time, operands of every other dimension 1-4",
 "Universally quantified over lines in any representation; tests use axis-aligned examples.",
 [O + "line.py", O + "_base_line_plane.py", S + "_functions.py", S + "transformation.py"], [("line metrics", O + "line.py to_point, project_point, project_points, project_vector, distance_point, distance_points, transform_points"), ("membership and sums", O + "_base_line_plane.py contains_point, sum_squares")],
 "dimensions 1-5, up to 4 points; all reals"),
("C08", "Planes: projection, signed distance, construction, Cartesian form",
 "Projecting a point onto a plane moves it along the normal onto the plane; the signed distance is positive on the side of the normal, and distance, containment, bulk variants and sums of squares agree with it. A plane built from two vectors or three points contains them and is rejected exactly when they are (nearly) parallel or collinear. Its Cartesian coefficients vanish exactly on it, and projecting a vector or a line leaves a result within the plane, rejecting only lines along the normal. Points, vectors and lines of another dimension are rejected with a ValueError.",
 "all real planes, points, vectors and lines, dimensions 2-4, operands of every other dimension 1-4",
 "Universally quantified; degenerate directions are measure-zero sets that samples miss.",
 [O + "plane.py", O + "_base_line_plane.py"], [("plane metrics", O + "plane.py project_point, project_points, distance_point_signed, distance_points_signed, distance_point, distance_points"), ("construction", O + "plane.py from_vectors, from_points"), ("lines and vectors", O + "plane.py project_line, project_vector, cartesian")],
 "dimensions 2-4; all reals; up to 4 symbolic points at a time, and 130 points of which a few are symbolic; near-degenerate inputs excluded by the documented tolerance"),
("C09", "Two lines: distance, coplanarity and intersection",
 "The distance between two lines is the length of their common perpendicular, symmetric, and zero exactly when they meet. Lines are coplanar exactly when some plane contains both, and the intersection of two lines lies on both of them, raising a ValueError exactly when they are parallel, skew or not two- or three-dimensional. Without the coplanarity check, skew lines give the foot of the common perpendicular on the first line.",
 "all real pairs of lines, dimensions 1-4",
 "Parallel, skew and intersecting are separated by measure-zero sets.",
 [O + "line.py"], [("relations", O + "line.py is_coplanar, distance_line, intersect_line")],
 "dimensions 2-4; lines parallel to within the documented tolerance are excluded from the 'must succeed' side"),
("C10", "Intersections of planes with lines and planes",
 "The intersection of a plane and a line lies on both and is rejected exactly when the line is parallel to the plane within the tolerance. The intersection of two planes is a line lying in both and is rejected exactly when they are parallel; only three-dimensional planes are accepted. The operands are unchanged.",
 "all real planes and lines, dimensions 2-4",
 "Universally quantified over orientation and offset; tests use few axis-aligned planes.",
 [O + "plane.py"], [("intersections", O + "plane.py intersect_line, intersect_plane")],
 "dimensions 2-4; near-parallel inputs excluded by the documented tolerance"),
("C11", "Line segments: membership and intersection",
 "A segment contains a point exactly when it lies between the endpoints (or coincides with one), whichever endpoint comes first, with the stated tolerances; points of another dimension are rejected. Two crossing segments give their common point, and segments that are parallel, skew, or whose lines meet outside either segment raise a ValueError.",
 "all real segments and points, dimensions 1-4",
 "Endpoint and just-outside cases are measure-zero or thin; tests sample a few.",
 [O + "line_segment.py"], [("membership", O + "line_segment.py contains_point"), ("intersection", O + "line_segment.py intersect_line_segment")],
 "dimensions 1-4; intersection in fixed oblique directions with symbolic positions and lengths"),
("C12", "Intersections of lines with circles and spheres",
 "A line meets a circle or sphere exactly when its distance to the centre is at most the radius; otherwise a ValueError is raised. The two returned points lie on the line and on the surface, are symmetric about the foot of the centre, coincide only for tangents, and the operands are unchanged. Lines of another dimension are rejected.",
 "all real lines, centres and radii",
 "Hit, tangent and miss are separated by a surface; tests check a few configurations.",
 [O + "circle.py", O + "sphere.py", S + "_functions.py"], [("circle-line", O + "circle.py intersect_line"), ("sphere-line", O + "sphere.py intersect_line")],
 "2D circles and 3D spheres; all reals"),
("C13", "Intersection of two circles",
 "Two circles have intersection points exactly when they are neither concentric nor too far apart nor nested, tangency included; otherwise a ValueError is raised. The two returned points lie on both circles and are mirror images in the line of centres.",
 "all real pairs of circles",
 "Tangency (inner and outer) is a measure-zero set.",
 [O + "circle.py"], [("circle-circle", O + "circle.py intersect_circle")], "all reals"),
("C14", "Circles and spheres: distance, membership, projection, measures",
 "The distance of a point to a circle or sphere is the absolute difference between its distance to the centre and the radius, and the point is contained exactly when that is within the tolerance. Projection moves the point along the ray from the centre onto the surface and is rejected only for the centre. Circumference, area, surface area and volume follow the classical formulas.",
 "all real circles, spheres and points",
 "Universally quantified; inside, outside and centre behave differently.",
 [O + "_base_sphere.py", O + "circle.py", O + "sphere.py"], [("shared operations", O + "_base_sphere.py distance_point, contains_point, project_point"), ("measures", O + "circle.py area, circumference; sphere.py surface_area, volume")], "all reals"),
("C15", "The circle through three points",
 "Three 2D points determine a circle exactly when they are not collinear; it passes through all three, has positive radius, and does not depend on their order. Collinear, coincident or other-dimensional points are rejected with a ValueError.",
 "all triples of real points", "Every triple and every order must give the same circle.",
 [O + "circle.py"], [("circumcircle", O + "circle.py from_points")], "all reals"),
("C16", "Cylinders: membership and measures",
 "A point is within a cylinder exactly when it lies between the two cap planes, inclusive, and not farther from the axis than the radius; reversing the axis about the same body does not change the answer. Length, lateral and total surface area and volume follow the classical formulas, and a cylinder built from two points has its axis between them.",
 "all real cylinders and points", "The boundary is a surface of three pieces; tests sample a few points.",
 [O + "cylinder.py"], [("membership", O + "cylinder.py is_point_within"), ("measures", O + "cylinder.py length, lateral_surface_area, surface_area, volume, from_points")], "all reals"),
("C17", "Intersection of a line with a cylinder",
 "For the infinite cylinder, the two returned points lie on the line and on the lateral surface, and a ValueError is raised exactly for lines that miss it or are parallel to the axis. For the finite cylinder the returned points lie on the line and on the body's boundary, caps included, and enclose every point of the line inside it; a ValueError means the line misses the body. Lines that are not 3D are rejected.",
 "all real lines and cylinders (fixed oblique axes for the finite body)",
 "Caps, rims, parallel and grazing lines are separate regimes with thin boundaries.",
 [O + "cylinder.py", S + "_functions.py"], [("infinite", O + "cylinder.py _intersect_line_with_infinite_cylinder"), ("finite", O + "cylinder.py _intersect_line_with_finite_cylinder, _intersect_line_with_caps, _between_cap_planes"), ("quadratic", S + "_functions.py _solve_quadratic")],
 "finite cylinders along fixed oblique axes with symbolic size, position and line"),
("C18", "Triangles: parts, angles, centres, classification",
 "The sides of a triangle run between the two other vertices in cyclic order, with lengths, perimeter, area, normal, centroid, altitudes and orthocentre as in elementary geometry; each angle follows the law of cosines and the three add up to pi. A triangle is called equilateral, isosceles or scalene, and right or not, according to its sides within the tolerance. Unknown vertex and side names are rejected with a ValueError.",
 "all non-degenerate real triangles, dimensions 2-4",
 "Each vertex and side must be right for every shape; tests use a few right-angled ones.",
 [O + "triangle.py"], [("parts", O + "triangle.py point, line, length, multiple"), ("measures", O + "triangle.py normal, area, perimeter, angle, centroid"), ("centres and kinds", O + "triangle.py altitude, orthocenter, classify, is_right")],
 "dimensions 2-4 (orthocentre: one side along a fixed oblique direction)"),
("C19", "Areas and volumes measured from points",
 "The area of a triangle of points and the volume of a tetrahedron are the classical determinants' absolute values, independent of the order of the points and of translation. The signed area of a polygon in the plane is positive exactly for counter-clockwise order, changes sign under reversal, and does not depend on the starting vertex. Points of different or unsupported dimension, or fewer than three, are rejected with a ValueError.",
 "all real points, polygons with 3-7 vertices",
 "Polynomial identities over all inputs; tests check a few shapes.",
 [S + "measurement.py"], [("measurements", S + "measurement.py area_triangle, volume_tetrahedron, area_signed")], "polygons of 3-7 vertices; all reals; integer points with products beyond 32 bits are replayed"),
("C20", "Collections of points: centroid, centring, uniqueness, affine rank",
 "The centroid is the mean of all points and centring subtracts it; removing duplicates keeps every distinct point exactly once; normalising scales all points by one factor so that the farthest is at distance one. Points are concurrent, collinear or coplanar exactly when they span a point, a line or a plane, duplicates or not, up to the stated tolerance on the spread.",
 "all real points, 1-6 points, dimensions 1-4",
 "Degenerate configurations are measure-zero sets in general position.",
 [O + "points.py"], [("points", O + "points.py unique, centroid, mean_center, normalize_distance, affine_rank, are_concurrent, are_collinear, are_coplanar")], "up to 6 points, dimensions 1-4; flats in fixed oblique frames plus free configurations of up to 4 points"),
("C21", "Transformation of coordinates",
 "The coordinates of points in a new basis are the dot products of their offsets from the origin with the basis vectors, one row per point and one column per basis vector. An orthonormal basis preserves distances and allows the points to be rebuilt, and mismatched dimensions are rejected with a ValueError.",
 "all real points, origins and bases, dimensions 1-4", "A universally quantified linear identity.",
 [S + "transformation.py"], [("transformation", S + "transformation.py transform_coordinates")], "1-4 points, dimensions 1-4, up to 4 basis vectors"),
("C22", "Best-fit lines and planes minimise the squared distances",
 "The line or plane of best fit passes through the centroid, along the direction of widest spread or normal to the direction of smallest spread, and its reported error equals the sum of squared distances of the points, which no other line or plane beats. Points of a line are fitted exactly. Concurrent points (for a line), collinear or non-3D points (for a plane) are rejected with a ValueError, according to the tolerance.",
 "all spreads and positions of 2, 4 or 8 samples along the principal axes of a fixed frame; all collinear samples of a fixed direction",
 "Optimality quantifies over all competing lines and planes.",
 [O + "line.py", O + "plane.py"], [("line fit", O + "line.py best_fit"), ("plane fit", O + "plane.py best_fit")],
 "sample patterns with a closed-form singular value decomposition; the SVD's sign ambiguity is explored"),
("C23", "Best-fit circles and spheres",
 "Samples of a circle or sphere are fitted by exactly that circle or sphere, and other samples by the one that minimises the squared algebraic residuals. Too few, collinear (circle), coplanar (sphere) or wrongly dimensioned points are rejected with a ValueError.",
 "all circles and spheres through rational parameters; all triples; free samples",
 "Universally quantified over circle and samples; tests fit a few.",
 [O + "circle.py", O + "sphere.py"], [("circle fit", O + "circle.py best_fit"), ("sphere fit", O + "sphere.py best_fit")], "3-4 samples for circles, 4-5 for spheres"),
("C24", "Equality, closeness and the distance between points",
 "The distance between two points is a Euclidean metric: non-negative, symmetric, zero only for equal points, invariant under translation, and defined only for equal dimensions. Arrays are equal exactly when shape and all coordinates agree, and close exactly when every coordinate is within the tolerances. Lines and planes are close exactly when they describe the same set within the tolerances, whatever point and vector they are written with, and comparing with another type raises a TypeError.",
 "all real points, vectors, lines, planes and tolerances, dimensions 1-4",
 "Relations quantified over all pairs; each coordinate must count.",
 [O + "_base_array.py", O + "_base_line_plane.py", O + "point.py"], [("arrays", O + "_base_array.py is_close, is_equal"), ("lines and planes", O + "_base_line_plane.py is_close"), ("distance", O + "point.py distance_point")], "dimensions 1-4; lines and planes in fixed oblique frames"),
("C25", "Surface meshes lie on their surface",
 "Every vertex of the mesh of a plane, sphere or cylinder lies on that surface, and the arrays have the requested resolution. A plane's mesh spans the given limits about its point, a sphere's includes both poles and closes around, a cylinder's rings close and are evenly spaced from one end of the axis to the other. The points sampled from a surface are exactly the mesh vertices.",
 "all real planes, spheres and cylinders of the listed orientations, resolutions 2-11 and the defaults, plane limits of any number of values",
 "All orientations of normal and axis, including those with zero components.",
 [O + "plane.py", O + "sphere.py", O + "cylinder.py", O + "_mixins.py", S + "_functions.py"], [("meshes", O + "plane.py to_mesh, sphere.py to_mesh, cylinder.py to_mesh"), ("points", O + "_mixins.py to_points")], "resolutions 2-11 and the defaults; all zero patterns of a plane's normal; cylinders along axis, face-diagonal, oblique and (coarse mesh) arbitrary directions"),
("C26", "Operations neither change their operands nor depend on earlier calls",
 "Calling any operation leaves the objects and arrays it was given exactly as they were, and calling it again with the same operands gives the same result. Results returned earlier do not change.",
 "all real operands of about 67 operation groups, two calls each, operands with and without an earlier history of calls",
 "Any input may trigger an in-place update or a cached state; tests build fresh objects each time.",
 [O + "vector.py", O + "points.py", O + "line.py", O + "plane.py", O + "circle.py", O + "sphere.py", O + "cylinder.py", O + "triangle.py", S + "measurement.py", S + "transformation.py"], [("operations", "all public methods of " + O + "*.py")], "two successive calls per operation group, after none or one other call on the operands; some operands in fixed orientations"),
("C27", "Cylinders of best fit recover the sampled cylinder",
 "Points spread evenly over a cylinder, symmetric about its middle, are fitted by a cylinder with the same axis, radius and ends, given an optimiser that finds a minimum of the function it is handed. Fewer than six, coplanar or non-3D points are rejected with a ValueError.",
 "all sizes and positions of cylinders along six axes, 8-12 samples",
 "Quantified over sizes and positions; tests fit a few meshes with loose tolerances.",
 [O + "cylinder.py"], [("cylinder fit", O + "cylinder.py best_fit")],
 "assume-guarantee: the numerical optimiser (scipy) is replaced by one that returns angles at which the real objective vanishes; six axes with rational angles; violations are confirmed with the real optimiser"),
("C28", "Plotting draws the object's own coordinates",
 "Plotting a point, points, vector, line, segment, triangle, circle, plane, sphere or cylinder draws exactly its coordinates (between the given parameters, from the given point, with the given scale or resolution) and passes style keywords on. The deferred plotter draws the same as the direct method and exists exactly in two and three dimensions; plotting in 3D on axes that are not 3D raises a ValueError. Plotting several objects draws each once, in order, on one set of axes.",
 "all real coordinates and parameters, dimensions 1-4",
 "Tests only check that plotting does not fail.",
 [S + "plotting.py", O + "_base_spatial.py"], [("drawing", S + "plotting.py _scatter_2d, _scatter_3d, _connect_points_2d, _connect_points_3d, plot_2d, plot_3d"), ("dispatch", O + "_base_spatial.py plotter")], "axes are recording stand-ins; resolutions 2-5 and the defaults; style keywords of several kinds, falsy values included"),
("C29", "The text of an object shows its own data",
 "The repr of a point, vector, collection of points, line, plane, segment, triangle, circle, sphere or cylinder is an expression that names its class and every constructor argument with the object's present data, in the order of the constructor: evaluating it rebuilds the object up to the digits numpy prints. The text of str and of formatting is the same for the composite objects.",
 "all real coordinates and radii, dimensions 1-6, coordinates of the order of one and of 1e-9",
 "Tests compare the text of a few objects with round coordinates; a swapped argument or lost digits show for others.",
 [O + "_base_line_plane.py", O + "_base_sphere.py", O + "cylinder.py", O + "line_segment.py", O + "triangle.py"], [("texts", O + "_base_line_plane.py __repr__, _base_sphere.py __repr__, cylinder.py __repr__, line_segment.py __repr__, triangle.py __repr__")],
 "dimensions 1-6 (arrays up to 9 coordinates); numbers appear in the symbolic text as references, so digits are only compared in replays"),
]

NOT_APPLICABLE = []

with open("properties.jsonl", "w") as f:
    for i, title, st, q, why, files, mech, note in T:
        assert len(title) <= 80, (i, len(title))
        f.write(json.dumps({
            "id": i, "title": title, "statement": st, "quantifier": {"over": ["histories", "inputs"] if i == "C26" else ["inputs"], "text": q},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")

TECH = "symbolic execution of the real Python code; obligations decided by z3 and polynomial normal forms; counterexamples replayed"
man = {
    "version": 1, "setup_cmd": "true",
    "checks": [{"property": t[0], "quick_cmd": f"./check {t[0]}", "thorough_cmd": f"./check {t[0]} --thorough", "technique": TECH,
                "level": "model_checking", "level_note": f"Bounds: {t[7]}. Exact real arithmetic; rounding is outside the model except where witnesses are replayed on floats."} for t in T],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: the checks import the working tree's sources with numpy and math replaced by symbolic stand-ins (symex/). known_findings.txt lists repaired defects.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(T), "properties")
