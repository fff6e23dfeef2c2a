#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
G = "planegeometry/geometry.py"
I = "planegeometry/internal.py"
P = []
def prop(id, title, statement, over, text, why, mech, observe, files=(G, I), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

prop("C01", "Line relations depend only on the lines, not on how they are given",
 "The direction/offset equation of a line is satisfied by every point of the line, with a non-negative offset. Two lines are reported equal, parallel or perpendicular exactly when the infinite lines through their points are, whichever two well-separated points were used, in whichever order, whatever the distance between them, and whatever the extension flags.",
 ["inputs", "configurations"], "all pairs of lines, all choices of their two points and flags, all positions and ordinary scales",
 "no existing test calls is_parallel or direction_offset, and is_equal/is_perpendicular are only sampled on one pair of lines each; wrap-around of the direction and representation choices are unreached",
 [("Line.direction_offset / is_equal / is_parallel / is_perpendicular", G), ("det2x2_, approx_equal_", I)],
 ["return values of the four Line methods"])
prop("C02", "Point membership of lines, half-lines and segments is exact",
 "A point is reported on a line exactly when it lies on the infinite line, and, in the strict mode, exactly when it lies on the line, half-line or closed segment described by the extension flags, end points included. The answer does not change with the order of the two defining points (flags exchanged accordingly).",
 ["inputs", "configurations"], "all lines, all four flag combinations, all points on the line (before, at, between and after the two points) and off the line",
 "no existing test calls Line.includes; the four flag combinations times the five point positions are unreached",
 [("Line.includes", G), ("collinear_", I)], ["return value of Line.includes"])
prop("C03", "Projection, distance, perpendicular and reflection agree with Euclidean geometry",
 "For every line and point: the orthogonal projection is the point of the line whose difference with the given point is perpendicular to the line; the distance is the length of that difference; the perpendicular line passes through the point and is perpendicular; the mirror image is the point whose midpoint with the original is the projection; rotating or translating a line moves its two points accordingly and keeps its flags. A projection along a directrix lands on the target line with a displacement parallel to the directrix, and is idempotent.",
 ["inputs"], "all lines (all directions, both orientations), all points on, near and away from the line, all directrix directions",
 "no existing test calls projection, distance, perpendicular, reflection, translate, Projection; only mirrored circles in mid_circles tests",
 [("Line.projection/distance/perpendicular/reflection/rotate/translate", G), ("Reflection, Projection classes", G), ("line_line_intersection_", I)],
 ["returned points, numbers and Line objects"])
prop("C04", "Line-line intersection is exact",
 "Two non-parallel lines intersect in the unique point lying on both; distinct parallel lines give no intersection; two representations of the same line give a line equal to it. In the strict mode an intersection point of non-parallel lines is returned only if it lies on both segments or half-lines as described by the flags, and nothing is returned otherwise.",
 ["inputs", "configurations"], "all pairs of lines, all choices of points, flags and strictness",
 "no existing test intersects two lines", [("intersection_line_line, Line.intersection_with_line", G), ("line_line_intersection_", I)],
 ["return value"])
prop("C05", "Line-circle and line-ellipse intersections are complete and exact",
 "A line meets a circle or an ellipse in none, one or two points according to whether it is exterior, tangent or secant, irrespective of which two points define the line. Every returned point lies on both curves and, for a secant, the two points are distinct and are all the common points.",
 ["inputs"], "all lines against all circles and ellipses: secant, tangent, exterior, through the centre, vertical, horizontal and oblique, any orientation, ellipse angle in degrees or radians",
 "the existing tests only look at six tangencies of one triangle's excircles; secants, misses, ellipses and tangency under rounding are unreached",
 [("intersection_circle_line, intersection_ellipse_line", G), ("circle_line_intersection_", I)], ["return values of the intersection functions and methods"])
prop("C06", "Circle-circle intersections and circle membership are complete and exact",
 "Two circles meet in none, one (tangent, internally or externally) or two points, or are reported as the same circle, according to their true relative position, in either argument order; every returned point lies on both circles and two returned points are distinct. A point is on, or inside, a circle exactly when its distance to the centre is equal to, or at most, the radius, and equality of circles is equality of centre and radius.",
 ["inputs"], "all pairs of circles in every relative position (disjoint, tangent outside/inside, secant, nested, concentric, equal), all directions of the centre line, both argument orders",
 "the tests sample four configurations, all but one with centres on a horizontal line; the touch branches under rounding are unreached",
 [("intersection_circle_circle, Circle.is_equal/includes/contains", G)], ["return values"])
prop("C07", "Power, radical axis, radical center, angle and orthogonality are consistent",
 "The power of a point is its squared distance to the centre minus the squared radius; every point of the radical axis of two circles, and their radical center, has the same power with respect to both, the axis being perpendicular to the line of centers; the radical center of three circles has the same power with respect to all three. The angle of two intersecting (also tangent) circles is the angle determined by their radii and the distance of the centres, circles that do not meet have none, and orthogonality is reported exactly for circles meeting at right angles.",
 ["inputs"], "all pairs and triples of circles in every relative position, including tangent ones",
 "one pair of circles is tested for orthogonality; power, radical axis and radical centers are never tested directly",
 [("Circle.power/radical_center/radical_axis/angle/is_orthogonal, radical_center", G)], ["return values"])
prop("C08", "Orthogonal circles and arcs through two points are right",
 "For any two points inside a circle, or any two angles on it, the constructed circle passes through both points and is orthogonal to the reference circle, or is the line (segment, if an arc is asked for) through them when they are aligned with the centre. A requested arc has the two points as its ends and stays inside the reference circle. A point that is not strictly inside the reference circle is rejected by the interior construction.",
 ["inputs"], "all reference circles (radius above, below and equal to 1), all pairs of interior points, all pairs of angles including negative ones and more than a turn, arc or circle",
 "one pair of angles on one circle is tested, without arc; the interior construction is never tested",
 [("Circle.orthogonal_through_two_points_in_circle / _on_circle", G)], ["returned Circle, Arc or Line objects; ValueError"])
prop("C09", "Arcs, paths and points at an angle follow their curve",
 "The path of an arc has the requested number of points, all on the circle, evenly spaced counterclockwise from the starting point to the ending point, which are the points of the circle at the two given angles, in degrees or radians, negative or beyond a full turn. The path of an ellipse has the requested number of points, all on the ellipse, evenly spaced in eccentric angle over one turn without repetition. The point of a circle at an angle is the point at that polar angle.",
 ["inputs"], "all centres, radii, angle pairs in all quadrants and turns, both units, all path lengths in the bound",
 "Arc is never tested; Ellipse.path only through three points of one ellipse",
 [("Arc.path/starting_point/ending_point, Ellipse.path, Circle.point_from_angle", G), ("circle_points_, ellipse_points_", I)], ["returned arrays"])
prop("C10", "Mid-circles and swapping or fixing inversions do what they say",
 "For every pair of circles: the inversion (or reflection) returned to swap them maps each to the other, each mid-circle, used as the mirror of an inversion (or reflection, for a line), swaps them, and secant circles have two mid-circles, all others one. The sign of the power of the swapping inversion follows the request whenever that sign is possible. The inversions returned to fix two or three circles leave each of them invariant.",
 ["inputs"], "all pairs of circles in every relative position, congruent or not, in both orders, with either sign requested; triples of circles with non-collinear centres",
 "tests sample one pair per relative position; congruent pairs, tangent congruent pairs and requested signs are unreached for swapping",
 [("mid_circles, Inversion.from_swapping_two_circles / from_fixing_*", G)], ["returned Inversion, Reflection, Circle, Line objects and their action"])
prop("C11", "Inversions act as inversions on points, circles and lines",
 "An inversion sends each point other than the pole to the point of the line through the pole at which the product of the signed distances is the power, exchanges the pole and infinity, and is its own inverse. The image of a circle or a line, directly, through the generic entry point or through a line's own method, is exactly the circle or line made of the images of its points, after any sequence of inversions. Composing two inversions gives the Möbius transformation performing them in the documented order.",
 ["inputs", "histories"], "all poles, powers of either sign, points, circles and lines (through the pole or not), all sequences of inversions up to the depth bound, both composition sides",
 "tests check three points of one circle and one composition; lines through the pole, circles through the pole, gcircles and sequences are unreached",
 [("Inversion.invert/invert_circle/invert_line/invert_gcircle/compose, Line.invert", G), ("inversion_to_conjugate_mobius_", I)], ["returned points and objects"])
prop("C12", "Möbius transformations form a group acting on the extended plane",
 "Composition, inversion and integer powers of Möbius transformations act on every point, and on infinity, as composition, inverse and iteration of the maps do, in the documented order. Generalized powers agree with integer powers and with composition (exponents add). The fixed points reported are fixed and are all the finite ones.",
 ["inputs", "histories"], "all sequences of compositions, inversions and powers up to the depth bound over generators of every type (elliptic, parabolic, hyperbolic, loxodromic, scalar, real and complex entries), all points including the pole and infinity, all integer exponents in the bound",
 "tests check three matrices at exponents 2 and -2; action on infinity, inverse, sequences and fixed points are unreached",
 [("Mobius.compose/inverse/power/gpower/transform/fixed_points", G), ("det2x2_mat_", I)], ["returned Mobius objects' action on points"])
prop("C13", "Möbius transformations map circles and lines to circles and lines pointwise",
 "The image of a circle or of a line by a Möbius transformation is exactly the circle or line made of the images of its points: a line if and only if the pole of the transformation lies on the curve. This holds after any sequence of transformations and agrees with the composed transformation.",
 ["inputs", "histories"], "all generators, all circles and lines (pole outside, inside, at the centre, on the curve, at a defining point of the line, no pole), all sequences up to the depth bound",
 "tests check four (transformation, curve) pairs",
 [("Mobius.transform_circle/transform_line", G), ("Line.direction_offset", G)], ["returned Circle or Line objects"])
prop("C14", "Möbius maps from correspondences, and cross ratios, are right",
 "The Möbius transformation constructed from two triples of distinct points, infinity allowed anywhere in either triple, sends each point to its counterpart; the one constructed from two circles maps the first onto the second. The cross ratio is invariant under Möbius transformations, takes its classical value in the documented order of arguments, is real exactly when the four points lie on a circle or line, and repeated points are refused.",
 ["inputs"], "all triples of distinct points of the grid with infinity in any position, all pairs of circles, all quadruples of points",
 "tests check one triple pair without infinity, one circle pair, two quadruples",
 [("Mobius.from_mapping_three_points/from_mapping_one_circle, cross_ratio", G), ("mobius_from_three_points_to_zero_one_inf_, is_inf_", I)], ["returned Mobius objects' action; returned complex numbers"])
prop("C15", "Affine maps form a group acting on points, row by row",
 "Composition (on either side) and inversion of affine maps act on every point as composition and inverse of the maps do, after any sequence of operations; a singular map has no inverse. A matrix of points is mapped row by row, the augmented 3x3 matrix represents the map, and the map constructed from two triples of non-collinear points, or from one ellipse or circle to another, sends each point to its counterpart, respectively the first curve onto the second; collinear triples give none.",
 ["inputs", "histories"], "all sequences of compositions and inversions up to the depth bound over the generators, all points, all triples of grid points, all pairs of ellipses/circles",
 "tests check one map on random rows and one triple pair; compose order, inverse and from_ellipse_to_ellipse are unreached",
 [("Affine.compose/inverse/transform/get3x3matrix/from_mapping_three_points/from_ellipse_to_ellipse", G)], ["returned points, Affine objects' action"])
prop("C16", "Elementary transformations meet their definitions in all three forms",
 "Rotation, homothety, axis scaling, directional scaling, shear, reflection and projection each fix their center, vertex or axis and act as their definition says (turn by the angle counterclockwise, multiply by the scale, multiply the component along the direction or each axis, slide parallel to the first vector, mirror, project). For each, transforming points one at a time, transforming a matrix of points where supported, multiplying by the augmented 3x3 matrix and converting to an affine map all agree.",
 ["inputs", "configurations"], "all transformation classes, all parameters in the alphabet (angles in both units and any turn, negative and fractional factors, any direction), all points, single or as matrices of 1 to 4 rows",
 "tests compare row-wise and point-wise results of four objects; the defining equations, get3x3matrix and as_affine of most classes are unreached",
 [("Rotation, Shear, ScalingXY, Homothety, Scaling, Reflection, Projection", G)], ["transform results, get3x3matrix, as_affine"])
prop("C17", "Transformed lines, circles and ellipses are the images of their points",
 "For every affine map and every rotation, homothety, reflection and scaling offering it, the transformed line, circle or ellipse is exactly the set of the images of the points of the original, lines keeping their extension flags and ellipses having their major radius at least their minor one. This holds after any sequence of such transformations. Singular affine maps give no transformed line or ellipse.",
 ["inputs", "histories"], "all sequences of transformations up to the depth bound over the generators of each class, starting from lines, circles and ellipses in degrees or radians",
 "tests check one affine map on one ellipse (3 points), one homothety, one scaling and two rotations",
 [("Affine.transform_ellipse/transform_line, Rotation.*, Homothety.transform_circle, Reflection.*, Scaling.scale_circle, Line.rotate/translate", G)], ["returned objects"])
prop("C18", "The representations of an ellipse convert into one another losslessly",
 "Center, radii and angle, implicit equation, shape matrix and five points of an ellipse each determine the same ellipse: every conversion and every round trip between them gives back an equal curve, with the major radius first, whatever the position of the ellipse relative to the origin, its angle, unit, eccentricity, or a non-zero factor multiplying the equation. Coefficients or points that do not define an ellipse are rejected.",
 ["inputs", "histories"], "all ellipses in the alphabet (any centre, angle incl. 0, 45, 90, 135 degrees, unit, circles included), all chains of conversions up to the depth bound, all small integer coefficient vectors",
 "tests check one ellipse per conversion, all of them containing or near the origin and at generic angles",
 [("Ellipse.equation/from_equation/shape_matrix/from_center_and_matrix/from_five_points/equation_from_five_points, Circle.as_ellipse", G), ("ellipse_from_center_and_eigen_", I)], ["returned Ellipse objects, dictionaries, matrices; ValueError"])
prop("C19", "Ellipse membership and equality describe the curve",
 "A point is reported on an ellipse exactly when it satisfies the ellipse's equation up to rounding, and inside exactly when it lies in the closed region it bounds. Two ellipses (or an ellipse and a circle) are reported equal exactly when they are the same curve, whatever the unit of the angle, multiples of half turns added to it, or the angle given to a circular one.",
 ["inputs"], "all ellipses in the alphabet, points at many directions strictly inside, on and strictly outside, all pairs of representations",
 "tests check membership on one ellipse with random points it generates, never a negative answer",
 [("Ellipse.includes/contains/is_equal", G)], ["Boolean results"])
prop("C20", "Angles, normals and diameters of an ellipse are right everywhere",
 "The point of an ellipse at an angle from its major axis lies on the ellipse in that direction, for every angle (negative, multiples of a quarter turn, beyond a turn), given in degrees or radians, one at a time or as a vector. The conversion to the eccentric angle gives the parameter of that same point, continuously over turns; the normal is the outward unit normal at the given eccentric angle; a diameter is the chord through the center at the given eccentric angle and the conjugate diameter is parallel to the tangents at its ends.",
 ["inputs"], "all ellipses in the alphabet, all angles of a fine grid over several turns in both directions including every multiple of a quarter turn, both units, scalars and vectors",
 "only diameter(0) and diameter(pi/2) of one ellipse are tested",
 [("Ellipse.point_from_angle/theta2t/normal/diameter", G)], ["returned points, numbers, vectors, Line objects"])
prop("C21", "The circles and centers of a triangle satisfy their definitions",
 "The circumcircle passes through the three vertices; the incircle and the three excircles are tangent to the three side lines, with their centers inside the triangle, respectively across the side opposite to the named vertex; the orthic triangle has the feet of the altitudes as its correspondingly named vertices. This holds for every non-flat triangle, acute, right or obtuse, in any orientation and vertex order; a flat triangle has no circumcircle.",
 ["inputs"], "all non-flat triangles with vertices in the grid, in every vertex order, under all frames",
 "tests check the excircles of one triangle, and only that they touch lines",
 [("Triangle.circumcircle/incircle/excircles/orthic_triangle", G)], ["returned objects"])
prop("C22", "Malfatti circles, equal detour point and Steiner ellipses are right",
 "For every non-flat triangle: the three Malfatti circles lie inside, are pairwise externally tangent at the reported points and each, named after a vertex, is tangent to the two sides through that vertex; going through the equal detour point lengthens every side trip by the reported detour. The Steiner ellipse passes through the vertices and the Steiner inellipse touches the sides at their midpoints, both centered at the centroid; a flat triangle has neither Malfatti circles nor Steiner ellipses.",
 ["inputs"], "all non-flat triangles with vertices in the grid, in every vertex order, under all frames; flat triangles",
 "Malfatti tangency is tested on one triangle; the other constructions never",
 [("Triangle.malfatti_circles/equal_detour_point/steiner_ellipse/steiner_inellipse", G)], ["returned objects"])
prop("C23", "Triangle measures and predicates are exact",
 "Side lengths, angles (each at its vertex, summing to a half turn), orientation, flatness (1 exactly for flat triangles, less otherwise) and acuteness (for triangles that are not right-angled) are those of the three given points in the given order. A point off the sides' lines is reported inside exactly when it is interior, whatever the orientation.",
 ["inputs"], "all triangles and points of the grid, in every vertex order, under all frames",
 "only containment of random interior points of one triangle is tested, never a negative answer",
 [("Triangle.edges/a/b/c/angleA/angleB/angleC/orientation/flatness/is_acute/contains", G)], ["properties and return values"])
prop("C24", "The minimum-area enclosing ellipse is found whatever the random choices",
 "For every finite set of points in general position, and for every sequence of random choices the algorithm may draw, the returned Löwner-John ellipse contains all the points, has the minimum area among ellipses containing them, and is therefore the same ellipse for every sequence of choices. The smallest ellipse through three given points and through four given points in convex position passes through them, and none through them has a smaller area.",
 ["inputs", "fault_sequences"], "all sequences of random draws (an exhaustively enumerated environment), all point sets of the bounded alphabet",
 "LownerJohnEllipse, from_boundary3 and from_boundary4 are never tested; the random draws multiply the executions",
 [("Ellipse.LownerJohnEllipse/from_boundary3/from_boundary4/from_five_points", G)], ["returned Ellipse objects"])
prop("C25", "Random points belong to their shape for every answer of the generator",
 "Whatever the random generator answers, the requested number of points is returned as rows, each inside the circle, ellipse or triangle, or on its boundary, as requested. Over equally likely answers of the generator, points inside are uniformly spread by area (any part of the shape gets its share), points on the boundary of a circle are uniformly spread by arc length and on the boundary of a triangle by perimeter. An unknown kind of point or a non-positive or non-integer count is rejected.",
 ["inputs", "fault_sequences"], "all answers of the random generator over a quantile grid including extremes (exhaustively enumerated environment), all shapes in the alphabet",
 "tests draw three points of one ellipse and one triangle with the real generator; rare answers and distribution are unreached",
 [("Circle/Ellipse/Triangle.random_points", G), ("runif_on_circle_, runif_in_circle_, runif_on_ellipse_, runif_in_ellipse_, runif_on_triangle_, runif_in_triangle_", I)], ["returned arrays; ValueError"])
prop("C26", "Steiner chains close up and stay tangent",
 "For every exterior circle, number of circles (at least three), eccentricity parameter strictly between -1 and 1 and shift, the chain consists of that many circles plus the inner circle: each chain circle is internally tangent to the exterior circle, externally tangent to the inner circle and to its two neighbours, cyclically. The returned ellipse passes through the centers of all the chain circles, and shifting by a whole number of circles only renumbers the chain; a shift by any amount turns the chain by that many n-ths of a turn, as seen after an inversion that makes the exterior and inner circles concentric, and leaves the inner circle in place.",
 ["inputs"], "all combinations of exterior circle, n, phi and shift in the alphabet",
 "SteinerChain is never tested", [("SteinerChain, SteinerChain_phi0_", G)], ["returned circles and ellipse"])
prop("C27", "Operations are pure: no history can change a result",
 "No operation modifies its receiver, its arguments or any shared state: after every sequence of operations on shared objects, all objects and all caller-supplied arrays have their original values (and no new public attributes), and each operation returns the same result as it does on freshly built objects in a fresh state. Objects returned earlier are not changed by later operations. Writing afterwards in the arrays an object was built from, or in the arrays, lists and objects an operation returned, does not change the object, the receiver, or any later result. A call given one object, or one array, twice, or an array that one of its objects holds, does what it does for equal but distinct values.",
 ["histories"], "all sequences of operations up to the depth bound over a menu covering the whole API, on a shared pool of objects and shared caller arrays",
 "tests perform each operation once on fresh objects",
 [("every public class", G), ("module-level state", I)], ["attributes of the pool objects, caller arrays, results of repeated calls"])
prop("C28", "The accepted representations of points, numbers and angles are equivalent",
 "Giving a point or vector as a tuple, a list or an array, of integers or of floats, or a number as a Python or NumPy number, does not change the result of any constructor or operation. Giving an angle in degrees or the same angle in radians does not change it either.",
 ["inputs", "configurations"], "all constructors and operations taking points, numbers or angles, all representations, in every argument position",
 "tests use one representation per call",
 [("error_if_not_point_, is_vector_, is_number_", I), ("np.asarray conversions, degrees flags", G)], ["results of the calls"])
prop("C29", "Invalid arguments are rejected, valid ones are accepted",
 "Every constructor, and every operation for its point, number, angle, count and validated Boolean-flag arguments, rejects with a ValueError an argument that is not a point (two real coordinates) where a point is expected, not a real number where a number is expected, not positive where a positive number is expected, or not a Boolean, in every argument position, and leaves the receiver unchanged; constructors and operations taking another object reject an object of another class likewise, and so do coincident points where distinct ones are required, matrices that are not 2x2 (Affine, Mobius) and out-of-range shear angles. Arguments just inside the valid range are accepted. Not claimed: the coefficients of Ellipse.from_equation, the point or matrix of points given to `transform` of an affine-type transformation or to Rotation.rotate, matrices and arrays of points of ellipse constructions, and the class of the object given to Circle.angle, intersection_line_line, Inversion.on_circle, Affine and Reflection operations and Mobius.compose.",
 ["inputs"], "all constructors and operations, every argument position, all classes of invalid values in the alphabet",
 "no existing test checks any rejection",
 [("error_if_not_* functions", I), ("constructors and isinstance checks", G)], ["exceptions"])
prop("C30", "The unimodular matrices generated are complete",
 "For every n at least 2, the generated list consists of the identity and of exactly the 2x2 integer matrices of determinant one with entries between 0 and n whose first row dominates its second row entrywise, each once. For every n at least 1 all generated matrices have determinant one and entries between 0 and n; non-integer or smaller n is refused.",
 ["inputs"], "all n up to the bound",
 "unimodular_matrices is never tested", [("unimodular_matrices", G), ("farey_, farey_stack_", I)], ["returned list; ValueError"])
prop("C31", "Concurrent calls on shared objects behave as sequential ones",
 "When two threads call operations on the same objects at the same time, each call returns what it returns when run alone, under every interleaving of the two, and the objects keep their values.",
 ["schedules"], "all pairs of operations of the menu on shared objects, all interleavings at source-line granularity up to the preemption bound",
 "tests are single-threaded", [("absence of module-level or object-level scratch state", G), ("absence of module-level scratch state", I)], ["results of the calls; attributes of the shared objects"])
prop("C32", "Multi-step constructions keep their invariants",
 "Iterated constructions built from the library keep their exact invariants at every step: circles of an Apollonian gasket generated from a Steiner chain by words of inversions stay tangent as their ancestors were; hyperbolic tessellation arcs and circles stay orthogonal to the boundary circle; the trajectory of an elliptical billiard, computed by intersection, eccentric angle and normal, keeps the product of its focal distances; images of circles by words of Schottky generators stay nested and disjoint.",
 ["histories"], "all words of generators up to the depth bound, all starting configurations of the alphabet",
 "the examples that do this are never executed by the tests, which perform single steps",
 [("Inversion, Mobius, SteinerChain, Circle.orthogonal_*, Ellipse.theta2t/normal, intersection_ellipse_line", G)], ["returned objects at each step"])

prop("C33", "Every operation on valid objects ends with a well-formed result",
 "Every constructor, method and function applied to valid objects in any relative position (tangent, concentric, parallel, nearly parallel, coincident, flat, nearly flat, far from the origin, tiny, huge) terminates without an unannounced exception and returns a result of a documented kind that is well formed: points given as arrays of two finite coordinates, positive radii, a major radius at least the minor one, distinct points of a line, a non-zero power, an invertible Möbius matrix, Booleans for predicates, non-negative distances. Where the requested object does not exist the result is None or a ValueError, as the operation announces, never a malformed object or an error about something else. Not claimed: incircles and excircles of flat triangles, radical centers of circles with aligned centers, inversions fixing concentric circles or three circles through one point, projections along their own axis, and scalings by zero applied to circles.",
 ["inputs", "configurations"], "all operations on all pairs and triples of a pool of ordinary and degenerate objects, under all frames",
 "tests call each operation on one ordinary configuration and never look at the kind of the result for degenerate ones",
 [("every public class and function", G), ("error_if_not_*, line_line_intersection_, circle_line_intersection_", I)], ["kinds and attributes of results; exceptions"])
prop("C34", "Figures far from the origin are treated like near ones",
 "Moving a figure in general position (size one to ten) by up to about a million in any direction, possibly turned, moves the result of every operation along: discrete answers are the same, and points, radii and angles deviate by no more than about a millionth of the size of the figure. This holds for lines, circles, arcs, ellipses, triangles, inversions, reflections, rotations, homotheties, scalings, shears and affine maps (applied to objects given where they are); Möbius maps and equations of ellipses, whose coefficients hold products of the coordinates, are not claimed.",
 ["inputs"], "all operations on all combinations of the alphabet of figures, all displacements (eight directions, distances up to 2^20) and turns",
 "every figure of the tests sits at the origin",
 [("every public class and function but Mobius", G), ("line_line_intersection_, circle_line_intersection_", I)], ["results compared with the moved results of the figure at the origin"])

prop("C35", "show() describes the object as it is",
 "For every object, show() prints its defining data under their names with their actual values and the right angle unit, says of a line whether it is infinite, a half-line (naming its origin) or a segment in agreement with the points that belong to it, of a triangle that it is flat, or almost flat (flatness above 0.99, with the value), exactly when it is, and of a projection that it is orthogonal when it was built so, naming a direction orthogonal to the line. It returns nothing and changes nothing.",
 ["inputs", "configurations"], "all classes with a description, all objects of the pools, flags, units, under all frames",
 "no test captures what is printed",
 [("Line/Circle/Ellipse/Inversion/Triangle/Affine/Mobius/Reflection/Projection/Rotation/Shear/ScalingXY/Homothety/Scaling.show", G)], ["printed text"])

prop("C36", "Circles from two points; different routes to one figure agree",
 "circleAB(A, B) has the midpoint of its ends as center and half their distance as radius, circleOA(O, A) has center O and passes through A. Routes that geometry says lead to one figure do so: the radical center of the circles on the sides of a triangle is its orthocenter; the circumcircles of its medial and orthic triangles and its circumcircle shrunk by one half at the orthocenter are one circle, touching the incircle and the excircles; the triangle of the excenters has the triangle as orthic triangle; the Steiner ellipses are affine images of the circles of an equilateral triangle. Two reflections are a rotation by twice the angle of the lines, or a translation; half turns, homotheties of ratio -1, equal scalings of both axes, two perpendicular scalings and two inversions with the same pole agree with the homothety; scalings by -1 and 0 with the reflection and the projection. A circle taken as an ellipse meets lines in the same points, contains the same points and has the same images.",
 ["inputs", "configurations"], "all pairs of points, all triangles of a grid, all pairs of lines, all centers, directions and factors, all circles and lines of the alphabet, under all frames",
 "tests check single results on one configuration and never confront two routes",
 [("circleAB, circleOA, Circle.as_ellipse", G), ("Triangle, Reflection, Rotation, Homothety, Scaling, ScalingXY, Shear, Projection, Inversion, Affine", G)], ["returned objects and images of points"])

prop("C37", "Arguments left out take the documented defaults; names work like places",
 "Leaving out any subset of the optional arguments of a constructor or operation gives what the documented defaults give when written out (lines infinite in both directions, angles in degrees, membership not strict, composition on the left, points inside, a hundred points of a path, whole circles rather than arcs, ...), whatever the other arguments are and whether they are given by position or by name. Constructors accept all their arguments by name, in any order and any mixture with positions, and the objects hold their defining data under these names.",
 ["inputs", "configurations"], "all operations with optional arguments, all subsets left out, all values of the others, all receivers and mandatory arguments of the alphabet; all constructors and splits between positions and names",
 "tests call each operation in one way, and never compare a call relying on a default with one that writes it out",
 [("every constructor and operation with optional arguments", G)], ["results of the calls", "attributes of the objects"])

prop("C38", "Changed attributes take effect at once, and only there",
 "An object is what its public attributes (named as in its printed description) currently say. After they have been assigned other valid values, or after the contents of the arrays they hold have been changed in place, every operation on the object, or given the object as an argument, returns what it returns for an object built with these values from the start, whatever operations were performed on it before the change; changing them back brings back the earlier results. The change affects no other object, not even those built from it or returned by its operations, and no array of the caller.",
 ["histories"], "all operations with an object in any place of its class, all objects of the pool, all changes to the values of another pool object or to one differing in one constructor argument, all orders: operations, change, operations, change back, operations",
 "tests never change an object",
 [("every class with public attributes", G)], ["results of the calls", "attributes of the other objects", "caller arrays"])

prop("C39", "Copies, pickled objects and subclass instances serve like the original",
 "A shallow or deep copy of an object, the object restored from a pickle, and an instance of a user's subclass that overrides nothing (with or without a constructor signature of its own) hold the same data and give the same results as the original in every operation, as receiver or as argument, together with the original or instead of it. A deep copy or a restored pickle shares nothing with the original, also when taken after use: changing one does not change the other or its results.",
 ["configurations", "histories"], "all operations, all objects of the pool in every place of their class, all ways of copying and subclassing, before and after use",
 "tests never copy, pickle or subclass an object",
 [("every public class, isinstance checks", G)], ["results of the calls", "attributes of copies and originals"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
