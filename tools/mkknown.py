#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired by a "fix:" commit of /repo (suppress nothing)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
C11 27f9d4e Inversion.invert_gcircle raised TypeError for every circle and line
C24 64a2ac0 Ellipse.from_boundary4 used the alias np.float, absent from the installed NumPy (AttributeError for every quadrilateral that is not a trapezoid)
C01 ab29f71 Line.is_equal took opposite parallel lines as equal, and equal lines as different when their directions wrap around
C02 ed05eed strict Line.includes excluded the origin of a half-line
C08 fe50df7 orthogonal_through_two_points_in_circle compared a distance with the squared radius (inside points rejected or outside points accepted when the radius is not 1)
C08 da807f9 orthogonal_through_two_points_in_circle returned the outer arc when the inner one crosses the angle 0
C10 c5c76a3 Inversion.from_swapping_two_circles returned None instead of the announced reflection for congruent circles
C18 3a3faa5 Ellipse.from_equation rejected real ellipses far from the origin and accepted equations without real points
C18 3e54b5c Ellipse.from_equation ignored the xy term when A equals C
C27 02ca7b5 Ellipse.point_from_angle converted the array of the caller to radians in place
C20 48d2027 Ellipse.theta2t raised at angle 0, and it and point_from_angle were off by a half turn near some multiples of pi
C12 488c87c Mobius.fixed_points took the real square root of a complex number
C13 896b93e Mobius.transform_line failed when the line is given by the pole of the transformation
C14 10655d5 Mobius.from_mapping_three_points gave NaN when one of the points is infinity
C16 ae32be4 a Shear did not fix its vertex nor its first vector (linear part left untransposed)
C28 c385177 Projection.show read attributes that lines do not have
C17 5de5fde Scaling.scale_circle exchanged the radii for scales below -1
C07 7876a0d Circle.angle raised a domain error for some tangent circles
C04 888e10c the intersection of two equal lines was None instead of the documented line
C04 898fd0f the strict intersection of two lines was never computed
C03 84982a0 Reflection.transform raised for points very near the line
C05 a6e3ec9 tangent lines were missed or not according to rounding and to the distance of the points of the line
C01 a86f813 parallelism and perpendicularity of lines depended on the distance of the points defining them
C19 bed79ed Ellipse.is_equal compared angles without wrapping around 180 degrees, and compared the angles of circles
C19 adbc6de Ellipse.includes had an absolute tolerance on an equation of the size of the fourth power of the radii
C08 d7681b9 orthogonal_through_two_points_on_circle returned a huge wrong circle for opposite points up to rounding
C10 c2d6e2d Inversion.from_swapping_two_circles returned an inversion of power nearly zero for circles tangent up to rounding
C10 281388f mid_circles returned a vanishing circle for congruent circles tangent up to rounding
C13 e0621f4 Mobius.transform_circle gave a huge circle or NaN when its pole is on the circle or at the center up to rounding
C12 9aebd37 Mobius.transform divided by zero at the pole when it is not exactly the rounded quotient
C15 0f6c4c5 singular affine maps were taken as invertible because of the rounding of their determinant
C23 88d9500 Triangle.orientation was the opposite of the documented one
C23 07cd2f2 Triangle.flatness divided by zero when two vertices coincide
C23 e4cbfbf the angles of flat triangles raised a domain error because of rounding
C24 4fb5bd9 Ellipse.from_boundary4 returned a huge ellipse for trapezoids, because of a cubic root equal to 1 or -1 up to rounding
C28 519d440 radii and equation coefficients given as narrow NumPy integers wrapped around silently
C29 cc12454 Mobius accepted a number, a vector or a 3x3 matrix silently
C12 b99ded1 Mobius.gpower took maps given by a small matrix as parabolic
C06 b1b2589 small circles were taken as tangent, and large tangent circles as disjoint, by their intersection and their angle
C10 0426dff mid_circles took small secant circles as tangent
C06 bee7e6e points near a small circle were taken as on it (C07: small circles as orthogonal), because of an absolute tolerance on squares
C11 e5ec110 Inversion.invert_circle took small circles near the pole as passing through it
C13 ecec069 Mobius.transform_line took lines as passing through the pole of a map given by a small matrix
C02 52c4979 distinct points far from the origin were taken as equal (also C01, C03-C08, C10, C11, C13, C15, C22)
C13 3c5d726 Mobius.transform_circle did not terminate for small circles far from the origin
C07 7496b5a Circle.angle lost its accuracy for circles far from the origin
C12 3cf77db Mobius.gpower of a nearly parabolic map (such as diag(1+2^-13, 1)) raised LinAlgError or lost its small part
C33 b8fcc62 the perpendicular through a point which is almost on the line raised an error about other points
C33 18b388c the inversion fixing two tangent circles had power zero
C33 1f8f142 transform_ellipse was inaccurate for thin ellipses and for small ellipses far from the origin
C34 8cbb6e6 Ellipse.contains was inaccurate for small ellipses far from the origin and overflowed for NumPy integers
C34 4ac1e9e Ellipse.shape_matrix was inaccurate for small ellipses far from the origin
C34 9d4d283 Ellipse.is_equal took large ellipses with different radii or centers for equal
C33 52b139b Circle.radical_axis raised an error about other points for nearly concentric circles
C34 3facc93 Ellipse.from_five_points was inaccurate or failed for points far from the origin, and took some parabolas for ellipses
C34 5cecd7d intersections of lines, projections and reflections were inaccurate far from the origin
C34 3845918 Triangle.circumcircle and Inversion.invert_line were inaccurate far from the origin
C34 ae3bc8d the matrix of a projection was inaccurate far from the origin
C27 ddcffec objects built from arrays (or from other objects, as Inversion.on_circle) shared these arrays: writing in them later moved the object
C13 77eac72 Mobius.transform_circle looped forever for a circle of radius below 1e-8 through the pole
C01 3317925 Line.is_equal took a line through the origin given by points a hundred thousand away as different from itself given by other such points
C27 543b6b3 intersecting equal circles or lines, or inverting a line through the pole, returned the operand itself: writing in the result moved the operand
C13 7b243ed Mobius.transform_line made a circle (of radius 1e24) of a line through the pole with large coordinates
""".strip().splitlines()
fixed = []
for l in F:
    p, c, w = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(fixed))
