TECH["*"] = "bounded-exhaustive enumeration"
NOTE["*"] = "Holds on every execution of the enumerated finite spaces (listed with their sizes in the evidence); outside them nothing is claimed. The real code runs on every edge, so model and implementation are compared on every explored transition."
TECH["C01"] = 'model checking: all pairs of lines over integer grids, frames and choices of the two defining points; relations compared with exact rational ones'
TECH["C02"] = 'model checking: all lines x extension flags x positions x offsets x frames; membership compared with exact rational membership'
TECH["C03"] = 'model checking: all lines x positions x frames, directrices and motions; results compared with exact rational geometry'
TECH["C04"] = 'model checking: all pairs of lines, flags and frames; intersections compared with exact rational ones'
TECH["C05"] = 'model checking: all relative positions of a line and a circle or ellipse x defining points x frames; number and position of the intersections compared with exact ones'
TECH["C06"] = 'model checking: all relative positions of two circles x frames; number and position of the intersections compared with exact ones'
TECH["C07"] = 'model checking: all relative positions of two or three circles x frames; powers, axes, centers and angles compared with exact ones'
TECH["C08"] = 'model checking: all pairs of interior grid points and of angles of regular polygons; constructed circles and arcs compared with exact ones'
TECH["C09"] = 'model checking: all pairs of angles, counts, units and shapes; every point of every path compared with its definition'
TECH["C10"] = 'model checking: all relative positions of two or three circles x frames; the returned maps are applied exactly to the circles'
TECH["C11"] = 'model checking: explicit-state search over words of inversions with an exact model of generalised circles beside the real object on every edge'
TECH["C12"] = 'model checking: explicit-state search over words of compositions, inverses and powers with exact Gaussian rational matrices beside the real object on every edge'
TECH["C13"] = 'model checking: explicit-state search over words of Möbius maps applied to circles and lines with an exact Hermitian-matrix model beside the real object on every edge'
TECH["C14"] = 'model checking: all pairs of triples (infinity included), pairs of circles and quadruples of points of finite sets compared with exact ones'
TECH["C15"] = 'model checking: explicit-state search over words of compositions and inverses with exact rational matrices beside the real object on every edge; all small integer matrices, triples and pairs of curves'
TECH["C16"] = 'model checking: all centers, directions, factors, angles and flags; four forms of each transformation compared with its exact matrix'
TECH["C17"] = 'model checking: explicit-state search over words of transformations of lines, circles and ellipses with exact conics beside the real object on every edge'
TECH["C18"] = 'model checking: explicit-state search over words of conversions of ellipses with the exact conic beside the real object; all small integer equations classified exactly'
TECH["C19"] = 'model checking: all ellipses, parameters and offsets, grid points, and pairs of neighbouring ellipses compared with the exact conic'
TECH["C20"] = 'model checking: all ellipses x angles x units, scalar and vector, compared with the exact conic'
TECH["C21"] = 'model checking: all triangles of an integer grid in every vertex order x frames; circles and feet compared with exact ones'
TECH["C22"] = 'model checking: all triangles of an integer grid in every vertex order x frames; results tested against their defining conditions'
TECH["C23"] = 'model checking: all triangles of an integer grid in every vertex order x frames; measures and predicates compared with exact ones'
TECH["C24"] = 'model checking: stateless exploration of every sequence of answers of the random generator (all for 3-4 points, bounded deviations for more), with an optimality certificate on each result'
TECH["C25"] = 'model checking: stateless exploration of every sequence of generator answers on a quantile grid, membership and distribution decided over the complete grid'
TECH["C26"] = 'model checking: all circles, counts, eccentricities and shifts; tangencies checked cyclically on each chain'
TECH["C27"] = 'model checking: stateless exploration of all pairs (triples) of calls and of neighbouring calls, each history in a pristine process, with snapshots of the whole state after each call'
TECH["C28"] = 'model checking: all calls x arguments x representations, results compared with those for float arrays'
TECH["C29"] = 'model checking: all calls x argument positions x invalid values, singly and in pairs'
TECH["C30"] = 'model checking: all n up to the bound compared with a brute-force enumeration'
TECH["C31"] = 'model checking: stateless exploration of all schedules of two threads with a preemption bound under a controlled scheduler (a scheduling point before every library statement)'
TECH["C32"] = 'model checking: explicit-state search over words of the generators of each construction with its invariant checked on every state'
TECH["C33"] = 'model checking: all operations on all combinations of a pool of ordinary and degenerate objects x frames; kind and well-formedness of each result checked'
TECH["C34"] = 'model checking: all operations on all combinations of figures x displacements x turns; results compared with the moved results at the origin'
TECH["C35"] = 'model checking: all classes x pools of objects x flags x units x frames; the printed description parsed and compared with the exact object'
TECH["C36"] = 'model checking: all configurations of an alphabet x frames; each figure built by several routes of the library, all compared with the exact one'
TECH["C37"] = 'model checking: all operations x receivers x subsets of arguments left out x values and ways of giving the others, compared with the call that writes everything out'
TECH["C38"] = 'model checking: stateless exploration of all histories operation(s), change of attributes, operation(s), change back, over all objects, changes and orders, compared with objects built with the new values'
TECH["C39"] = 'model checking: all calls x objects x places x ways of copying, pickling and subclassing, and histories use, copy, change, use, compared with the original'
