"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

EM = "dreimac/emcoords.py"; TO = "dreimac/toroidalcoords.py"; CI = "dreimac/circularcoords.py"
PR = "dreimac/projectivecoords.py"; CP = "dreimac/complexprojectivecoords.py"; LE = "dreimac/lenscoords.py"
UT = "dreimac/utils.py"; CO = "dreimac/combinatorial.py"; PL = "dreimac/plotting_utils.py"

prop("C01", "Circular coordinates are the harmonic circle map of the chosen class",
 "For any finite metric dataset, prime, scale and bump function, the circular coordinate of every covered point equals, up to one rotation per connected component of the landmark complex at the chosen scale, the map obtained by replacing the integer lift of the selected class by its least-squares (harmonic) representative over the landmark edges shorter than the scale and gluing its local integrals with the partition of unity. "
 "There is exactly one value per data point, in input order, and every value is an angle in [0, 2*pi].",
 ["inputs", "configurations"], "All finite point clouds and distance matrices (square or landmarks-by-points), all primes, class indices, perc in (0,1), standard_range on and off, all bump functions, any number of landmarks.",
 "The only circular test (trefoil) samples two fixed clouds at one prime and scale and checks that nearest neighbours get close angles with a 10% tolerance; a wrong sign, weight, index or solver result that stays continuous passes.",
 [CI, TO, EM, UT], [("harmonic representative by least squares", TO + ":_integrate_harmonic_representative"), ("sparse integration over the cover", TO + ":_sparse_integrate"), ("coboundary matrix", UT + ":CohomologyUtils.make_delta0")],
 [("integer cocycle", "integer lift of the selected mod-p cocycle", TO)], ["return value of CircularCoords.get_coordinates"])

prop("C02", "Circular coordinates preserve the selected cohomology class",
 "Following the circular coordinate along any loop of landmark edges shorter than the chosen scale gives an integer winding number, which is zero around every triangle of the complex and congruent modulo the prime to the evaluation of the selected class on the loop (up to one global sign). "
 "When the balanced integer lift of the class representative is already a cocycle at that scale, the winding number equals its evaluation exactly.",
 ["inputs", "configurations"], "All metric datasets with a non-trivial 1-dimensional class, all primes, scales, bump functions, and all loops of the landmark complex.",
 "Pull-back of the class (the Guarantee in docs/theory.rst) is never evaluated by a test; existing tests never compute a winding number.",
 [CI, TO, EM, UT], [("integer lift", UT + ":CohomologyUtils.lift_to_integer_cocycle"), ("choice of the first covering ball", EM + ":EMCoords.get_covering_partition"), ("scale between birth and death", EM + ":EMCoords.get_cover_radius")],
 (), ["CircularCoords.get_coordinates on data points sampled densely along landmark edges"])

prop("C03", "Integer lifting is verified, repaired when it fails, or refused",
 "When the balanced integer lift of a selected class is not a cocycle at the chosen scale, circular and toroidal coordinates (for every one of the selected classes) and complex projective coordinates are still computed from a genuine integer cocycle congruent modulo the prime to that class, whenever one exists. "
 "If no integer lift exists, an error identifying the offending class index is raised and no coordinates are returned. "
 "When the balanced lift already is a cocycle, switching the check off does not change the result.",
 ["inputs", "configurations"], "All datasets, primes (in particular 2, 3 and 5) and scales for which the balanced lift fails, including classes with torsion obstruction and several failing classes at once.",
 "One test hits the repair path once (trefoil, prime 3, one class); several failing classes, torsion classes, and the degree-2 repair are never reached.",
 [TO, CP, UT], [("cocycle test", TO + ":_is_one_cocycle"), ("degree-2 cocycle test", CP + ":_is_two_cocycle"), ("integer linear programme", TO + ":ToroidalCoords.get_coordinates"), ("compact coboundaries", UT + ":CohomologyUtils.make_delta1_compact")],
 (), ["get_coordinates of CircularCoords, ToroidalCoords, ComplexProjectiveCoords: return value or exception"])

prop("C04", "Toroidal coordinates are a unimodular, lattice-reduced change of basis",
 "With k selected classes, toroidal coordinates return k circle-valued maps that are integer combinations, through a matrix of determinant +1 or -1, of the k individual circle maps at the common scale (each up to rotations), and the inner products of the corresponding harmonic cocycles form an LLL-reduced basis (size-reduced, Lovasz condition with constant 3/4). "
 "The Gram matrices and change of basis recorded by the object are those of the input maps, of the output maps and between the two; with a single class the result is the circular coordinate.",
 ["inputs", "configurations"], "All datasets with several 1-dimensional classes whose supports intersect, all orderings and sub-selections of classes, primes, scales and bump functions.",
 "Tests compare one scalar norm of two recorded matrices with <= on four fixed shapes, which holds for unreduced output, for a non-unimodular change of basis and for maps unrelated to that matrix.",
 [TO, UT], [("LLL reduction", TO + ":_lll"), ("Gram matrix", TO + ":_gram_matrix"), ("combination of circle maps", UT + ":CircleMapUtils.linear_combination")],
 (), ["return value of ToroidalCoords.get_coordinates", "recorded Gram matrices and change of basis"])

prop("C05", "Real projective coordinates represent the selected mod-2 class",
 "Before dimensionality reduction every covered point is represented, up to sign, by the unit vector whose squared entries are its partition-of-unity weights and whose relative signs are given by the selected mod-2 class on the landmark edges; reduction to proj_dim yields unit vectors with proj_dim+1 entries, one per point in input order. "
 "Transporting the representative continuously around a loop of landmark edges flips its sign exactly when the class is odd on the loop.",
 ["inputs", "configurations"], "All metric datasets with a non-trivial mod-2 class, all class indices, target dimensions, reduction modes, scales and bump functions.",
 "Tests check only the number of rows and an inequality on a variance that is identically zero in the tested mode.",
 [PR, EM, UT], [("sign matrix of the cocycle", PR + ":ProjectiveCoords.get_coordinates"), ("partition of unity", EM + ":EMCoords.get_covering_partition"), ("equivariant PCA", UT + ":EquivariantPCA.ppca")],
 (), ["return value of ProjectiveCoords.get_coordinates"])

prop("C06", "Lens coordinates represent the selected mod-q class",
 "Before dimensionality reduction every covered point is represented, up to a q-th root of unity, by the unit complex vector whose squared moduli are its partition-of-unity weights and whose relative phases are the q-th roots of unity given by the selected mod-q class on the landmark edges; reduction yields unit vectors with complex_dim entries, one per point in input order. "
 "Transporting the representative continuously around a loop of landmark edges multiplies it by the q-th root of unity given by the class on the loop (up to one global complex conjugation).",
 ["inputs", "configurations"], "All metric datasets with a non-trivial class modulo a prime q, all class indices, complex dimensions from 1 up, reduction modes, scales and bump functions.",
 "No test constructs lens coordinates at all.",
 [LE, EM, UT], [("root-of-unity matrix of the cocycle", LE + ":LensCoords.get_coordinates"), ("partition of unity", EM + ":EMCoords.get_covering_partition"), ("equivariant PCA", UT + ":EquivariantPCA.ppca")],
 (), ["return value of LensCoords.get_coordinates"])

prop("C07", "Complex projective coordinates represent the selected degree-2 class",
 "Before dimensionality reduction every covered point is represented, up to a unit complex scalar, by the unit vector whose squared moduli are its partition-of-unity weights and whose phases integrate the harmonic representative of the integer lift of the selected degree-2 class, whatever the number of points and landmarks; reduction to proj_dim yields unit vectors with proj_dim+1 entries, one per point in input order. "
 "The Chern number of the resulting map on any closed triangulated surface of landmark triangles is congruent modulo the prime to the evaluation of the selected class on it (up to one global sign).",
 ["inputs", "configurations"], "All metric datasets with a non-trivial 2-dimensional class, of any size, all primes, class indices, target dimensions, reduction modes, scales and bump functions.",
 "Tests check only row counts and a vacuous variance inequality, on two large datasets; phases (the part that carries the class) are never examined and small datasets are never run.",
 [CP, EM, UT], [("phase assembly", CP + ":_sparse_integrate"), ("least squares primitive", CP + ":ComplexProjectiveCoords.get_coordinates"), ("antisymmetric tensors", CP + ":_two_cocycle_to_tensor")],
 (), ["return value of ComplexProjectiveCoords.get_coordinates"])

prop("C08", "Equivariant PCA reduces projectively, optimally and equivariantly",
 "Reducing unit row vectors to projective dimension k yields unit vectors with k+1 entries obtained (where the eigenvalues at each cut differ) by successive projections onto the top eigenspaces of the data: all at once in direct mode, halving the surplus dimensions in exponential mode, one dimension at a time in one-by-one mode (which also reports, per dropped dimension, the mean squared angle of the points to the hyperplane orthogonal to it). "
 "Multiplying any input row by a unit scalar multiplies its output by the same scalar, a unitary change of input basis changes the output only by a fixed unitary, rows may be permuted freely, data already spanning at most k+1 dimensions is mapped isometrically, and rows with undefined entries do not affect the others.",
 ["inputs", "configurations"], "All real or complex matrices of unit rows, all target dimensions from 0 to d-1, all three modes.",
 "Only exercised inside large end-to-end tests in exponential mode, whose variance is identically zero, so any projection passes.",
 [UT], [("reduction loops", UT + ":EquivariantPCA.ppca")], (), ["return value of EquivariantPCA.ppca"])

prop("C09", "The scale interpolates between birth and death, or the call is refused",
 "The radius of the covering balls is half of (1-perc)*start + perc*end, where end is the smallest death and start is the largest birth of the selected classes, doubled when standard_range is on; the same radius is used for every kind of coordinate. "
 "If start exceeds end the call raises an error instead of returning coordinates, and so does selecting classes whose lifetimes do not intersect.",
 ["inputs", "configurations"], "All datasets, class selections, perc values in [0,1], both settings of standard_range, and all five kinds of coordinates.",
 "No test reads the radius or provokes either error.",
 [EM, TO], [("range selection", EM + ":EMCoords.get_cover_radius"), ("common support of classes", TO + ":ToroidalCoords.get_coordinates")],
 (), ["radius handed to a user-supplied bump function", "exceptions of get_coordinates"])

prop("C10", "Partitions of unity cover exactly the open balls and flag uncovered points",
 "For every bump function that is positive below the radius, the weights of a point are non-negative, sum to one, are proportional to the bump of its distance to each landmark and vanish exactly at landmarks at distance at least the radius; the bump function receives exactly the distances below the radius, and integer-valued distances give the same weights as floating-point ones. "
 "Points in no open ball trigger a warning stating how many there are and get undefined (NaN) coordinates, without disturbing the coordinates of any covered point.",
 ["inputs", "configurations"], "All distance matrices (any numeric type), radii and bump functions (linear, quadratic, exponential and user-supplied), with and without uncovered points, for every kind of coordinate.",
 "Tests use one bump function on data that is always fully covered and never look at the weights.",
 [EM, UT], [("covering partition", EM + ":EMCoords.get_covering_partition"), ("bump functions", UT + ":PartUnity")],
 (), ["EMCoords.get_covering_partition", "coordinates and warnings of get_coordinates"])

prop("C11", "Landmarks are a maxmin sample; classes are indexed by decreasing persistence",
 "The landmarks are a farthest-point sample of the data starting at its first point (all points, when as many landmarks as points are asked for), and the stored diagrams are those of the Rips filtration of the landmarks over the chosen field, with positive-degree classes ordered by decreasing persistence. "
 "The representative returned for a class index has the birth and death of that bar, refers to landmarks by their position in the sample, is a cocycle at every scale before the death, and is not a coboundary at any scale between birth and death; together the representatives alive at a scale form a basis of the cohomology there.",
 ["inputs", "configurations"], "All point clouds, distance matrices and landmarks-by-points matrices, numbers of landmarks, primes and maximal dimensions (degrees 1 and 2).",
 "No test looks at landmarks, diagram order or representatives.",
 [EM, UT], [("persistence and sorting", EM + ":EMCoords.__init__"), ("reindexing of cocycles", UT + ":CohomologyUtils.reindex_cocycles"), ("representative lookup", EM + ":EMCoords.get_representative_cocycle")],
 (), ["diagrams", "get_representative_cocycle", "distances handed to the bump function"])

prop("C12", "Coordinates depend only on the metric data, not on its presentation",
 "A point cloud, its square distance matrix, and the landmarks-by-points part of that matrix give the same coordinates up to the symmetries of the target space; rigid motions of a point cloud and rescaling of all distances change nothing either. "
 "Reordering the non-landmark points reorders the coordinates accordingly, and circular coordinates of a point do not depend on which other non-landmark points are present.",
 ["inputs", "configurations"], "All point clouds in general position, presentations, isometries, scale factors and reorderings, for every kind of coordinate.",
 "Tests never run the same data through two presentations or transform it.",
 [EM, CI, TO, PR, CP, LE], [("input handling", EM + ":EMCoords.__init__")], (), ["return values of get_coordinates for related inputs"])

prop("C13", "Coordinate queries are repeatable and free of side effects",
 "On one object, any sequence of coordinate queries with any parameters (including refused ones) gives for each query the same answer as a freshly built object, independently of other objects created or queried in between. "
 "Queries never modify the input data, the arguments passed to them, the stored diagrams, or previously returned coordinates, and modifying returned arrays does not influence later queries.",
 ["histories", "configurations"], "All interleavings of constructions and queries over several objects and all five kinds of coordinates.",
 "Each test builds one object and queries it once.",
 [EM, TO, CI, PR, CP, LE, UT], [("in-place integer lift must be idempotent", UT + ":CohomologyUtils.lift_to_integer_cocycle"), ("per-query state", EM + ":EMCoords.get_cover_radius")],
 [("cocycle store", "representatives, lifted in place on first use", EM)], ["return values of get_coordinates over a history"])

prop("C14", "Simplex numbering is a bijection that agrees across all its entry points",
 "For every number of vertices and dimension, numbering the increasing vertex tuples enumerates 0, 1, ..., (number of simplices)-1 without gaps or repeats, in co-lexicographic order, and consistently for every larger vertex set. "
 "The reported number of simplices is the binomial coefficient, and the specialised numberings of edges and triangles agree with the general one, compiled or not.",
 ["inputs"], "All vertex counts and dimensions up to the sizes representable in 64 bits, all increasing tuples.",
 "One test checks five triangles on five vertices.",
 [CO], [("binomial table", CO + ":combinatorial_number_system_table"), ("forward numbering", CO + ":combinatorial_number_system_forward")], (), ["return values"])

prop("C15", "Coboundary matrices are those of the Rips complex and compose to zero",
 "At every threshold the degree-0, 1 and 2 coboundary matrices have one non-zero row exactly for each simplex all of whose edges are shorter than the threshold, with the alternating signs of the simplicial coboundary (up to one global sign per matrix), and consecutive ones compose to zero. "
 "The compact variants contain exactly the rows of the simplices present, and nothing else.",
 ["inputs"], "All distance matrices (of any numeric type), thresholds (including ones equal to some distance) and numbers of points.",
 "No test looks at a coboundary matrix.",
 [UT, CO], [("make_delta0", UT + ":CohomologyUtils.make_delta0"), ("make_delta1", UT + ":CohomologyUtils.make_delta1"), ("compact variants", UT + ":CohomologyUtils.make_delta1_compact"), ("degree 2", UT + ":CohomologyUtils.make_delta2_compact")], (), ["return values"])

prop("C16", "Cochain bookkeeping respects orientation, residues and landmark order",
 "The integer lift of a mod-p cochain keeps its support, is congruent to it modulo p, has absolute values at most p/2 and is stable under lifting again. "
 "Converting a sparse cochain to a vector puts each value at the number of its sorted simplex multiplied by the sign of the sorting permutation and zero elsewhere, so permuting the vertices of a simplex multiplies the entry by the sign of the permutation. "
 "Reindexing replaces every vertex by its position in the landmark list and leaves values alone.",
 ["inputs"], "All sparse cochains of degree 0 to 3 with any vertex order, all primes, all landmark lists.",
 "No test touches these operations.",
 [UT], [("lift", UT + ":CohomologyUtils.lift_to_integer_cocycle"), ("orientation", UT + ":CohomologyUtils.order_simplex"), ("vectorisation", UT + ":CohomologyUtils.sparse_cocycle_to_vector"), ("reindexing", UT + ":CohomologyUtils.reindex_cocycles")], (), ["return values"])

prop("C17", "Farthest-point sampling is greedy, and its reports describe the sample",
 "Both farthest-point samplers start at the first point and at each step add a point at maximal distance from those already chosen; each reported insertion radius is that distance (hence they never increase), and the reported distances and landmarks are those of the returned indices. "
 "The point-cloud sampler with any cross-distance function agrees with the matrix sampler on the corresponding distance matrix, and neither modifies its input.",
 ["inputs"], "All point clouds and distance matrices, any number of landmarks from 1 to all, any cross-distance function.",
 "Neither sampler is called by a test.",
 [UT], [("point clouds", UT + ":GeometryUtils.get_greedy_perm_pc"), ("distance matrices", UT + ":GeometryUtils.get_greedy_perm_dm")], (), ["return values"])

prop("C18", "Geodesic landmark distances are shortest paths, consistently reordered",
 "The returned permutation lists every point once with the landmarks first, and the returned matrix holds, for landmark i and reordered point j, the length of a shortest path in the undirected k-nearest-neighbour graph (infinite when disconnected); its leading square block is symmetric with zero diagonal. "
 "The landmarks form a farthest-point sample for that distance, starting at the first point, and the result is a valid landmarks-by-points input for every kind of coordinate.",
 ["inputs"], "All point clouds, numbers of landmarks and neighbour counts.",
 "The function is only used in notebooks, which are not tests.",
 [UT], [("nearest-neighbour graph and shortest paths", UT + ":GeometryUtils.landmark_geodesic_distance")], (), ["return values"])

prop("C19", "Distance functions return the true metric",
 "The Euclidean cross-distance matrix equals the pairwise distances between the rows of its two arguments (of any numeric type) up to rounding, and is never negative or undefined; self-distances are its symmetric special case. "
 "The projective arc length between unit vectors is the angle between the lines they span: it lies in [0, pi/2], ignores signs, is zero for equal or opposite points, is symmetric, satisfies the triangle inequality, and is never undefined.",
 ["inputs"], "All real matrices with matching numbers of columns, including repeated, huge, tiny and antipodal points.",
 "No test compares these functions with anything.",
 [UT], [("Euclidean", UT + ":GeometryUtils.get_csm"), ("projective", UT + ":GeometryUtils.get_csm_projarc")], (), ["return values"])

prop("C20", "Circle-map arithmetic is the group structure of the circle",
 "Rotating by an offset adds that fraction of a turn, so offsets add up and whole turns do nothing; integer linear combinations are additive, compose like matrix products, are unaffected by whole turns of their inputs, and accept one or several combinations, as lists or arrays. "
 "Centering applies one common rotation and moves a most populated part of the circle to pi. All results are angles in [0, 2*pi] and the arguments are left unmodified.",
 ["inputs"], "All arrays of angles, offsets, and integer matrices.",
 "Only used inside one end-to-end test that checks a matrix norm.",
 [UT], [("offset", UT + ":CircleMapUtils.offset"), ("center", UT + ":CircleMapUtils.center"), ("linear_combination", UT + ":CircleMapUtils.linear_combination")], (), ["return values"])

prop("C21", "Circle colourings are periodic, bounded and faithful",
 "The sinebow colour of an angle is an RGB triple in [0,1] that sums to 3/2, is periodic, varies continuously and separates different angles, with one triple per input of any shape. "
 "The level-set colouring with n level sets lies in [0,1], repeats after 1/n of a turn, is a 0/1 indicator alternating between 2n equal arcs without smoothing, and with smoothing is symmetric within each level set, complementary half a level set further, and rises monotonically from its edge to its middle, the more gently the larger the smoothing.",
 ["inputs"], "All angles, numbers of level sets and smoothing parameters.",
 "Colourings are only used in notebooks.",
 [UT], [("sinebow", UT + ":CircleMapUtils.to_sinebow"), ("level sets", UT + ":CircleMapUtils.levelset_coloring")], (), ["return values"])

prop("C22", "Rotations and stereographic charts of projective space are exact",
 "The rotation taking a vector to another (or to the north pole) is orthogonal with determinant one, takes the direction of the first to that of the second, fixes everything orthogonal to both, and this for all pairs of non-zero vectors including equal and opposite ones. "
 "The projective stereographic chart maps every line to a point of the closed unit ball, ignores the sign of the representatives, and determines the line; without a given pole it uses the direction of least variance. "
 "Converting a disk point to a pole gives a unit vector on the closed upper hemisphere above it, with outside points first pulled back radially to the circle.",
 ["inputs"], "All dimensions from 2 up, all non-zero vectors, all point sets on the sphere, all poles.",
 "None of these functions is called by a test.",
 [UT], [("rotmat", UT + ":ProjectiveMapUtils.rotmat"), ("chart", UT + ":ProjectiveMapUtils.get_stereo_proj_codim1"), ("pole selection", UT + ":ProjectiveMapUtils.circle_to_3dnorthpole")], (), ["return values"])

prop("C23", "Hopf map and two-disk chart turn complex projective lines into the sphere",
 "The Hopf map takes unit vectors of C^2 to unit vectors of R^3, ignores unit scalars, and turns the squared modulus of the inner product of two vectors into (1 + the inner product of their images)/2. "
 "The two-disk chart rotates the given centre to the north pole and projects each hemisphere stereographically to its own unit disk, the upper one shifted by 2.5 along the first axis, so that every point of the sphere can be recovered.",
 ["inputs"], "All unit vectors in C^2 and R^3 and all centre vectors.",
 "Neither function is called by a test.",
 [UT], [("Hopf map", UT + ":ProjectiveMapUtils.hopf_map"), ("two disks", UT + ":ProjectiveMapUtils.stereographic_projection_hemispheres")], (), ["return values"])

prop("C24", "The lens-space chart is well defined on lens space and faithful",
 "Every point of the unit sphere in C^2 has a defined image in the closed unit ball; away from the glued boundary, points that differ by a common q-th root of unity have the same image, and the image determines the point of the lens space; a point of the glued boundary goes to one of its two glued images. "
 "The chart keeps the modulus of the second coordinate as horizontal radius and varies continuously in the interior of the fundamental domain.",
 ["inputs"], "All unit vectors of C^2, including ones with a vanishing coordinate, and all q from 2 up.",
 "The function is only used in notebooks.",
 [UT], [("fundamental domain", UT + ":LensMapUtils.lens_3D_to_disk_3D")], (), ["return values"])

prop("C25", "Example datasets are the spaces they claim to be, reproducibly",
 "Every example generator returns the documented number of finite samples in the documented dimension, each lying on (or within the stated noise of) its space: unit sphere, torus and Klein bottle of the given radii, genus-two surface, trefoil tube, noisy circles, line patches, moving-dot patches of the requested size, projective plane, Moore space; large samples leave out no part of it. "
 "Equal arguments give equal data whatever the state of the global random generator, explicit seeds select different samples, and returned distance matrices are symmetric, non-negative, zero on the diagonal and nowhere else (up to rounding) and consistent with the returned points.",
 ["inputs", "configurations"], "All generator arguments (sample counts, radii, noise, seeds, primes, patch sizes).",
 "Tests use a few generators as fixtures with one set of arguments and check nothing about the samples.",
 [UT], [("generators", UT + ":GeometryExamples")], (), ["return values"])

prop("C26", "Plots show exactly the data they are given",
 "Scatter-type plots place one mark per data point at its position with its colour, image scatters draw each patch at its position with the right pixels and one common grey scale, and the patch grid gives every patch its own cell in row-major order of a smallest square grid. "
 "Boundary and mesh helpers draw unit circles and spheres on the axes given (or the current ones), with arrows that mark which boundary points are identified (antipodal ones, or the same angle of two disks), equalising 3D axes gives all three the same length and centre without hiding anything, and dimension mismatches warn.",
 ["inputs", "configurations"], "All point sets, patch sets, colourings and axes.",
 "Plotting is only imported by tests.",
 [PL], [("image scatter", PL + ":PlotUtils.imscatter"), ("grid", PL + ":PlotUtils.plot_patches"), ("projective plots", PL + ":PlotUtils.plot_rp2_stereo"), ("axes", PL + ":PlotUtils.set_axes_equal")], (), ["artists on the axes"])

prop("C27", "Equivalent calls give the same coordinates",
 "Asking for the same coordinates in another way gives the same answer (or the same refusal): arguments by name, by position in the published order, or left out where they have the published default (one most persistent class, perc 0.5 for circular, toroidal and complex projective and 0.9 for real projective and lens coordinates, linear bump, standard range, cocycle check, exponential reduction, target dimension 2, 2 and 1 for projective, lens and complex projective, primes 41 and 3 for lens), a larger maximal homology degree, or progress messages on. "
 "Circular coordinates are the toroidal coordinates of a single class, and lens coordinates with prime 2 are the real projective coordinates (up to a fixed unitary map and signs).",
 ["inputs", "configurations"], "All datasets, kinds of coordinates, parameters and ways of passing them.",
 "Tests use one way of calling each class and never compare two.",
 [CI, TO, PR, LE, CP, EM], [("argument passing", CI + ":CircularCoords.get_coordinates"), ("constructors", EM + ":EMCoords.__init__")], (), ["return value of get_coordinates of the five classes"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
