#!/usr/bin/env python3
"""writes properties.jsonl (the source of the property texts)"""
import json
C = "structrans/crystallography/"
M = "structrans/marttrans/"
L = M + "lat_cor/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Enumeration of Hermite normal forms is complete and duplicate-free",
     "For every positive determinant n and dimension N, the enumeration by determinant lists exactly the integer N x N lower-triangular matrices with positive diagonal of product n whose entries left of the diagonal satisfy -H[i,i] < H[i,j] <= 0, each once; the enumeration by diagonal lists exactly those with the given diagonal. Every integer matrix with |det| = n has its Hermite normal form in the list exactly once. A negative determinant is a ValueError.",
     ["inputs"], "all determinants, diagonals and dimensions (explored: dimension 1-5, determinants up to 300 in 2D and 40 in 3D), both modules that offer the enumeration",
     "test_hnf compares a few determinants in 3D with counts; completeness and uniqueness are statements about every determinant, diagonal and dimension",
     [C + "hnf.py", C + "sublattice.py", "structrans/util/utils.py"],
     [("enumerate off-diagonal residues", C + "hnf.py:hnf_from_diag"), ("all factorizations of n", C + "hnf.py:hnf_from_det, util/utils.py:divisors")],
     ["hnf_from_det", "hnf_from_diag", "HermiteNormalForms"])

prop("C02", "Hermite normal form decomposition is exact and canonical",
     "For every full-rank square integer matrix M the decomposition returns integer matrices H and L with M = H L exactly, L unimodular and H lower triangular with positive diagonal and -H[i,i] < H[i,j] <= 0 left of it. H depends only on the lattice spanned by the columns of M: it is the same for M U with any unimodular U, and the same with or without asking for H only. The input matrix is not modified.",
     ["inputs"], "all full-rank integer matrices whose determinant fits into 64 bits (explored: dimension 1-5, entries up to 1e6), any container",
     "test_hnfd tries random small 3 x 3 matrices; large entries, other dimensions, zero pivots, and invariance under change of basis are not sampled",
     [C + "hnf.py", C + "sublattice.py"],
     [("column gcd elimination, recursion on the sub-block", C + "hnf.py:hnfd"), ("forward substitution for L", C + "hnf.py:hnfd")],
     ["hnfd", "HNFDecomposition"])

prop("C03", "Lattice equality means: the same set of points",
     "Two lattices compare equal exactly if their bases span the same set of points, i.e. one basis is the other times a unimodular integer matrix, in any dimension; in particular a proper sublattice or superlattice, a rotated, sheared or scaled lattice that is a different point set, a lattice of another dimension and anything that is not a lattice compare unequal. Equality is reflexive, symmetric and transitive, and != is its negation.",
     ["inputs"], "all well-conditioned bases in dimension 1-6 and all integer or rational changes of basis with moderate entries",
     "test_equality tries a handful of pairs; the equivalence must hold for every basis change, and the tests never compare a sublattice in both directions",
     [C + "lattice.py"], [("E1^-1 E2 is integer and unimodular", C + "lattice.py:__eq__")], ["Lattice ==, !="])

prop("C04", "Point and Laue groups are the full symmetry groups of Bravais lattices",
     "For every 2D and 3D Bravais lattice, given by its parameters or by any basis of the same lattice, the point group consists of exactly the orthogonal matrices that map the lattice onto itself and the Laue group of exactly the rotations among them (whenever all of these belong to the cubic/square or the hexagonal group in conventional orientation). The elements are distinct, closed under multiplication and inversion, and contain the identity; order() is their number. For lattices of any other dimension asking for these groups is an AttributeError.",
     ["inputs", "configurations"], "all 14 + 5 lattice types, all lattice parameters (away from accidental near-symmetries within 1e-4), all changes of basis",
     "test_groups checks the orders for a few parameters; nothing compares the elements with the true symmetry group or changes the basis",
     [C + "lattice.py", C + "matrix_group.py", C + "bravais_lattice.py"],
     [("filter of the cubic and hexagonal groups", C + "lattice.py:Laue_group, point_group"), ("group tables", C + "matrix_group.py")],
     ["Lattice.Laue_group", "Lattice.point_group", "MatrixGroup.matrices"])

prop("C05", "Lattice groups are the integer form of the point groups",
     "The lattice group of a 2D or 3D lattice with basis E consists of exactly one integer unimodular matrix M = E^-1 Q E for every Q in its point group, and the special lattice group likewise for its Laue group. In any dimension, the point-group test accepts a matrix exactly if it is orthogonal and maps the lattice onto itself, and the lattice-group test exactly if it is an integer matrix with E M E^-1 orthogonal; matrices of the wrong shape are not accepted.",
     ["inputs"], "all Bravais lattices, changes of basis, and lattices in dimension 1-5 for the membership tests",
     "the tests look at a single lattice per type; correspondence of the two groups and the negative answers of the membership tests are universally quantified",
     [C + "lattice.py"], [("Q E = E M", C + "lattice.py:lattice_group, special_lattice_group, inlatticegroup"), ("orthogonality and equality", C + "lattice.py:inpointgroup")],
     ["Lattice.lattice_group", "Lattice.special_lattice_group", "Lattice.inpointgroup", "Lattice.inlatticegroup"])

prop("C06", "Bravais lattices have the geometry of their type and parameters",
     "For every Bravais lattice type and valid parameters the conventional base has exactly the edge lengths and angles of the parameters, in the conventional right-handed orientation (orthogonal axes along x, y, z; a along x; monoclinic unique axis b; rhombohedral threefold axis [111]; hexagonal a and b at 60 degrees), and the primitive base spans exactly the conventional lattice plus its centring points. The conventional base is the primitive base times the integer conversion matrix, and the type number, parameters, dimension and printed description report the given type and values.",
     ["inputs", "configurations"], "all 14 + 5 types and all positive parameters with geometrically possible angles, given as number, list or array",
     "there are no tests of Bravais lattices at all (test_bravais_lattice.py is empty)",
     [C + "bravais_lattice.py"], [("primitive vectors and centring matrices per type", C + "bravais_lattice.py:__primitiveBase3D__, __primitiveBase2D__"), ("description", C + "bravais_lattice.py:__str__")],
     ["BravaisLattice.base", "conventional_base", "conventional_trans", "str()"])

prop("C07", "Conversion between primitive and conventional Miller indices",
     "Converting a Miller index from the conventional to the primitive base (or back) gives the components of the same vector in the other base, for every Bravais lattice. The two conversions are inverse to each other, a list of indices is converted element by element in order, and an index of the wrong dimension is a ValueError.",
     ["inputs", "configurations"], "all lattice types and all integer, rational or real index vectors, single or in lists of any length",
     "never exercised by the reliable tests; must hold for each lattice type and every index",
     [C + "bravais_lattice.py"], [("conversion matrix and its inverse", C + "bravais_lattice.py:to_primitive_Miller, to_conventional_Miller")],
     ["to_primitive_Miller", "to_conventional_Miller"])

prop("C08", "Matrix groups: the named groups are groups and the subgroup test is exact",
     "The predefined cubic, hexagonal, square and 2D hexagonal groups are finite groups of orthogonal matrices of order 24, 12, 4/8 and 6/12. For matrix groups G and H, G.hassubgroup(H) is true exactly if every element of H is an element of G, and an argument that is not a matrix group is a TypeError.",
     ["inputs"], "all subgroups of the predefined groups, their conjugates by arbitrary rotations, groups of other order or dimension-compatible non-subgroups",
     "no reliable test of subgroups; the relation quantifies over all pairs of groups",
     [C + "matrix_group.py"], [("element-wise search", C + "matrix_group.py:hassubgroup"), ("tables", C + "matrix_group.py")],
     ["MatrixGroup.hassubgroup", "CUBIC_LAUE_GROUP, HEX_LAUE_GROUP, SQUARE_GROUP, SQUARE_EXT_GROUP, HEX2D_GROUP, HEX2D_EXT_GROUP"])

prop("C09", "LLL returns a reduced basis of the same lattice",
     "For every real or integer lattice basis (well-conditioned lattice, possibly very skewed basis), LLL returns a basis of the same lattice with the same orientation that is size-reduced (|mu_ij| <= 1/2) and satisfies the Lovasz condition with factor 3/4. The input basis is not modified.",
     ["inputs"], "all real bases in dimension 2-5, in particular reduced bases times long random products of shears",
     "no reliable test; reducedness is quantified over all bases and the number of iterations needed grows with the skewness",
     [C + "lattice_reduction.py"], [("size reduction from the last vector down", C + "lattice_reduction.py:Gauss_reduction"), ("swap until Lovasz holds", C + "lattice_reduction.py:LLL, swapping")],
     ["LLL"])

prop("C10", "Rotation matrices: axis-angle, Euler angles and screw operations",
     "rotation(angle, axis) is the right-handed proper rotation by that angle about that axis, for every axis of any length (also along or against the coordinate axes) and for angles in degrees (default) or radians. Euler(angles, order) is the product of the three right-handed rotations about the named fixed coordinate axes, the first one applied first. A screw operation of order n with pitch p along T is the rotation by 2 pi/n about T with translation p/n T (p reduced modulo n when it exceeds n), so that n applications are a translation by a multiple of T.",
     ["inputs"], "all angles, axes, axis orders (upper or lower case) and units",
     "test_utilities checks single examples (and does not run reliably); sense of rotation and degenerate axes need all directions",
     ["structrans/util/utils.py", C + "spacegroup.py"], [("orthonormal frame around the axis", "structrans/util/utils.py:rotation"), ("product of canonical rotations", "structrans/util/utils.py:Euler"), ("screw", C + "spacegroup.py:skew")],
     ["Euler", "rotation", "skew"])

prop("C11", "Stereographic projection and pole figures",
     "The projection of a direction p for zone axis z lies at radius |z| tan(theta/2), where theta is the angle between p and z, in the azimuth of p around z; directions in the lower hemisphere are projected as their mirror image through the equatorial plane, and the length of p does not matter. A pole figure is the list of the projections of its poles in order.",
     ["inputs"], "all integer or real poles and zone axes (away from the pole itself within 1.5 degrees, where the implementation rounds)",
     "untested; a geometric identity over all pairs of directions",
     [C + "stereogram.py"], [("half-angle formula in the frame of z", C + "stereogram.py:stereo_proj"), ("loop", C + "stereogram.py:pole_figure")],
     ["stereo_proj", "pole_figure"])

prop("C12", "Unit cells: corners, edges and drawing positions",
     "The vertices of a cell with origin o and edge vectors E are exactly the 2^n points o plus a subset of the edge vectors, each once, and its bonds are exactly the n 2^(n-1) edges, i.e. the pairs of corners differing by one edge vector, each once. A unit cell built from a Bravais lattice gives the corners and edges of its primitive and conventional cells at its current origin, and copying to a new position translates every point. The drawing points of the conventional cell are its corners followed by corners of the primitive cell at the same origin, each once: for orthogonal conventional cells exactly those that lie within its edges (lengthened by 5 percent).",
     ["inputs", "histories"], "all origins and bases, all Bravais lattices in 2D and 3D, and sequences of moving the origin and querying",
     "untested",
     [C + "visualization.py"], [("corner table", C + "visualization.py:vertex"), ("edge table", C + "visualization.py:bonds, UnitCell.bonds")],
     ["vertex", "bonds", "box", "UnitCell"])

prop("C13", "Batched matrix arithmetic agrees with matrix algebra",
     "For any list of d x d matrices stored as rows, the batched product, transpose, trace, determinant and (for symmetric matrices) eigenvalues equal those of the individual matrices, for any batch size, dimension and integer or real entries; the cofactor matrix C of A satisfies A C^T = det(A) I; sorted eigenvalues and eigenvectors of a symmetric matrix decompose it; unique rows are exactly the distinct rows. The divisors of n are exactly the positive integers dividing n, in increasing order.",
     ["inputs"], "dimension 1-4, batch sizes 1-50, integer and real entries; n up to 5000",
     "untested numerical kernels used by other parts",
     ["structrans/mat_math.py", "structrans/util/utils.py"], [("index arithmetic on rows", "structrans/mat_math.py"), ("trial division", "structrans/util/utils.py:divisors")],
     ["mat_dot", "mat_T", "mat_trace", "mat_det", "mat_eig", "cofactor", "unique_rows", "eigSort", "sort_eig", "divisors"])

prop("C14", "Martensite variants are the orbit of the stretch tensor",
     "For a stretch tensor U and Laue group G of the parent phase that contains the symmetry group of U, the variants are exactly the distinct matrices Q U Q^T with Q in G, U first, and the index lists partition the elements of G by the variant they map U to. A transformation is reversible exactly if the symmetry group of U is a subgroup of G, and otherwise asking for variants is an AttributeError. Setting U (from 1-4 numbers or a matrix) or the Laue group (group or Bravais type number) returns a new object and leaves the old one unchanged; a matrix that is not symmetric positive definite is a TypeError. A Microstructure takes the same values in place and reports the last ones set; a wrong number of values or type number is a MartensiteError that changes nothing.",
     ["inputs", "histories"], "all symmetric positive definite U near the identity of every symmetry type in any cubic orientation, all parent groups that are Laue groups of Bravais lattices, and sequences of set/get calls",
     "test_marttrans looks at one or two alloys (and does not run reliably); the orbit-stabilizer statement is about every U and every group",
     [M + "martensite.py"], [("orbit computation", M + "martensite.py:calcvariants"), ("subgroup test", M + "martensite.py:isreversible"), ("copy on set", M + "martensite.py:setU, setLaue"), ("set in place", M + "Compatibility.py:Microstructure")],
     ["Martensite.getvariants", "getvariant", "getLaueidx", "isreversible", "setU", "setLaue"])

prop("C15", "Twins: the twinning equation and the classification of twin pairs",
     "Of the variants, exactly the pairs (i < j) that can be joined by a coherent interface (middle eigenvalue of Ui^-1 Uj^2 Ui^-1 equal to one within 5e-3) are listed as twinnable, and each exactly twinnable pair has two distinct solutions (Q, a, n) of Q Uj = Ui + a n^T with Q a proper rotation and n a unit vector. A pair of symmetry-related variants is conventional exactly if a 180 degree rotation of the Laue group maps Ui to Uj, its axes are exactly the unit vectors (up to sign) whose 180 degree rotation does so, and it is compound exactly if there are two of them, else type I/II; of the solutions of a type I/II pair with axis e the first is the type I twin (n along e) and the second the type II twin (a along Ui e); XI and XII are |Ui^-1 e| and |Ui e| for the axis e of a type I/II twin and an AttributeError for a compound one. Parameters of a pair that is not twinnable are an AttributeError. The tables of a twin system (conventional, compound, type I and type II pairs and solutions) list exactly the pairs of that kind, by their indices.",
     ["inputs", "histories"], "all stretch tensors near the identity of tetragonal, orthorhombic, monoclinic, rhombohedral and triclinic type and all their pairs of variants, any parent Laue group, in any order of queries",
     "test_marttrans checks one NiTi-like example; the equation must hold for every pair of every U",
     [M + "twin.py"], [("180 degree axis formula (Mallard's law)", M + "twin.py:_solvetwin"), ("general solution", M + "twin.py:_solve_am"), ("axes", M + "twin.py:TwinPair.ax"), ("tables", M + "twin.py:TwinSystem")],
     ["TwinSystem", "TwinPair"])

prop("C16", "Austenite/twinned-martensite interfaces",
     "For an exactly twinnable pair of symmetry-related variants and each of its two twin solutions (a, n), the reported volume fraction f makes one the middle eigenvalue of (Ui + f a n^T)^T (Ui + f a n^T), and None is reported exactly if no f between 0 and 1 does. Each habit plane solution (R, b, m) satisfies R sqrt(C) = I + b m^T with R a rotation and m a unit vector, where C is that matrix for f (first two) or 1 - f (next two), four for every compatible twin solution; a pair is compatible iff some fraction exists, and the habit planes of an incompatible pair are an AttributeError. The cofactor value of a twin solution is minus half the derivative of det(C(f) - I) at f = 0 with C(f) = (Ui + f a n^T)^T (Ui + f a n^T).",
     ["inputs"], "all exactly twinnable pairs of stretch tensors near the identity of every symmetry type",
     "only one alloy is in the (unreliable) tests; existence and correctness of the solution depends on U continuously",
     [M + "twin.py"], [("quadratic in f", M + "twin.py:_solve_f"), ("rank-one solution", M + "twin.py:_solve_am")],
     ["TwinPair.volumefrac", "TwinPair.habitplanes", "TwinPair.iscompatible"])

prop("C17", "Rank-one connections between a phase and the reference",
     "For every symmetric positive definite C with eigenvalues l1 < 1 < l3 and middle eigenvalue one, both rank-one solvers return two distinct solutions (b, m) with (I + m b^T)(I + b m^T) = C and |m| = 1; the interface solver returns none if the middle eigenvalue differs from one by more than 1e-4 (with one still between l1 and l3), and an asymmetric matrix is rejected with its own error (CompatibilityError, TypeError). Two deformations A and B are reported compatible exactly if some rotation Q makes Q A - B a rank-one matrix.",
     ["inputs"], "all eigenvalue triples around one and all orientations; all pairs of invertible matrices",
     "one-example tests at most; identity over a 5-parameter family",
     ["structrans/util/utils.py", M + "Compatibility.py"], [("spectral formula", "structrans/util/utils.py:solve_rank1, " + M + "Compatibility.py:AM_Solver"), ("middle eigenvalue", M + "Compatibility.py:isCompatible")],
     ["AM_Solver", "solve_rank1", "isCompatible"])

prop("C18", "Transformation of directions and planes by a correspondence",
     "For an invertible correspondence L, transforming a direction d gives d' with L d' = d and transforming a plane p gives L^T p, so that every plane and direction keep their product (a direction in a plane stays in it). Lists are transformed element by element in order, a single vector gives a single vector, and transforming by the inverse correspondence undoes the transformation.",
     ["inputs"], "all invertible 2D/3D correspondences and all lists of directions and planes",
     "untested; duality is quantified over all pairs",
     [M + "orientation_relationship.py"], [("inverse and transpose", M + "orientation_relationship.py:direc_trans, plane_trans")],
     ["direc_trans", "plane_trans"])

prop("C19", "Distances between lattices",
     "For all bases E1, E2 and integer L, with K = E1 L E2^-1: the Cauchy distance is |K K^T - I|^2, the strain distance is sum (s_i - 1)^2 over the singular values s_i of K, and the Ericksen distance is |L^T E1^T E1 L - E2^T E2|^2 / |E2^T E2|^2 (Frobenius norms), in 2D and 3D. The vectorized Cauchy distance equals the scalar one for every batch size. The distances are non-negative, vanish exactly when E1 L is an orthogonal image of E2, and are unchanged by rotating either lattice or by replacing L by M1 L with M1 in the lattice group of the first lattice; the Cauchy and strain distances also by replacing L by L M2 with M2 in the lattice group of the second.",
     ["inputs"], "all bases, integer matrices and batch sizes (1-300) in 2D and 3D",
     "no test of the distance functions; the vectorized branch is only reached by batches of 100 or more",
     [L + "dist.py"], [("matrix formulas", L + "dist.py:Cauchy_dist, strain_dist, Eric_dist"), ("tensor contraction", L + "dist.py:Cauchy_dist_vec")],
     ["Cauchy_dist", "Cauchy_dist_vec", "strain_dist", "Eric_dist"])

prop("C20", "Optimal lattice-invariant shear search returns valid, ranked local optima",
     "For bases E1 and E2, the search returns unimodular integer matrices (determinant one), sorted by their distance, with the reported distances equal to the chosen distance function of the returned matrix, no two of them equivalent under the special lattice groups of the two lattices. There are at least as many as requested (with the default iteration limits), and those beyond the requested number are ties with the last requested one. For all three distances it is at least as close as the LLL-reduced start, and with the default limits and fewer than ten solutions (more generally, for maxiter up to miniter + 1) the best one, or one that ties with it, is a local minimum: its product (from the right) with no product of up to two elementary shears is closer, in 2D of up to miniter + 1 of them. Of equivalent matrices the closest is returned. Repeating the call gives the same distances.",
     ["inputs", "configurations"], "all pairs of lattices of comparable cell volume in 2D and 3D, all three distances, numbers of solutions, and depth limits",
     "test_latcor takes minutes on one pair and does not run reliably here; validity is quantified over all lattice pairs and options",
     [L + "lat_opt.py", L + "slnode.py", L + "dfs.py", C + "lattice_reduction.py"],
     [("steepest descent", L + "dfs.py:dfs, slnode.py:steepest_des"), ("breadth-first search with restart", L + "lat_opt.py:bfs"), ("ranked list without equivalents", L + "lat_opt.py:update_solutions")],
     ["lat_opt"])

prop("C21", "Lattice correspondences over sublattices (HNF search) are consistent and ranked",
     "Every solution of the sublattice search consists of a canonical Hermite normal form h whose determinant is an admissible size (within the volume threshold of the cell volume ratio, or its nearest integer if there is none), a unimodular l, the correspondence cor = C_A^-1 h l C_M, the symmetric positive definite stretch u with u^2 = F^T F for F E_A h l = E_M, its sorted eigenvalues lams, and the chosen distance d of h l. The solutions are sorted by d, are pairwise inequivalent under the special lattice groups of the two phases, are at least as many as requested (with the default iteration limits), and those beyond the requested number are ties with the last requested one. Of every class of sublattices of admissible size that are related by the special lattice group of the parent exactly one is searched, and the answer consists of the best of what these searches found. In 2D, with the default iteration limits, no correspondence of an admissible size has a smaller Cauchy or strain distance than the best one. The result does not depend on whether the sublattices are searched serially or in parallel with any completion order.",
     ["inputs", "schedules", "configurations"], "all pairs of Bravais lattices in 2D and 3D with sublattice sizes up to about 6, all distances, numbers of solutions, thresholds, and completion orders of the parallel tasks",
     "a single slow example in test_latcor (not reliable here); consistency, ranking and schedule independence hold for every pair and order",
     [L + "main_hnf.py", L + "lat_opt.py", C + "hnf.py"],
     [("admissible sizes", L + "main_hnf.py:lat_cor"), ("reduction by the lattice group", L + "main_hnf.py:reduce_hnfs"), ("merge of ranked lists", L + "main_hnf.py:merge_sols, add_sol, truncate_sols")],
     ["lat_cor_hnf"])

prop("C22", "The direct search finds the globally best lattice correspondences",
     "For two Bravais lattices the direct search returns, sorted by distance, the nsol integer matrices with the smallest Cauchy distance among all nonsingular integer matrices, one for each class of equivalent ones under the full lattice groups (with reflections) of the two phases (plus ties with the last); no closer correspondence exists. Each solution has positive determinant when its class contains such a matrix, and its correspondence cor = C_A^-1 l C_M, symmetric positive definite stretch u (u^2 = F^T F, F E_A l = E_M), sorted eigenvalues lams and distance d belong to l. The distances do not depend on the random start or on the slice size.",
     ["inputs", "schedules", "configurations"], "all pairs of 2D Bravais lattices (every pair checked against exhaustive enumeration), a smaller number of 3D pairs; any seed, slice size and number of solutions",
     "global optimality over the infinite set of integer matrices is a universally quantified statement; test_latcor checks one or two examples and does not run reliably here",
     [L + "main_direct.py", L + "quartic_opt.py", L + "dist.py"],
     [("bound on the length of better solutions", L + "main_direct.py:rmax, quartic_opt.py:quart_min"), ("exhaustive enumeration within the bound", L + "main_direct.py:vec_generator"), ("ranked list modulo equivalence", L + "main_direct.py:add_sol")],
     ["lat_cor_direct", "lat_cor"])

prop("C23", "Integer vectors in a ball are generated exactly once",
     "The generator of integer vectors yields every integer vector of the given dimension with Euclidean length at most the given maximum exactly once and nothing else. Started from a vector of that sequence, it yields exactly the rest of the sequence from that vector on that still lies within the (possibly smaller) maximum.",
     ["inputs", "histories"], "dimension 1-9, all radii, every restart point of the sequence and every smaller radius at restart",
     "untested; the restart is only used deep inside the correspondence search, where a skipped vector shows only as a missed optimum",
     [L + "main_direct.py"], [("recursive generator with mirrored halves", L + "main_direct.py:vec_generator")],
     ["vec_generator"])

prop("C24", "Queries neither modify their inputs nor depend on history",
     "No query of a lattice, martensite, twin system, group or utility function modifies an argument. Arrays a lattice, group, martensite, twin system or twin pair was built from, and values it handed out, can be modified by the caller without changing what the object (or a predefined group) reports later. Asking the same question again, in any order and interleaved with any other questions, gives the same answer as a fresh object; functions called again give the same result, generators run independently of each other, and the deprecated names give the same answers as the current ones.",
     ["histories"], "all sequences of queries on one object, of lattices, Bravais lattices, martensites, twin pairs and groups, including writes to returned arrays",
     "the tests query each object once or twice in a fixed order; the statement is about all histories, where lazily cached results can go stale or leak",
     [C + "lattice.py", C + "bravais_lattice.py", C + "matrix_group.py", M + "martensite.py", M + "twin.py"],
     [("copies on output", C + "lattice.py:base, matrix_group.py:matrices, martensite.py:getU"), ("lazy caches", C + "lattice.py, martensite.py, twin.py")],
     ["all getters"])

prop("C25", "Invalid input is rejected, not computed with",
     "Constructing a lattice from something that is not a square matrix, is singular or is not a number, or a Bravais lattice with a dimension other than 2 or 3, a type number out of range, a wrong number of parameters, a non-positive or undefined parameter or angles that no lattice has, is a ValueError, also when the correspondence searches are asked for such lattices; unknown axes or a wrong number of Euler angles are a ValueError; an unrecognizable Laue group is a ValueError and an unrecognizable stretch tensor a TypeError; the rank-one solver rejects a matrix that is not symmetric positive definite with a TypeError; a twin pair of matrices that are not symmetric positive definite is a ValueError, as is an unknown twin type. Valid input in the same form is accepted.",
     ["inputs"], "all malformed inputs obtained from valid ones by one mutation (shape, sign, count, type, symmetry, range)",
     "only test_construction tries a few malformed bases",
     [C + "lattice.py", C + "bravais_lattice.py", "structrans/util/utils.py", M + "martensite.py", M + "twin.py"],
     [("guards", "constructors and setters")],
     ["Lattice()", "BravaisLattice()", "Euler", "Martensite.setU/setLaue", "TwinPair()", "solve_rank1", "lat_cor_hnf, lat_cor_direct"])

prop("C26", "The printed report states the returned solutions",
     "With display switched off, neither correspondence search prints anything and the result is the same as with display on. With display on (and in the log, in either case), the report contains, for every returned solution in order, the rows of its correspondence, stretch matrix, eigenvalues and distance (and Hermite normal form, for the sublattice search) with the returned values rounded to the printed precision, the name of the distance, and the description of both input lattices.",
     ["inputs", "configurations"], "all pairs of 2D lattices (a few in 3D) and display levels, both searches",
     "never checked; the report is what most users read",
     [L + "main_hnf.py", L + "main_direct.py"], [("formatting", L + "main_hnf.py:_sols_tostr, main_direct.py:_sols_tostr"), ("display level", L + "main_hnf.py:lprint")],
     ["stdout of lat_cor_hnf, lat_cor_direct"])

prop("C27", "Results do not depend on the unit of length",
     "When all lengths are multiplied by the same positive factor, bases, conventional bases, points of the unit cell and LLL-reduced bases are multiplied by it, and everything without a length stays as it is: conversion matrices and converted Miller indices, Laue, point and lattice groups, membership tests, the comparison of lattices, the distances between two lattices, and the distances found by the optimal shear search, the sublattice search and the direct search. (For factors that are powers of two exactly the same problem is solved; for others up to rounding.)",
     ["inputs", "configurations"], "all lattices in dimension 1-4, all pairs of 2D lattices for the searches, all factors between 1e-12 and 1e12",
     "the tests only use lattices of edge length about 1-10; users have lengths in metres or nanometres",
     [C + "lattice.py", C + "bravais_lattice.py", C + "lattice_reduction.py", L + "dist.py", L + "lat_opt.py"],
     [("tolerances", C + "lattice.py:__eq__, inlatticegroup, inpointgroup, symmetry groups"), ("reduction", C + "lattice_reduction.py:LLL")],
     ["Lattice", "BravaisLattice", "UnitCell", "LLL", "distances", "lat_opt, lat_cor_hnf, lat_cor_direct"])

prop("C28", "The quartic bound of the direct search is the minimum over unit vectors",
     "For every pair of bases E1, E2 (2D and 3D) and the fourth-order tensor T of the quartic form |K K^T|^2, K = E1 L E2^-1, of the entries of L, quart_min(T) is the minimum of the form over all unit vectors to within two percent, whatever the state of the random number generator and however the tensor is symmetrized, and T is not modified.",
     ["inputs", "schedules"], "all pairs of Bravais lattices of similar cell volume, all random starts, all orderings of the tensor indices",
     "untested; a bound that is too large makes the direct search stop before it has found the optimum, for a few pairs of lattices only",
     [L + "quartic_opt.py"], [("descent from random starts", L + "quartic_opt.py:quart_min, _quartic_roots")],
     ["quart_min"])

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
