#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
A = "include/aleph/"
def path(f):
    return f[1:] if f.startswith("/") else A + f
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [path(f) for f in files],
                          "mechanism": [{"name": n, "where": path(w)} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "The persistence pairing of a filtered complex is the correct one",
  "For every finite simplicial complex and every filtration order of it, the persistence pairing pairs two simplices exactly when the ranks of the lower-left boundary submatrices over Z/2 say so, every simplex occurs in at most one pair, a pair joins a simplex with a later one of exactly one dimension more, and every simplex without a partner is reported as unpaired when unpaired simplices are requested. Consequently the number of unpaired simplices per dimension equals the Betti number of the complex.",
  ["inputs"], "all simplicial complexes and all orders that list faces before cofaces",
  "The tests reduce three fixed matrices and check how many pairs come out; no test varies the filtration order or compares with an independent rank computation.",
  ["persistentHomology/Calculation.hh", "persistentHomology/algorithms/Standard.hh", "persistentHomology/algorithms/Twist.hh", "persistentHomology/PersistencePairing.hh", "topology/BoundaryMatrix.hh"],
  [("column reduction", "persistentHomology/algorithms/Standard.hh"), ("pair extraction", "persistentHomology/Calculation.hh")],
  ["persistence pairing returned by the calculation functions"])

p("C02", "All reduction algorithms, column storages and dualisation agree",
  "The persistence pairing and the persistence diagrams do not depend on which reduction algorithm is used, on which column representation stores the boundary matrix, or on whether the matrix is dualised before reduction. Adding two columns always yields their symmetric difference and the reported lowest index is the largest index in the column, in every representation.",
  ["inputs", "configurations"], "all boundary matrices, all combinations of algorithm, representation and dualisation",
  "The tests run the combinations on a handful of fixed matrices only and never on an arbitrary column content.",
  ["persistentHomology/algorithms/Standard.hh", "persistentHomology/algorithms/Twist.hh", "topology/representations/Vector.hh", "topology/representations/Set.hh", "topology/representations/List.hh", "topology/BoundaryMatrix.hh", "persistentHomology/Calculation.hh"],
  [("column addition", "topology/representations/Vector.hh"), ("clearing", "persistentHomology/algorithms/Twist.hh"), ("dualisation", "topology/BoundaryMatrix.hh")])

p("C03", "Boundary matrices store, dualise, load and convert without losing entries",
  "A boundary matrix made from a sorted complex has, in the column of every simplex, exactly the positions of its codimension-one faces, and reports the dimension of every column and the number of columns correctly. Dualising maps entry (i,j) to (n-1-j,n-1-i), swaps dimensions accordingly and is undone by dualising again. Loading a matrix from its text form gives exactly the listed entries in spite of comment lines, blank lines and the order of indices in a line, and a copy equals its original.",
  ["inputs"], "all complexes and all matrices in the bounds",
  "Tests load one fixed matrix and count columns; they never compare entries after dualisation.",
  ["topology/BoundaryMatrix.hh", "topology/Conversions.hh"],
  [("column set/get and dualize()", "topology/BoundaryMatrix.hh"), ("makeBoundaryMatrix", "topology/Conversions.hh")])

p("C04", "Simplices behave as canonical vertex sets",
  "Two simplices built from the same vertices in any order are equal, compare neither less nor greater, and hash equally; the ordering of simplices is a strict total order on vertex sets; data values do not take part in any of these. Iterating over the boundary of a simplex visits every codimension-one face exactly once and nothing else, vertices are reported sorted, and membership and dimension match the vertex set.",
  ["inputs"], "all vertex sequences within the bounds, all data values",
  "There is no test of the simplex class by itself; others touch it with a few fixed simplices.",
  ["topology/Simplex.hh"],
  [("vertex storage and comparison", "topology/Simplex.hh"), ("boundary iterator", "topology/Simplex.hh")])

p("C05", "A simplicial complex keeps one entry per simplex and consistent lookups",
  "After any sequence of inserting, removing, replacing, sorting and clearing, a simplicial complex holds every simplex at most once, and size, emptiness, dimension, membership, lookup of a simplex, position of a simplex, access by position, iteration, vertex and per-dimension ranges and equality all describe one and the same set of simplices. Positions count from zero in iteration order, and removing a simplex leaves no simplex in the complex that has it as a face.",
  ["histories", "inputs"], "all sequences of operations up to the bound, on all simplices over a small vertex set",
  "Tests build complexes from literal lists and never mix removal, replacement and lookup.",
  ["topology/SimplicialComplex.hh"],
  [("three-index container", "topology/SimplicialComplex.hh"), ("remove with cofaces", "topology/SimplicialComplex.hh")])

p("C06", "Completing faces and recalculating weights gives a valid filtered complex",
  "Creating missing faces makes the complex closed under taking faces, adds nothing that is not a face of an existing simplex and leaves existing simplices alone. Recalculating weights gives every simplex of dimension one or more the maximum (or, if requested, the minimum) of the weights of its faces while vertices, and optionally edges, keep theirs, so that a face never exceeds its coface; sorting by a filtration then lists every face before its cofaces.",
  ["inputs"], "all sets of simplices and all data values within the bounds",
  "Tests call these functions on complexes that are already valid or on a single triangle.",
  ["topology/SimplicialComplex.hh", "topology/filtrations/Data.hh"],
  [("createMissingFaces, recalculateWeights", "topology/SimplicialComplex.hh")])

p("C07", "Every filtration order is a strict weak order listing faces before cofaces",
  "The data, lower-star and upper-star filtrations are strict weak orders on simplices, put simplices with smaller (larger for descending orders) values first, and list every face before each of its cofaces whenever weights are consistent with them; the star filtrations value a simplex by the maximum (minimum) over its vertices, so sorting a complex with them always gives a valid filtration, with ties as well. The degrees of a complex are one number per vertex in vertex order that equals the number of its cofaces of any dimension, and the n-degree of a simplex counts the simplices of the highest dimension that contain it.",
  ["inputs"], "all assignments of data values including ties, all simplices within the bounds",
  "Tests use one fixed function without ties.",
  ["topology/filtrations/Data.hh", "topology/filtrations/LowerStar.hh", "topology/filtrations/UpperStar.hh", "topology/filtrations/Degree.hh"],
  [("comparison functors", "topology/filtrations/LowerStar.hh")])

p("C08", "Persistence diagrams of a complex hold the right points in the right dimension",
  "For every filtered complex, the diagram of dimension d contains exactly one point (data of creator, data of destroyer) for every pair whose creator has dimension d, and one unpaired point for every unpaired simplex of dimension d that the options ask for. Births never exceed deaths for sublevel filtrations, and the number of unpaired points of dimension d is the d-th Betti number.",
  ["inputs", "configurations"], "all filtered complexes within the bounds, all calculation options",
  "Tests check one or two diagrams by size or Betti number.",
  ["persistentHomology/Calculation.hh", "persistenceDiagrams/Calculation.hh"],
  [("makePersistenceDiagrams", "persistenceDiagrams/Calculation.hh"), ("calculatePersistenceDiagrams", "persistentHomology/Calculation.hh")])

p("C09", "Zero-dimensional persistence by merging components equals the homological one",
  "The zero-dimensional persistence diagram and pairing computed by merging connected components equal the dimension-zero part of what matrix reduction computes on the same sorted complex, up to points on the diagonal where documented, for ascending and for descending filtrations. The elder rule holds at every merge: the younger component dies.",
  ["inputs"], "all graphs and all weights including ties within the bounds",
  "Tests compare one fixed data set.",
  ["persistentHomology/ConnectedComponents.hh", "topology/UnionFind.hh"],
  [("calculateZeroDimensionalPersistenceDiagram", "persistentHomology/ConnectedComponents.hh")])

p("C10", "Union-find and connected components give the reachability partition",
  "After any sequence of merges, two elements have the same representative exactly when they are connected by merges, the representative of a set is a member of it and is the one of the set merged into, and the reported roots and members of every set describe this partition. Connected components of a complex are its classes of vertices joined by edges.",
  ["histories", "inputs"], "all merge sequences and all graphs within the bounds",
  "Tests merge a few literal numbers.",
  ["topology/UnionFind.hh", "topology/ConnectedComponents.hh"],
  [("merge and find", "topology/UnionFind.hh")])

p("C11", "Rips expansion contains exactly the cliques, with the right weights",
  "Expanding a graph to dimension k, bottom-up or top-down, gives exactly the simplices whose vertices are pairwise adjacent and whose dimension is at most k, each once. Assigning weights by maximum, by minimum or from vertex data gives every simplex the maximum or minimum over its faces or vertices, and keeps the weights of the given edges and vertices unless they are to be assigned.",
  ["inputs"], "all graphs and weights within the bounds, all k",
  "Tests expand two fixed graphs and look at the size.",
  ["geometry/RipsExpander.hh", "geometry/RipsExpanderTopDown.hh"],
  [("incremental expansion", "geometry/RipsExpander.hh"), ("combinations", "geometry/RipsExpanderTopDown.hh")])

p("C12", "Vietoris-Rips complexes follow the pairwise distances of the points",
  "The complex of a point cloud for radius r and dimension k contains all points with weight zero, exactly the edges between points whose distance is below the radius as documented, and exactly the cliques of these up to dimension k; the weight of an edge is the distance of its end points and the weight of a larger simplex is the maximum over its edges. Radius and neighbour queries return exactly the points within the radius or the k closest ones, with matching distances.",
  ["inputs"], "all small point clouds with coordinates on a grid, all radii and k",
  "Tests use one small fixed data set.",
  ["geometry/VietorisRipsComplex.hh", "geometry/RipsSkeleton.hh", "geometry/BruteForce.hh", "geometry/NearestNeighbours.hh", "containers/PointCloud.hh"],
  [("radius search", "geometry/BruteForce.hh"), ("buildRipsSkeleton", "geometry/RipsSkeleton.hh")])

p("C13", "The assignment solver always finds a minimum-cost assignment",
  "For every square cost matrix the assignment solver terminates and marks exactly one entry in every row and every column, and the total cost of the marked entries is the minimum over all permutations.",
  ["inputs"], "all cost matrices within the bounds, ties included",
  "Tests solve four fixed matrices.",
  ["persistenceDiagrams/distances/detail/Munkres.hh", "persistenceDiagrams/distances/detail/Matrix.hh"],
  [("steps 1 to 6", "persistenceDiagrams/distances/detail/Munkres.hh")])

p("C14", "Diagram distances equal their definition as optima over matchings",
  "The Wasserstein distance of two diagrams equals the minimum over all partial matchings, unmatched points being projected to the diagonal, of the sum of the ground costs raised to the given power, and the bottleneck distance the minimum of the maximum; Hausdorff and nearest-neighbour distances equal their max-min (or sum of minima) definitions. All of them are symmetric where their definition is, never negative, and zero for equal diagrams, in whatever order points are stored.",
  ["inputs"], "all pairs of small diagrams with coordinates on a grid",
  "Tests check that the distance of a diagram to itself is zero and that others are positive.",
  ["persistenceDiagrams/distances/Wasserstein.hh", "persistenceDiagrams/distances/Bottleneck.hh", "persistenceDiagrams/distances/Hausdorff.hh", "persistenceDiagrams/distances/NearestNeighbour.hh", "persistenceDiagrams/distances/PointSet.hh", "persistenceDiagrams/distances/detail/Orthogonal.hh"],
  [("cost matrix", "persistenceDiagrams/distances/Wasserstein.hh"), ("binary search over thresholds", "persistenceDiagrams/distances/Bottleneck.hh")])

p("C15", "Point distances equal their formula and satisfy the metric axioms",
  "Euclidean, Manhattan, Chebyshev and Hamming distances equal their formula for vectors of every positive length, including lengths that are no multiple of an unrolling factor. They are non-negative, zero exactly for equal vectors, symmetric, satisfy the triangle inequality, and conversions between a distance and its internal power form are mutually inverse.",
  ["inputs"], "all vectors within the bounds, every length up to the bound",
  "Tests compare a few fixed vectors.",
  ["geometry/distances/Euclidean.hh", "geometry/distances/Manhattan.hh", "geometry/distances/Infinity.hh", "geometry/distances/Hamming.hh", "geometry/distances/Traits.hh", "geometry/distances/Wrapper.hh"],
  [("unrolled loops", "geometry/distances/Euclidean.hh"), ("traits from/to", "geometry/distances/Traits.hh")])

p("C16", "Persistence diagrams as containers keep exactly the points they should",
  "Adding points keeps all of them with multiplicity and in order; removing diagonal, unpaired, duplicate or selected points removes exactly those and no other; merging gives the multiset union; Betti number counts the unpaired points; size, emptiness, equality and dimension describe the stored points. Summary values (total degree-p persistence, p-norm, infinity norm, extracted coordinate lists, entropy, envelope values) are what their definition gives on the stored points.",
  ["inputs", "histories"], "all diagrams within the bounds, in all orders with duplicates, diagonal and unpaired points",
  "Tests use one fixed diagram.",
  ["persistenceDiagrams/PersistenceDiagram.hh", "persistenceDiagrams/Norms.hh", "persistenceDiagrams/Extraction.hh", "persistenceDiagrams/Envelope.hh", "persistenceDiagrams/Entropy.hh"],
  [("erase-remove functions", "persistenceDiagrams/PersistenceDiagram.hh"), ("norms", "persistenceDiagrams/Norms.hh")])

p("C17", "Step functions do pointwise arithmetic",
  "Adding, subtracting, negating, scaling and dividing step functions by a number, adding a number, taking absolute values, powers, maxima, suprema and norms, normalising, evaluating and integrating agree at every point with doing so on the function values, for every arrangement of overlapping, touching and nested intervals, for negative values and for integral value types. The integral is the sum of length times value. A function that is written to a stream and read again is the same function.",
  ["inputs", "programs"], "all small step functions with end points and values on a grid, all positions of evaluation",
  "Tests add a handful of fixed functions.",
  ["math/StepFunction.hh"],
  [("operator+= with breakpoint merging", "math/StepFunction.hh")])

p("C18", "Persistence indicator functions count the points alive at each threshold",
  "The persistence indicator function of a diagram evaluated anywhere inside an interval between breakpoints equals the number of points whose interval contains that position, and its integral equals the total persistence of the diagram. The order of the points and points on the diagonal do not matter, and diagrams of descending filtrations give the same function as their ascending mirror image.",
  ["inputs"], "all diagrams within the bounds with ties and duplicates",
  "Tests compare the integral of three fixed diagrams.",
  ["persistenceDiagrams/PersistenceIndicatorFunction.hh", "math/StepFunction.hh"],
  [("event sweep", "persistenceDiagrams/PersistenceIndicatorFunction.hh")])

p("C19", "Piecewise linear functions do pointwise arithmetic and exact integration",
  "Evaluating a piecewise linear function interpolates linearly between the given points and is zero outside of its domain; sum and difference of functions that share a domain or vanish at its ends, scaling and absolute value agree at every point with doing so on values, and maximum and supremum are the largest value at the given points. The integral and the p-norms are the exact ones of the interpolant, including sign changes inside a segment.",
  ["inputs", "programs"], "all small piecewise linear functions with points on a grid, all positions of evaluation",
  "Tests evaluate two fixed functions.",
  ["math/PiecewiseLinearFunction.hh"],
  [("merged domains and zero crossings", "math/PiecewiseLinearFunction.hh")])

p("C20", "Matrix containers read back exactly what was written",
  "Dense, symmetric and sparse binary matrices return for every position the last value written to it and the default value everywhere else, a symmetric matrix returns the same value for (i,j) and (j,i), copies are independent and equal, and row, column, entry and submatrix enumerations match the stored entries. Out-of-range positions never corrupt other entries.",
  ["histories", "inputs"], "all sequences of writes within the bounds, all sizes within the bounds",
  "Tests use these containers only incidentally.",
  ["math/SymmetricMatrix.hh", "math/SparseMatrix.hh", "persistenceDiagrams/distances/detail/Matrix.hh"],
  [("triangular index computation", "math/SymmetricMatrix.hh"), ("row and column sets", "math/SparseMatrix.hh")])

p("C21", "Sums, moments, order statistics and bootstrap equal their definitions",
  "Compensated summation adds exactly whenever the plain sum is representable. Mean, variance, standard deviation, covariance, skewness, kurtosis and median of a sequence equal their definition for every length and every order of the same values, including even and odd lengths. A bootstrap evaluates the functional on the requested number of replicates drawn from the sample, and a percentile is taken at the documented position.",
  ["inputs"], "all short sequences of values, all orders",
  "Tests touch these functions only via other components with fixed data.",
  ["math/KahanSummation.hh", "math/Statistics.hh", "math/Quantiles.hh", "math/Bootstrap.hh"],
  [("compensation", "math/KahanSummation.hh"), ("nth_element", "math/Quantiles.hh")])

p("C22", "Clique enumeration finds every maximal clique exactly once",
  "Both maximal clique algorithms return exactly the inclusion-maximal cliques of the one-skeleton, each once, for every graph. The clique graph for k has one vertex for every k-simplex and an edge exactly for those sharing a face of dimension k-1, with the documented weights.",
  ["inputs"], "all graphs within the bounds",
  "Tests enumerate cliques of two fixed graphs.",
  ["topology/MaximalCliques.hh", "topology/CliqueGraph.hh"],
  [("Bron-Kerbosch and Koch recursions", "topology/MaximalCliques.hh"), ("getCliqueGraph", "topology/CliqueGraph.hh")])

p("C23", "All-pairs shortest paths are shortest",
  "For every weighted graph the all-pairs distances are symmetric, zero on the diagonal, equal to the smallest total weight over all paths between the two vertices, and infinite exactly when no path exists. Dowker complexes built from such distances contain a simplex exactly when a common witness is within the given radius of all of its vertices.",
  ["inputs"], "all graphs and non-negative weights within the bounds",
  "Tests run one fixed graph.",
  ["topology/FloydWarshall.hh", "geometry/DowkerComplex.hh"],
  [("relaxation", "topology/FloydWarshall.hh"), ("admissible pairs", "geometry/DowkerComplex.hh")])

p("C24", "Combination enumeration visits every selection exactly once",
  "Visiting the combinations, permutations, circular and reversible permutations of a range calls the visitor exactly once for each of them, stops early exactly when the visitor asks for it, restores the range to its original order when finished, and the count functions give the number of visits.",
  ["inputs", "programs"], "all small sizes, all values in the range, early exit at every visit",
  "Not tested directly; only via top-down expansion.",
  ["math/Combinations.hh"],
  [("rotation of discontiguous ranges", "math/Combinations.hh")])

p("C25", "Half-edge meshes report the incidences of the faces that were added",
  "For every sequence of vertices and faces forming a consistently oriented mesh without singular vertices, vertex, edge and face counts, the faces themselves, neighbours, links and stars of vertices, existence and adjacency queries and numbers of components agree with the list of added vertices and faces. Data attached to a vertex is kept and reported by higher and lower neighbour queries.",
  ["inputs", "histories"], "all small orientable meshes, all insertion orders, all vertex data",
  "Tests build one pyramid and one other mesh.",
  ["topology/Mesh.hh"],
  [("half-edge linking on face insertion", "topology/Mesh.hh")])

p("C26", "Constructions on complexes give the documented complex and homology",
  "Cones are contractible, suspensions shift homology by one, barycentric subdivision keeps homology and has a vertex per simplex, and their weights follow the original ones; skeletons and filtered subcomplexes contain exactly the wanted simplices. The intersection of two simplices or complexes is what they have in common, and that of a complex with a simplex is the simplex if it is contained and all its faces in the complex otherwise. Collapsing to a spine keeps homology and leaves no free face.",
  ["inputs"], "all small complexes",
  "Tests use single fixed complexes such as a triangle.",
  ["topology/BarycentricSubdivision.hh", "topology/QuotientSpaces.hh", "topology/Skeleton.hh", "topology/Filter.hh", "topology/Intersections.hh", "topology/Spine.hh"],
  [("subdivision", "topology/BarycentricSubdivision.hh"), ("collapses", "topology/Spine.hh"), ("cone, suspension", "topology/QuotientSpaces.hh")])

p("C27", "Intersection homology admits exactly the allowable simplices",
  "Partitioning a complex by a predicate puts all admissible simplices first while keeping their relative order and loses none. Perversities give the documented clamped value in every dimension and zero for invalid ones. The intersection homology diagrams equal those of the chain complex of allowable chains, and equal ordinary homology when every simplex is allowable.",
  ["inputs", "configurations"], "all small filtered complexes with stratifications and perversities",
  "Tests run a few fixed triangulations.",
  ["persistentHomology/PhiPersistence.hh"],
  [("partition", "persistentHomology/PhiPersistence.hh"), ("Perversity", "persistentHomology/PhiPersistence.hh")])

p("C28", "The Euler characteristic is the alternating sum over all dimensions",
  "The Euler characteristic of a complex equals the alternating sum of its numbers of simplices over all dimensions, including the highest one, and equals the alternating sum of its Betti numbers. The persistent variant computed from diagrams gives the alternating sum of the total persistence over all dimensions.",
  ["inputs"], "all small complexes and diagrams",
  "No test calls it.",
  ["persistentHomology/EulerCharacteristic.hh"],
  [("eulerCharacteristic", "persistentHomology/EulerCharacteristic.hh")])

p("C29", "Cover trees keep their invariants under every insertion order",
  "After inserting any set of points in any order, the cover tree contains every point exactly once, levels of children are below those of their parents, the distance of a child to its parent is within the covering radius of its level, and children of the same parent are separated as documented.",
  ["histories", "inputs"], "all short sequences of points on a grid, in every order",
  "Tests insert one fixed sequence.",
  ["geometry/CoverTree.hh"],
  [("recursive insertion and root raising", "geometry/CoverTree.hh")])

p("C30", "Geometric complexes contain exactly the simplices their definition admits",
  "Witness complexes contain exactly those edges of landmarks seen by an admissible witness within the radius, weighted by the smallest such distance, and all their cliques; beta skeletons (beta at least one) contain exactly the pairs whose region is empty, and Cech complexes exactly the subsets whose smallest enclosing ball is within the radius, each with the documented weight and each closed under taking faces. Max-min landmark selection always adds a point farthest from those already chosen.",
  ["inputs"], "all small point sets on a grid, all radii",
  "Tests use one or two fixed point sets.",
  ["geometry/WitnessComplex.hh", "geometry/BetaSkeleton.hh", "geometry/CechComplex.hh"],
  [("witness loop", "geometry/WitnessComplex.hh"), ("naive beta skeleton", "geometry/BetaSkeleton.hh")])

p("C31", "Point clouds store coordinates by index and stay independent copies",
  "A point cloud returns for every index exactly the coordinates last set for it, rejects points of the wrong dimension and indices out of range without changing anything, adds clouds by concatenation, compares equal exactly for equal coordinates and size, and copies and moved-to clouds do not share changes. Loading from text gives one point per non-empty, non-comment line with all its coordinates.",
  ["histories", "inputs"], "all short sequences of operations and all coordinates",
  "Tests load a fixed file and look at the size.",
  ["containers/PointCloud.hh"],
  [("flat storage with row-major index", "containers/PointCloud.hh")])

p("C32", "String and path helpers split, trim, convert and pad without losing characters",
  "Trimming removes exactly the white space at the ends; splitting by white space or separators gives the pieces in order and the number of words is the number of pieces; conversions return the number at the beginning of a text, including the names of infinities and not-a-numbers in any case, and report failure if there is none. Base name, stem and extension of a path are consistent parts of it, types and existence of files are reported as they are, and formatting pads a number to the width of the largest one. No input makes them read outside of the string.",
  ["inputs"], "all strings up to the bounded length over an alphabet with the special characters",
  "Tests call them on a few literals.",
  ["utilities/String.hh", "utilities/Filesystem.hh", "utilities/Format.hh"],
  [("split, trim, convert", "utilities/String.hh"), ("basename, stem, extension", "utilities/Filesystem.hh")])

p("C33", "Graph files are read, and written, with exactly their vertices and edges",
  "Reading an edge list, GML file, Pajek file, lexicographic triangulation or sparse adjacency matrix gives exactly the vertices, edges or simplices, labels and weights written in it, in spite of comments, blank lines and extra white space where the format allows them; an edge listed more than once is kept once. Writing a complex in GML form and reading it again gives the same complex, and one reader used for several files in a row treats each of them the same.",
  ["inputs", "configurations"], "all small files over the symbolic parts: indices, weights, separators, labels, blank and comment lines, options of the reader",
  "Tests read one fixed file per format.",
  ["topology/io/EdgeLists.hh", "topology/io/GML.hh", "topology/io/Pajek.hh", "topology/io/LexicographicTriangulation.hh", "topology/io/SparseAdjacencyMatrix.hh"],
  [("line parsers", "topology/io/EdgeLists.hh"), ("attribute parser", "topology/io/GML.hh")])

p("C34", "Diagram kernels are symmetric and induce a pseudometric",
  "The linear kernel of two persistence diagrams is the sum of weight times weight times kernel value over all pairs of points, the multi-scale kernel is the sum of Gaussians of distances minus mirrored distances with the scale in exponent and normalisation, and both are symmetric and independent of the order of points; points on the diagonal do not change the multi-scale kernel. The pseudometric derived from a kernel is the square root of k(x,x) + k(y,y) - 2k(x,y), it is never negative and is zero for the same diagram in any order. The Gaussian kernel built on top of it is exp(-d^2/(2 tau^2)).",
  ["inputs"], "all pairs of small diagrams with coordinates on a grid",
  "Tests call kernels on single fixed diagrams.",
  ["persistenceDiagrams/kernels/KernelEmbedding.hh", "persistenceDiagrams/kernels/MultiScaleKernel.hh"],
  [("linearKernel and pseudoMetric", "persistenceDiagrams/kernels/KernelEmbedding.hh")])

p("C35", "The persistence hierarchy is a forest consistent with the merge order",
  "The pairs of the extended persistence hierarchy equal the pairs of zero-dimensional persistence, including one unpaired creator per component. Every pair of positive persistence hangs below exactly one other creator, and the edges form no cycle. On a path, the parent is the creator of the older component or the creator merged into it most recently if the two are connected within the interlevel set without touching a third basin.",
  ["inputs"], "all small graphs and all weights",
  "Tests do not cover it except by two fixed functions.",
  ["persistentHomology/ExtendedPersistenceHierarchy.hh"],
  [("hierarchy construction", "persistentHomology/ExtendedPersistenceHierarchy.hh")])

p("C36", "Data descriptors and estimators evaluate their definition on every point",
  "Eccentricities, truncated Gaussian densities, distances to a measure, lens depths, correlation integrals and their regression slope, dimensionality estimates from nearest neighbours and from local principal components, mean-shift smoothing and kernel density sums give one value per point that equals the definition evaluated by direct summation with the same kernel and distance, for every number of points including a single one and for coinciding points. Neighbour ranges that start at zero and sequences of different lengths are refused.",
  ["inputs"], "all small point sets on a grid",
  "Tests check ranges of values on a fixed data set.",
  ["containers/DataDescriptors.hh", "containers/FractalDimension.hh", "containers/MeanShift.hh", "containers/DimensionalityEstimators.hh", "math/KernelDensityEstimator.hh"],
  [("direct sums", "containers/DataDescriptors.hh")])

p("C37", "Discrete curvature counts incidences as defined",
  "The combinatorial curvature of every simplex equals the number of cofaces plus the number of faces minus the number of parallel neighbours, for every complex and dimension, including negative values and simplices without faces or cofaces; a simplex is not its own neighbour. The weighted curvature follows Forman's definition, with absolute values taken per neighbour, and equals the unweighted one if all weights are one. The angle defect of a simplex of codimension two is the full angle minus the dihedral angle of a regular simplex for every top simplex that contains it.",
  ["inputs"], "all small complexes",
  "Tests check a single fixed complex.",
  ["topology/CombinatorialCurvature.hh"],
  [("parallel neighbours", "topology/CombinatorialCurvature.hh")])

p("C38", "Means of diagrams and pairings between them are optimal and well formed",
  "The optimal pairing of two diagrams pairs every point exactly once, with a point of the other diagram or with its projection to the diagonal, at minimal total cost. The computation of a mean ends for all diagrams; the mean of identical diagrams is that diagram without its points on the diagonal and keeps its dimension. The mean of diagrams whose points are close to each other in places far apart and far from the diagonal consists of the average of every place, and a point that some diagrams lack is drawn to its projection by their share.",
  ["inputs"], "all small diagrams including duplicate points",
  "Tests compute a mean of fixed diagrams and look at the size.",
  ["persistenceDiagrams/Mean.hh", "persistenceDiagrams/distances/detail/Munkres.hh"],
  [("optimalPairing", "persistenceDiagrams/Mean.hh")])

p("C39", "Matrix, grid, mesh and function files give the complex of their values",
  "Reading a matrix, adjacency matrix, bipartite matrix, VTK structured grid, ASCII PLY mesh, function or spectrum gives exactly the vertices, edges and triangles its entries describe, with the weights that the chosen strategy or functor assigns to them. Comments and blank lines are skipped where the format allows them, and files with a varying number of columns are rejected.",
  ["inputs", "configurations"], "all small files over the symbolic parts: values, dimensions, blank and comment lines, strategies and options of the reader",
  "Tests read one fixed file per format and look at the size.",
  ["topology/io/AdjacencyMatrix.hh", "topology/io/BipartiteAdjacencyMatrix.hh", "topology/io/Matrix.hh", "topology/io/VTK.hh", "topology/io/PLY.hh", "topology/io/Function.hh", "topology/io/FlexSpectrum.hh"],
  [("weight assignment strategies", "topology/io/AdjacencyMatrix.hh"), ("grid neighbours", "topology/io/VTK.hh")])

p("C40", "Spectral quantities of graphs and principal components match linear algebra",
  "The adjacency and Laplacian matrices of a weighted graph contain exactly its weights, the pseudo-inverse of the Laplacian satisfies the Moore-Penrose conditions, and the heat kernel equals the matrix exponential of the negative scaled Laplacian in every entry, its diagonal, trace and determinant. Sampling intervals are logarithmic between their ends. Spectral bisection splits a complex into two disjoint parts that cover all vertices and contain all simplices between their vertices, and principal components are orthonormal directions of descending variance.",
  ["inputs"], "all small weighted graphs, point sets and times over the symbolic weights, sets of edges and grids of values",
  "Tests check signs or sizes on single fixed graphs.",
  ["geometry/HeatKernel.hh", "topology/Partitions.hh", "math/PrincipalComponentAnalysis.hh"],
  [("weightedLaplacianMatrix", "geometry/HeatKernel.hh"), ("bisect", "topology/Partitions.hh")])

p("C41", "Diagram files give back the points they contain",
  "Reading a raw diagram file gives every listed pair in order, in spite of comments, blank lines and surrounding space, and treats unpaired points as such. Writing diagrams as JSON and reading them again gives the same diagrams with their dimension, Betti number and points, and malformed or missing files are refused.",
  ["inputs"], "all small files over the symbolic parts: values, comments, blank lines, numbers of points and diagrams",
  "Tests read one fixed file and look at the number of points.",
  ["persistenceDiagrams/io/Raw.hh", "persistenceDiagrams/io/JSON.hh"],
  [("fromJSON", "persistenceDiagrams/io/JSON.hh"), ("load", "persistenceDiagrams/io/Raw.hh")])

p("C42", "Neighbour searches return exactly the neighbours and their distances",
  "A radius search returns for every point exactly the points closer than the radius, and a search for k neighbours the k closest ones in order of distance, each with the right distance, whichever implementation and metric is used and including the point itself and duplicates. The skeleton of a Rips complex built from such a search has every vertex and exactly the edges that are short enough, with the distance as weight.",
  ["inputs", "configurations"], "all small point sets, radii and numbers of neighbours, both search structures, several metrics",
  "Tests compare sizes of results on one fixed data set.",
  ["geometry/BruteForce.hh", "geometry/FLANN.hh", "geometry/NearestNeighbours.hh", "geometry/RipsSkeleton.hh"],
  [("radiusSearch", "geometry/BruteForce.hh"), ("neighbourSearch", "geometry/FLANN.hh")])

p("C43", "GraphML files, format detection and drawings describe the right complex",
  "Reading a GraphML file gives its nodes and edges in file order with weights from the keys they refer to, or default weights, and malformed files are refused. Choosing a reader by file extension gives the same complex as that reader, with the labels of that file in the order of the vertices. Drawings of a complex contain every vertex, edge and triangle exactly once at the given coordinates.",
  ["inputs", "configurations"], "all small files and complexes over the symbolic parts: edges, weights, keys, optional elements, extensions, labels",
  "Tests read one fixed file per format and look at the size; drawings are not tested.",
  ["topology/io/GraphML.hh", "topology/io/SimplicialComplexReader.hh", "topology/io/LinesAndPoints.hh", "topology/io/TikZ.hh"],
  [("keys of nodes and edges", "topology/io/GraphML.hh"), ("labels", "topology/io/SimplicialComplexReader.hh")])

p("C44", "Points, spheres, samples and random graphs have their defining shape",
  "Points compare by all of their coordinates, in lexicographical order, with points of different dimensions being different; vectors add, subtract and scale entry by entry; intersections, range checks and tolerance checks follow their definition. Centre, radius and curvatures of an algebraic sphere are those of the sphere its coefficients describe. Samples of a sphere or torus have the requested number and lie on that surface, and random graphs contain every vertex once, only edges between different vertices, no edge for probability zero and (unweighted) every edge for probability one.",
  ["inputs"], "all small points, vectors, sets and spheres over symbolic values; all seeds out of a few for samples",
  "Tests use single fixed values.",
  ["geometry/Point.hh", "math/AlgebraicSphere.hh", "geometry/SphereSampling.hh", "geometry/TorusSampling.hh", "topology/RandomGraph.hh", "utilities/ContainerOperators.hh", "utilities/UnorderedSetOperations.hh", "utilities/Values.hh"],
  [("operator==", "geometry/Point.hh"), ("centre", "math/AlgebraicSphere.hh")])

p("C45", "Python functions on arrays give the topology of the matrix or the points",
  "The Python functions that take a distance matrix return the persistence diagrams of its Vietoris-Rips complex up to the given dimension, the edges of a minimum spanning tree, and for every cycle the edge that creates it together with a longest edge of the triangle that destroys it. The function for matrices of weights returns the components of the bipartite graph in ascending or descending order, with the given weight of vertices and value of unpaired points, and the function for point arrays returns the diagrams of their Rips complex. Results depend on the entries only, not on how the array lies in memory (transposed, sliced or reversed), and arrays of another shape are refused.",
  ["inputs", "configurations"], "all distance matrices, weight matrices and small point sets within the bounds, all parameters and memory layouts",
  "The Python tests never pass an array to any of these functions.",
  ["/bindings/python/aleph.cc", "geometry/RipsExpander.hh", "persistentHomology/Calculation.hh", "persistentHomology/ConnectedComponents.hh"],
  [("array access and selection of edges", "/bindings/python/aleph.cc")])

p("C46", "Python objects behave as the simplices, complexes, diagrams and files they wrap",
  "Simplices and complexes built in Python from vertices, lists, tuples or other objects have exactly these vertices, simplices and weights in the given order; iteration, indexing, membership, length, truth, comparison, boundary, dimension, assignment of weights, appending, sorting (also by a Python function) and expansion agree with the sets they describe. Diagrams and pairings give the same points and pairs by iteration and as arrays, count, remove and compare points by their definition, and report or accept a dimension; norms, step functions and their arithmetic give the values of their definition, including default parameters. Loading a file returns the complex or diagram in it, with weights from a Python function where the format permits it.",
  ["inputs", "programs"], "all small simplices, complexes, diagrams, functions and files over symbolic weights, vertices and positions",
  "The Python tests print a few fixed objects and assert two memberships.",
  ["/bindings/python/aleph.cc", "topology/Simplex.hh", "topology/SimplicialComplex.hh", "persistenceDiagrams/PersistenceDiagram.hh", "math/StepFunction.hh"],
  [("class definitions", "/bindings/python/aleph.cc")])

p("C47", "Tools for diagrams print the statistics, signatures, distances and functions",
  "The command line tools that read persistence diagrams print, for every file and option, the values of their definition: number, powers, sums, norms and averages of persistence; sorted signatures of pairwise distances, optionally normalised, filtered or cut; and the steps of indicator functions and their mean. Matrices have the requested distance between diagrams, indicator functions or envelopes in every entry, are symmetric, and combine the dimensions of one data set, from files of either format. Options work in any order, comments and separators do not matter, and invalid points are left out.",
  ["inputs", "configurations"], "all small diagrams over symbolic coordinates, all combinations of the main options and file layouts",
  "The tools have no tests at all.",
  ["/src/tools/persistence_diagram_statistics.cc", "/src/tools/make_signature.cc", "/src/tools/topological_distance.cc", "/src/tools/persistence_indicator_function.cc"],
  [("options and output", "/src/tools/topological_distance.cc"), ("signature", "/src/tools/make_signature.cc")])

p("C48", "Tools for functions, graphs and matrices print the topology of their input",
  "The command line tools that read functions, spectra, graphs or matrices report exactly the persistence diagrams of the sublevel or superlevel sets, of degree and weight filtrations, and of communities of cliques, with essential classes at the documented value. Options for normalising, condensing, inverting, expanding to a dimension and keeping unpaired points have their documented effect, and output files contain one valid diagram for every input and dimension. Betti numbers, merged components and labels belong to the right file, edge or vertex.",
  ["inputs", "configurations"], "all small functions, spectra, graphs and matrices over symbolic values and weights, all thresholds, all combinations of the main options",
  "The tools have no tests at all.",
  ["/src/tools/function_analysis.cc", "/src/tools/spectral_analysis.cc", "/src/tools/clique_persistence_diagram.cc", "/src/tools/betti_numbers.cc", "/src/tools/graph_analysis.cc", "/src/tools/relevant_edges.cc", "/src/tools/connectivity_matrix_analysis.cc", "/src/tools/sparse_adjacency_matrices.cc"],
  [("filtration and output", "/src/tools/sparse_adjacency_matrices.cc"), ("filtration and output", "/src/tools/connectivity_matrix_analysis.cc")])

p("C49", "Tools for point clouds and communities report distances, cliques and entropies",
  "The command line tools that read point clouds report the squared distance of every pair, the numbers and distances of neighbours within the radius, and the persistence diagrams of data descriptors over the neighbourhood graph, with inversion, normalisation and removal of unpaired points as documented. The tool for clique communities reports, for every clique size, exactly the components of cliques below the threshold as valid JSON, with labels if requested. The tool for entropies prints one line per file with nearest-neighbour, grid and persistent entropy.",
  ["inputs", "configurations"], "all small point clouds and diagrams, all graphs with up to six edges between four vertices over symbolic weights, all combinations of the main options",
  "The tools have no tests at all.",
  ["/src/tools/rips_distributions.cc", "/src/tools/clique_communities_to_json.cc", "/src/tools/persistence_diagram_entropies.cc", "/src/tools/point_cloud_data_descriptors.cc"],
  [("communities", "/src/tools/clique_communities_to_json.cc"), ("distances and degrees", "/src/tools/rips_distributions.cc")])

p("C50", "Tools for hierarchies and stratified complexes report pairs and Betti numbers",
  "The command line tool for functions and grids lists for every function the creator and destroyer of each pair of its sublevel or superlevel set hierarchy, the edges between them, and which of the functions have equal diagrams. The tool for triangulations reports the Betti numbers and Euler characteristic of every complex in a file, and its intersection homology for every possible perversity exactly once, as valid JSON. The tool for point clouds writes the diagrams of ordinary and of intersection homology, with strata of the points whose (standardised) singularity value is below or above the threshold.",
  ["inputs", "configurations"], "all functions with up to five different values, all small triangulations, all singularity values of the points, all combinations of the main options",
  "The tools have no tests at all.",
  ["/src/tools/interlevel_set_persistence_hierarchy.cc", "/src/tools/wicked_triangulations.cc", "/src/tools/persistent_intersection_homology.cc"],
  [("hierarchies", "/src/tools/interlevel_set_persistence_hierarchy.cc"), ("enumeration of perversities", "/src/tools/wicked_triangulations.cc"), ("strata", "/src/tools/persistent_intersection_homology.cc")])

p("C51", "Connectivity matrices yield ascending and descending filtrations",
  "The command line tool for connectivity matrices writes, for every matrix and every dimension up to the requested one, the union of the diagrams of the ascending filtration of the clique complex of the nonzero entries (vertices at the global minimum, simplices at the maximum weight of their edges) and of the descending one (vertices at the global maximum, simplices at the minimum weight). If distances are requested it uses one minus the weight and vertices at zero instead. Unpaired simplices of the highest dimension appear only on request, and a given value replaces infinity with a negative sign for the descending filtration.",
  ["inputs", "configurations"], "all symmetric matrices with positive, negative and zero weights in the bounds, all combinations of options, one or two files",
  "The tool has no tests at all.",
  ["/src/tools/ephemeral.cc"],
  [("ascending and descending filtration", "/src/tools/ephemeral.cc"), ("collection of diagrams", "/src/tools/ephemeral.cc")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
