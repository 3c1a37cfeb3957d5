#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only harnesses that exist are claimed)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = ["inputs"]; H = ["histories"]; HI = ["histories", "inputs"]
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, level, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, level=level, note=note, observe=observe))

S = "src/lib/"
MC = "model_checking"; EX = "exploration"; FE = "fault_enumeration"

prop("C01", "Sparse matrix reads return the last write after any write history",
 "After any sequence of writes by position or by linear index (including writing zero, overwriting, and filling rows or columns in any order), a sparse matrix of any shape returns at every position the value last written there, and zero where nothing or zero was written last. Presence queries, the total, per-row and per-column counts of filled entries, and the all-zero / has-a-zero queries agree with those values after every write. A matrix built from a literal has exactly the literal's entries, short rows being padded with zeros.",
 H, "all histories of writes of any length on every shape, for every element type", "the tests write a few entries in one fixed order into one or two shapes; a compressed row structure can be corrupted only by particular orders of insertions and removals across empty rows",
 [S+"matrix/SparseMatrix.inl", S+"matrix/SparseMatrix.h"], [("insertion and removal of entries keeps row pointers consistent", S+"matrix/SparseMatrix.inl: set_at, remove_at, internal_at, row_entry_count")],
 "explicit-state search over write histories of the real class against an array model", MC, "complete state spaces (every reachable contents, every write in every state) for small shapes, bounded depth for larger ones; values from a small table")

prop("C02", "Sparse iteration visits every stored entry once, in order, under edits",
 "On every sparse matrix, whatever edits made it, iterating over the matrix, over a row, or over a column visits exactly the non-zero entries there, once each, in row-major (for a column: top to bottom) order with correct positions and values, also for read-only matrices, and ends at the end; writing through an iterator changes exactly that entry. Erasing or overwriting the entry at an iterator changes only that entry and returns an iterator at the same entry (overwrite with a non-zero value) or at the next entry in row-major order (erase, overwrite with zero), or the end, from which iteration can continue correctly. Empty rows, empty columns and an empty matrix yield an empty iteration. Two iterators are equal exactly if they stand at the same entry or are both at the end, and advancing, erasing or writing at the end changes nothing.",
 H, "all histories of iterator edits and writes from every pattern of filled entries", "tests iterate over one or two fixed patterns; skipping empty rows, the last row and iterators after an edit depend on the pattern",
 [S+"matrix/SparseMatrix.inl"], [("iterators walk the column array and recover the row from the row pointers", S+"matrix/SparseMatrix.inl: SparseMatrixIterator::operator++, SparseMatrixRowIterator, SparseMatrixColumnIterator, begin, row_begin, column_begin, set, erase")],
 "explicit-state search over iterator edits of the real class against an ordered-map model", MC, "complete state spaces for small shapes with all patterns; each state's iterations compared in full")

prop("C03", "Sparse element-wise algebra equals the entry-wise definition",
 "Sums, differences, element-wise products, scalar products, negation, transposition, conjugation and conjugate transposition of sparse matrices have at every position the value of the entry-wise definition, entries that become zero are no longer counted as filled, and operands not assigned to are unchanged. This also holds when both operands are the same matrix, when a scalar is taken from the matrix itself, and after any chain of such operations, swaps and assignments. Two sparse matrices compare equal exactly when shape and all entries agree.",
 HI, "all pairs of sparsity patterns with values, all chains of in-place operations incl. self operations", "tests use one pair of 2x2 or 3x3 matrices per operator, never the same object twice nor patterns with empty rows",
 [S+"matrix/SparseMatrix.inl"], [("in-place operators iterate over one operand while editing the other", S+"matrix/SparseMatrix.inl: operator+=, -=, *=, swap, transpose, conjugate, adjugate, operator==")],
 "explicit-state search over chains of operations on two matrices plus exhaustive operand pairs", MC, "pairs of matrices over small value sets, chains of operations up to the stated depth")

prop("C04", "Dense and fixed-size matrices behave as plain arrays under any history",
 "After any sequence of writes (by position, linear index or iterator), erasures, in-place element-wise and scalar operations, assignments and swaps, a dense or fixed-size matrix of any (also non-square) shape has at every position the value of the entry-wise definition, with linear index = row * columns + column. Iteration over the matrix, a row or a column visits every position exactly once in order and can be used to write; two iterators are equal exactly if they stand at the same position or are both at the end. Transposition, conjugation, conjugate transposition, negation, equality and literals agree with the entry-wise definition, and other operands are left unchanged, also if an operand or scalar comes from the matrix itself.",
 HI, "all histories of writes and operations on every shape, every element type", "tests use square 2x2 or 3x3 matrices and single operations",
 [S+"matrix/BaseMatrix.inl", S+"matrix/DenseMatrix.inl", S+"matrix/FixedMatrix.inl"], [("row-major storage with strides by the column count", S+"matrix/BaseMatrix.inl: at, set, iterators"), ("element-wise operators", S+"matrix/DenseMatrix.inl, FixedMatrix.inl")],
 "explicit-state search over histories of operations on the real classes against an array model", MC, "complete enumeration of contents for small shapes and chains of operations up to the stated depth")

prop("C05", "Matrix-matrix, matrix-vector and vector-matrix products are exact",
 "For sparse, dense and fixed-size matrices of every compatible (also non-square) pair of shapes, the matrix product, the matrix-vector product and the vector-matrix (left) product equal the sums of products of the definition, have the shape given by the definition, and leave their operands unchanged. For complex matrices no operand is conjugated. Multiplying by the identity returns the matrix and by a zero matrix returns zero, with no spurious filled entries in sparse results.",
 I, "all pairs of matrices and vectors of compatible shapes", "tests multiply two or three fixed square matrices",
 [S+"matrix/SparseMatrix.inl", S+"matrix/DenseMatrix.inl", S+"matrix/FixedMatrix.inl"], [("row iteration over the left operand", S+"matrix/SparseMatrix.inl: mul, mul_left"), ("triple loops", S+"matrix/DenseMatrix.inl, FixedMatrix.inl: mul, mul_left")],
 "bounded-exhaustive enumeration of operand pairs against an exact reference", EX, "all matrices over small value sets for small shapes, all 0/1 patterns for larger ones; small integers so the results are exact")

prop("C06", "All matrix representations give the same results; conversions lose nothing",
 "Converting a dense or fixed-size matrix to sparse and back yields exactly the same entries and shape, with only the non-zero entries filled. The same algorithm run on the sparse, dense and fixed-size representation of the same matrix (products, transposition, reductions, factorisation, determinant, inverse, solvers, structural predicates, constructors) gives the same result.",
 I, "all matrices, all operations offered by more than one representation", "each test works on one representation at a time",
 [S+"matrix/MatrixConverter.inl", S+"matrix/MatrixOperations.inl", S+"LU.inl"], [("conversion routines", S+"matrix/MatrixConverter.inl"), ("separate implementations per representation", S+"LU.inl: doolittle; "+S+"matrix/*.inl")],
 "bounded-exhaustive enumeration of matrices with differential comparison of the representations", EX, "all matrices over small value sets of the stated shapes")

prop("C07", "Reductions and value queries are correct for every content",
 "For vectors and for sparse, dense and fixed-size matrices of any shape, sum, average, maximum, minimum, trace, and the queries for zero, NaN, infinite and no non-zero entries agree with the definition over all positions, unfilled sparse positions counting as zero; the maximum and minimum of a complex vector are those by absolute value. This holds for contents that are all negative, all positive, completely filled, completely empty, contain the extreme value at any position, or contain NaN or infinite entries at any position (for the NaN and infinity queries).",
 I, "all contents incl. all-negative ones, NaN or infinity at any place, full and empty sparsity", "tests use one matrix with positive and zero entries",
 [S+"CountableSet.inl", S+"matrix/BaseMatrix.inl", S+"matrix/SparseMatrix.inl"], [("loops with running extreme values", S+"CountableSet.inl: max, min; "+S+"matrix/BaseMatrix.inl; "+S+"matrix/SparseMatrix.inl")],
 "bounded-exhaustive enumeration of contents against the definition", EX, "all contents over small value tables of the stated shapes")

prop("C08", "Vector algebra and slicing equal the element-wise definition",
 "For dynamic and fixed-size vectors of integer, real and complex numbers, element-wise sums, differences, products and quotients, with vectors or with a scalar on either side, negation, dot product, squared magnitude, magnitude, normalisation, reciprocal, fill, swap and comparison equal the element-wise definition; the squared magnitude of a complex vector is the real sum of squared absolute values. Taking the leading, trailing or middle part returns exactly those elements in order, and searching a range finds a value exactly if it is there. In-place forms also hold when the operand is the vector itself or the scalar is one of its elements, and after any chain of operations.",
 HI, "all vectors up to a length, every operation and chain of operations", "tests apply each operator once to vectors of length three or four",
 [S+"Vector.inl", S+"CountableSet.inl"], [("element-wise operators and slices", S+"Vector.inl"), ("storage", S+"CountableSet.inl")],
 "explicit-state search over chains of operations plus exhaustive enumeration of operands", MC, "vectors over small value sets up to length 5, chains up to the stated depth")

prop("C09", "Pivoted LU factorisation reproduces the matrix and solves the system",
 "For every square matrix (sparse, dense or fixed-size, real or complex) whose pivots exceed the machine epsilon, LU factorisation yields a unit lower triangular factor, an upper triangular factor and a permutation with lower * upper = permutation * matrix, whose multipliers do not exceed one in absolute value, and the number of row exchanges matches the permutation's parity. The result does not depend on what the output matrices held before, and the input is unchanged. Forward and backward substitution with these factors returns the solution of the linear system for every right-hand side, and exactly singular integer matrices are reported by an error (during factorisation or substitution) instead of a wrong solution.",
 I, "all square matrices and right-hand sides, all previous contents of the outputs", "tests factorise three fixed matrices into fresh outputs",
 [S+"LU.inl"], [("partial pivoting with a row table", S+"LU.inl: doolittle"), ("substitution with singularity check", S+"LU.inl: solve_lu")],
 "bounded-exhaustive enumeration of matrices, exact singularity oracle, check of the factor identities", EX, "all matrices over small integer sets up to 3x3, structured families up to 6x6; rounding tolerance 1e-9 relative")

prop("C10", "Determinant and inverse agree with exact arithmetic",
 "For every square sparse, dense or fixed-size matrix the determinant equals the exact one, including its sign for every number of row exchanges and zero for singular matrices. The inverse of every regular sparse or dense matrix times the matrix is the identity up to rounding, for the form that takes the matrix as well as for the forms that take triangular factors (with or without permutation). Inverting a singular matrix is reported by an error.",
 I, "all square matrices, dense and with every zero pattern", "tests invert a handful of 2x2 and 3x3 matrices",
 [S+"matrix/MatrixOperations.inl", S+"LU.inl"], [("product of the pivots with sign by exchange count", S+"matrix/MatrixOperations.inl: determinant"), ("column-wise solves", S+"matrix/MatrixOperations.inl: inverse")],
 "bounded-exhaustive enumeration of integer matrices against exact integer determinants and adjugates", EX, "all matrices over small integer sets up to 3x3 (4x4 with 0/1 or 0/1/-1 entries), permutations and structured families up to 6x6")

prop("C11", "Cholesky factorisation is exact on positive definite matrices, else refuses",
 "For every Hermitian positive definite matrix (sparse, dense or fixed-size; real or complex) Cholesky factorisation yields a lower triangular matrix with positive diagonal whose product with its conjugate transpose is the input, whatever the output matrix held before. A Hermitian matrix that is not positive definite is refused with an error, a semi-definite one as far as rounding lets it be told apart.",
 I, "all Hermitian matrices, definite or not, all previous contents of the output", "tests factorise one definite matrix",
 [S+"LU.inl"], [("column-wise factorisation with a sign check on the pivot", S+"LU.inl: cholesky")],
 "bounded-exhaustive enumeration of Hermitian integer matrices, definiteness decided exactly by leading minors", EX, "all Hermitian matrices over small integer sets up to 3x3, Gram matrices and structured families up to 6x6")

prop("C12", "Incomplete LU and approximate inverse respect pattern and identities",
 "Incomplete LU factorisation without fill-in yields a unit lower and an upper triangular factor whose filled entries lie within the input's pattern, whose product agrees with the input at every position of that pattern, and which equals the exact factorisation when no fill-in arises; a zero pivot (below the machine epsilon) is reported by an error. The approximate inverse of given unit lower and upper triangular factors yields matrices which are the inverses of the factors. Neither result depends on what the output matrices held before, and the inputs are unchanged.",
 I, "all sparse matrices with all patterns; all pairs of triangular factors", "one fixed 3x3 matrix is tested",
 [S+"LU.inl"], [("in-place elimination restricted to the pattern", S+"LU.inl: ilu0"), ("column-wise triangular inversion", S+"LU.inl: ainv_lu")],
 "bounded-exhaustive enumeration of patterns and values with identity checks", EX, "all patterns up to 4x4, value families; all unit lower / upper factors over small integer sets")

prop("C13", "Jacobi and SOR compute the textbook iterates and stop as documented",
 "For every square system with non-zero diagonal and every start vector, k steps of Jacobi and of SOR with any relaxation weight give exactly the iterates of the textbook recurrences, on sparse and dense matrices alike. On strictly diagonally dominant systems (with weight one, or for SOR on symmetric positive definite systems with any weight between zero and two) the returned vector solves the system once the iteration reports convergence, the reported number of iterations never exceeds the limit, and the result stops improving only when consecutive iterates differ by no more than the tolerance. A zero on the diagonal is reported by an error. The result does not depend on whether the iterations are counted, and limits that are left out are 1024 steps, the tolerance 1e-5 and the weight one.",
 I, "all systems, right-hand sides, starts, weights, iteration limits and tolerances", "tests run one system to convergence from one start",
 [S+"Iterative.inl"], [("row sweep and convergence test on the difference of iterates", S+"Iterative.inl: jacobi, sor")],
 "bounded-exhaustive enumeration of systems and iteration limits against the recurrences", EX, "all systems over small integer sets up to 3x3 and structured families, iteration limits 1..4 and convergence")

prop("C14", "Conjugate gradients solve every positive definite system in at most n steps",
 "For every real symmetric positive definite system, every right-hand side and start vector, conjugate gradients and preconditioned conjugate gradients (with any positive definite preconditioner) reach the solution within as many steps as there are unknowns, up to rounding, and each step minimises the energy norm of the error over the (preconditioned) Krylov space. Starting at the solution returns it unchanged. The reported step count is the number of steps made and never exceeds the limit, and the diagonal preconditioner, written into an empty matrix, is the inverse of the diagonal (a zero diagonal entry is an error). The result does not depend on whether the steps are counted, and limits that are left out are 1024 steps and the tolerance 1e-5.",
 I, "all symmetric positive definite systems, preconditioners, starts, limits", "tests solve one system with many more iterations than unknowns, where a wrong direction update still converges",
 [S+"CG.inl"], [("two-term recurrences for residual and direction", S+"CG.inl: cg, pcg"), ("diagonal preconditioner", S+"CG.inl: jacobi")],
 "bounded-exhaustive enumeration of definite systems against Krylov-space minimisers in rational arithmetic", EX, "all symmetric definite integer matrices over small sets up to 3x3 and structured families up to 8x8")

prop("C15", "Matrix constructors and structural predicates match their definitions",
 "Identity (also non-square), diagonal matrix of a vector and diagonal of a matrix, lower and upper triangular part with any (also negative) diagonal offset, Hilbert matrix and its inverse equal their definitions in every representation for every size. The predicates for orthogonal, unitary, projection, symmetric, Hermitian, skew-symmetric and skew-Hermitian matrices are true exactly for the matrices that satisfy the defining equation, and false for non-square ones.",
 I, "all sizes, offsets and matrices", "tests check one or two matrices per predicate and sizes two to four",
 [S+"matrix/MatrixConstructor.inl", S+"matrix/MatrixCheck.inl", S+"Utils.h"], [("constructors", S+"matrix/MatrixConstructor.inl"), ("predicates by products and transposes", S+"matrix/MatrixCheck.inl")],
 "bounded-exhaustive enumeration of sizes, offsets and matrices against the definitions", EX, "all matrices over small (Gaussian) integer sets up to 3x3; all shapes up to 5x5 with all offsets; exact values")

prop("C16", "Reordering yields valid permutations and equivalent systems",
 "For every square sparse matrix, connected or not, with empty rows or isolated nodes, Cuthill-McKee ordering returns each index exactly once, its reverse variant the same in reverse order; for structurally symmetric matrices the ordering starts each connected component at a node of lowest degree (the number of filled entries in its row) and lists every component contiguously, level by level, within a node's neighbours by ascending degree. Permuting a matrix and a vector with a permutation moves entry (p(i),p(j)) to (i,j) and p(i) to i, the permutation matrix is orthogonal and performs the same, the inverse permutation undoes it, and a solution of the permuted system permuted back solves the original system.",
 I, "all symmetric sparsity patterns (graphs) and all permutations", "one fixed matrix is reordered",
 [S+"matrix/MatrixOrder.inl"], [("breadth-first traversal by degree", S+"matrix/MatrixOrder.inl: cuthill_mckee"), ("permutation by products", S+"matrix/MatrixOrder.inl: permutation_matrix, permutate, inverse_permutation")],
 "exhaustive enumeration of all graphs and permutations up to a size against a reference traversal specification", EX, "all graphs up to 6 nodes, all permutations up to 5 elements")

prop("C17", "Triangle geometry and reference mapping are exact for every triangle",
 "For every non-degenerate triangle (of more than the machine epsilon in size), in either orientation, the area is half the absolute cross product of two edges, the determinant is twice the signed area, and the affine map takes the reference corners to the triangle's vertices while mapping there and back is the identity. Barycentric gradients sum to zero and reproduce linear functions, the circumcentre has the circumradius as distance to all three vertices, the diameter is the longest edge, face centres are the edge midpoints, and face normals are of unit length, orthogonal to the face opposite the vertex and point away from that vertex.",
 I, "all triangles with both orientations and positions", "tests use one or two right-angled triangles at the origin, where several mistakes cancel",
 [S+"Simplex.inl", S+"Normal.h"], [("affine map, inverse, gradients, circumcentre", S+"Simplex.inl"), ("normals", S+"Normal.h")],
 "exhaustive enumeration of lattice triangles against exact integer geometry", EX, "all triangles on a small integer lattice with offsets, float and double")

prop("C18", "Normals of hyperplanes are unit, orthogonal and correctly oriented",
 "The normal computed from K-1 linearly independent vectors in K dimensions (K = 2, 3, 4) has unit length, is orthogonal to each of the vectors, and has the orientation of the generalised cross product: scaling a vector by a positive factor leaves it unchanged and exchanging two vectors negates it.",
 I, "all sets of independent vectors in 2, 3 and 4 dimensions", "tests use axis-aligned vectors",
 [S+"Normal.h", S+"matrix/MatrixOperations.inl"], [("signed minors", S+"Normal.h: Math::normal")],
 "exhaustive enumeration of small integer vectors against the cofactor definition", EX, "all vector sets over small integer sets in 2, 3 and 4 dimensions")

prop("C19", "Mesh preparation finds exactly the shared edges, neighbours and boundary",
 "For every conforming triangle mesh, preparing it makes two elements neighbours exactly if they share an edge, stores each neighbour at the place of the vertex opposite the shared edge on both sides, marks a vertex or edge as boundary exactly if it lies on an edge that belongs to one element only, creates every edge exactly once with its one or two elements and its vertices, and connects each vertex with exactly the elements that contain it. The result does not depend on the order or orientation in which elements were added, and setting up the neighbours or the boundary of a prepared mesh again changes nothing. A mesh of elements with distinct vertex sets is refused exactly if some edge is shared by more than two elements.",
 HI, "all triangle complexes on a few vertices, all element orders and orientations", "tests prepare single and two-element meshes and one regular grid",
 [S+"mesh/Mesh.inl", S+"mesh/Mesh.h"], [("pairwise vertex matching for neighbours, edge and boundary generation", S+"mesh/Mesh.inl: prepare and its helpers")],
 "exhaustive enumeration of triangle complexes in every insertion order against a set-based specification", EX, "all sets of up to four triangles on five or six vertices with element orders and vertex rotations")

prop("C20", "Mesh validation accepts exactly the well-formed meshes",
 "Validation of a mesh succeeds for every mesh that was built consistently, and reports an error for every mesh in which a vertex has an index that does not match its place, belongs to no element, or names an element that does not contain it, or in which an element misses a vertex or a neighbouring edge, has a corner that differs from its vertex, or has zero area (areas and squared distances below the machine epsilon count as zero). Generating a grid with a zero element count is an error as well.",
 ["inputs", "fault_sequences"], "all small meshes and every single corruption of their connectivity", "each exception has at most one test",
 [S+"mesh/Mesh.inl"], [("validation passes over vertices and elements", S+"mesh/Mesh.inl: validate")],
 "exhaustive enumeration of small meshes and of every single corruption of their links", FE, "every single corruption of each link, index or coordinate of a set of small meshes")

prop("C21", "Mesh handles own, share and release their contents safely under any history",
 "Over any sequence of creating, copying, assigning (also to itself), moving, filling, clearing, and destroying mesh handles, every handle shows exactly the vertices, edges and elements it should: a copy shares the contents with its source, so changes made through one handle show in the other, a moved-to handle has the source's contents, and contents live exactly until their last handle is gone. No history accesses freed memory, frees twice or leaks vertices, elements or edges.",
 H, "all histories of handle operations on up to three handles", "tests create one mesh and never copy, move or clear it",
 [S+"mesh/Mesh.inl", S+"mesh/Mesh.h"], [("reference-counted or owned contents", S+"mesh/Mesh.inl: constructors, operator=, clear, destructor")],
 "explicit-state search over handle histories of the real class under AddressSanitizer against an ownership model", MC, "all histories of handle operations up to the stated length on three handles, with leak check at the end of each")

prop("C22", "Generated hyper-cube grids tile the domain with conforming elements",
 "For every number of elements per direction and every extent, the generated grid has the full lattice of vertices covering exactly the box of the given extent at the given offset, its elements have positive area adding up to the box's and are all oriented alike, every lattice cell is covered exactly by its two elements, it passes validation, and exactly the vertices on the box's border are boundary vertices.",
 I, "all element counts per direction and extents", "tests generate one or two square grids",
 [S+"mesh/HyperCube.inl"], [("lattice generation and cell splitting", S+"mesh/HyperCube.inl: generate")],
 "exhaustive enumeration of grid dimensions and extents against the lattice specification", EX, "all element counts up to 8x8 with several extents, one to two dimensions as supported")

prop("C23", "Lagrange shape functions are nodal, complete and have exact derivatives",
 "In every supported dimension and order the shape functions are one at their own node and zero at the others, sum to one everywhere, reproduce every polynomial up to their order exactly, and their first derivatives and pure second derivatives equal the exact derivatives of those polynomials at every point. The number of functions is the dimension of the polynomial space. The overloads that weight the terms of a function by node values are linear in them, equal the plain functions when all weights are one, and their derivatives are those of the function with the same weights.",
 I, "all orders, dimensions, functions, and points of the reference element and beyond", "tests evaluate a few functions at a few nodes and never compare derivatives with the functions",
 [S+"sf/PolyShapeFunction.inl", S+"sf/ShapeFunction.inl"], [("closed-form polynomials per order and dimension", S+"sf/PolyShapeFunction.inl: value, gradient")],
 "exhaustive check on unisolvent point lattices (a polynomial identity of bounded degree holds everywhere if it holds there)", EX, "all supported dimension/order pairs on lattices large enough to determine the polynomials; extra points off the lattice")

prop("C24", "Degree-of-freedom numbering is conforming and complete on every mesh",
 "On every prepared triangle mesh and for orders one and two, numbering assigns each element as many degrees of freedom as the order demands, in the node order of the shape functions, with element corners, edge points and interior points at the right positions. Degrees of freedom are shared between elements exactly if their node positions coincide, their numbers are contiguous from zero without gaps, and boundary markers are set exactly on the boundary, whatever the order and orientation of the elements.",
 I, "all small triangle complexes with all vertex orders, all orders of shape functions", "tests number one regular mesh",
 [S+"sf/PolyShapeFunction.inl", S+"mesh/Mesh.inl"], [("edge and interior nodes inserted per element, shared by edges", S+"sf/PolyShapeFunction.inl: prepareMesh")],
 "exhaustive enumeration of small meshes and element orders against a geometric specification of the nodes", EX, "all conforming complexes of up to three or four triangles on small lattices, all rotations, orders 1 to 3")

prop("C25", "Gauss-Legendre quadrature integrates polynomials exactly up to its degree",
 "For every supported number of points and dimension, on every simplex, the quadrature rule's weights sum to the element's reference volume, its points lie in the closed reference element, and every polynomial up to the rule's degree of exactness is integrated exactly. Integration over an element equals the exact integral also on translated, scaled, rotated and mirrored elements. Any other integrand gives the start value plus the weighted sum of its values at the rule's points.",
 I, "all rules, all monomials up to the degree, all affine images", "tests integrate one or two functions on the reference element",
 [S+"quadrature/GaussLegendreQuadratureFactory.inl", S+"quadrature/Quadrature.inl"], [("tables of points and weights", S+"quadrature/GaussLegendreQuadratureFactory.inl"), ("weighted sums", S+"quadrature/Quadrature.inl")],
 "exhaustive enumeration of rules and monomials against exact integrals", EX, "all rules and all monomials up to the degree; lattice of affine images")

prop("C26", "Triangle mesh files load exactly or are rejected",
 "A valid pair of node and element files loads with exactly its vertices (coordinates and order) and elements (connectivity and order), for zero- and one-based numbering, any whitespace, comment lines, attribute and marker columns. Files that are missing, truncated at any place, have fewer or more entries than declared, malformed numbers or references to vertices that do not exist are rejected with an error or load as the complete mesh that the remaining text describes, but never crash, hang, leak, read out of bounds or yield a mesh with missing or invented vertices or elements.",
 ["inputs", "fault_sequences"], "all layouts of small valid files; every truncation and single-byte or single-token corruption of them", "tests load one valid file",
 [S+"loader/MeshTriangleLoader.inl"], [("line parser with header counts and bounds checks", S+"loader/MeshTriangleLoader.inl")],
 "exhaustive enumeration of file layouts, truncation points and corruptions under AddressSanitizer", FE, "every truncation point, every single-token and many single-byte corruptions of a family of small files")

prop("C27", "OBJ files load exactly or are rejected",
 "A valid OBJ file loads with exactly the faces of its first object that has any (polygons as fans of triangles, in order) and the positions of the vertices these use (one mesh vertex for each, if its texture and normal indices do not differ between faces), with positive and negative (relative) indices, normal and texture indices being optional, and any whitespace or line ends; materials make no difference, whether their library can be read or not. Missing files, faces with fewer than three vertices and faces that reference vertices that do not exist are rejected with an error; a truncated file is rejected or loads as the mesh that the remaining text describes; and no truncation or corruption leads to a crash, hang, leak or access out of bounds.",
 ["inputs", "fault_sequences"], "all layouts of small valid files; every truncation and single-token corruption", "one valid file is loaded",
 ["src/objloader/loader/MeshObjLoader.inl", "src/objloader/loader/MeshObjLoader.cpp", "src/objloader/external/tiny_obj_loader.h"], [("conversion of the parsed shapes", "src/objloader/loader/MeshObjLoader.inl")],
 "exhaustive enumeration of file layouts, truncation points and corruptions under AddressSanitizer", FE, "every truncation point and single-token corruption of a family of small files")

prop("C28", "VTK export writes a well-formed file that describes the mesh and fields",
 "For every mesh, prepared for shape functions of any supported order or not, and every selection of options and point data, the exported file is well-formed XML whose declared numbers of points and cells match the arrays in it, whose point coordinates, connectivity, offsets and cell types describe exactly the mesh's points and elements, and whose data arrays hold the given point and cell values and the selected marks, determinants and matrices, all to the six digits the format carries. Reading the file back gives the same mesh and fields. The quadratic option is meant for meshes prepared for order two.",
 I, "all small meshes, orders, option combinations, numbers of fields", "no test reads an exported file",
 [S+"export/VTKExporter.inl"], [("sections written from mesh and data", S+"export/VTKExporter.inl")],
 "exhaustive enumeration of meshes, options and fields; the output is parsed back and compared", EX, "all option combinations over a family of small meshes and orders")

prop("C29", "Assembled finite element systems pass the patch test on every mesh",
 "Assembling mass and stiffness matrices from meshes, degree-of-freedom numbering, shape functions and quadrature gives symmetric matrices whose mass entries sum to the domain's area and whose stiffness rows sum to zero. Solving the Laplace or Poisson problem with boundary values of a polynomial of degree up to the element order, by direct or iterative solvers, reproduces that polynomial at every degree of freedom on every conforming mesh. The matrix assembled by the Poisson example program is that of the problem.",
 I, "all small conforming meshes, orders, solvers and polynomials", "no test assembles anything; components are tested apart",
 [S+"sf/PolyShapeFunction.inl", S+"quadrature/Quadrature.inl", S+"mesh/Mesh.inl", S+"LU.inl", S+"CG.inl", "examples/poisson/fem.cpp"], [("composition of mesh, numbering, shape functions, quadrature, sparse matrix and solvers", "examples/poisson/fem.cpp")],
 "exhaustive enumeration of meshes, orders, polynomials and solvers with exact expected solutions", EX, "grids up to a size, small unstructured meshes, orders 1 and 2, all monomials up to the order, LU, Cholesky, CG, PCG and SOR; the example program's matrix for the family")

prop("C30", "Operands of incompatible shape are always refused",
 "Every operation on vectors and matrices that requires matching shapes (element-wise operations, products in both directions, dot product, factorisations, substitutions, inverses, iterative solvers, preconditioners, reorderings) raises the library's mismatch error for every incompatible pair of shapes, also if the numbers of elements agree, and leaves the operands unchanged; it never raises it for compatible ones. (Comparing sparse matrices of different shape answers that they differ, the determinant of a non-square matrix is zero, and outputs of sparse factorisations may have any shape before.)",
 I, "all pairs of shapes for every operation", "tests try one mismatch for a few operations",
 [S+"matrix/SparseMatrix.inl", S+"matrix/DenseMatrix.inl", S+"Vector.inl", S+"LU.inl", S+"CG.inl", S+"Iterative.inl", S+"matrix/MatrixOperations.inl", S+"matrix/MatrixOrder.inl"], [("shape checks at the entry of each operation", "throughout "+S)],
 "exhaustive enumeration of shape pairs for every operation", EX, "all shapes up to 4x4 (6x6 thorough) for every operation and representation")

prop("C31", "Combinatorial helpers are exact for all representable arguments",
 "The factorial, the binomial coefficient for integers of either signedness (zero when more elements are chosen than there are), the generalised binomial coefficient of a real number, the alternating sign and the minimum and maximum of two values equal their definitions for all arguments whose intermediate products are representable.",
 I, "all arguments up to the range of the integer types", "tests evaluate a few arguments",
 [S+"Utils.h"], [("product formulas", S+"Utils.h")],
 "exhaustive enumeration of arguments against Pascal's triangle", EX, "all arguments up to n = 60 for 64-bit integers and the range of the smaller types")

def main():
    claimed, na = [], []
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            if glob.glob(V + "/harness/" + p["id"] + "_*.cpp"):
                claimed.append(dict(property=p["id"], quick_cmd="bash run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash run.sh " + p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
            else:
                na.append(dict(property=p["id"], reason="no check built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=claimed, not_applicable=na, notes="run.sh builds the harness of a property against /repo's working tree and runs it; no hooks in /repo are needed")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(claimed), "claimed;", len(na), "not")
main()
