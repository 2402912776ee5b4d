NB = "not built yet"
NOT_CLAIMED = {}
EXP = "Observed on every execution of the run (counts in the evidence file); says nothing about inputs that were not drawn. Trusts the reference model in harness/src and the generator's reach. "
FLOAT = "Residuals are measured in f64 against tolerances scaled by the norms involved; a wrong answer inside the tolerance is not seen. "

prop("C01", "Homology groups are right for every finite chain complex and dimension",
 "For every finite complex given by its cells and boundary maps, the homology group reported in each dimension is the kernel of the boundary map modulo the image of the next one: its rank and its torsion coefficients are those of that quotient up to isomorphism. This holds for simplicial complexes, cubical configuration-space complexes and user-defined complexes alike, whatever the order in which cells are listed, with or without an upper dimension bound (with a bound, up to the bound).",
 "all finite chain complexes (random simplicial complexes, known spaces, user-defined complexes with prescribed torsion), all cell orders and bounds",
 "the homology tests of the repository are commented out or look at single spaces; ranks and torsion must be right for every complex",
 [TS, SM, SI, MI], [("homology computation", TS), ("Smith normal form", MI)], ["printed homology, module of each dimension"],
 EXP + "The oracle computes ranks over two large primes and invariant factors by its own elimination on the boundary matrices the generator made (user-defined complexes) or that it rebuilt from the vertex lists (simplicial).")
prop("C02", "Reported cycles and boundaries are cycles and generate what they should",
 "The descriptions of cycles and of boundaries that accompany integral homology are integer combinations of cells of the stated dimension. Every reported cycle has zero boundary and the reported cycles generate all cycles of that dimension over the integers; every reported boundary is the boundary of some chain and the reported boundaries generate all boundaries.",
 "all finite chain complexes and dimensions", "no test reads the descriptions",
 [TS, MI], [("cycle and boundary bases", TS)], ["text of the descriptions of cycles and boundaries"],
 EXP + "Generation is decided by comparing lattices (ranks and invariant factors of the reported combinations) with the kernel and image computed by the harness.")
prop("C03", "Simplicial boundary maps are signed face incidences with square zero",
 "In a simplicial complex the boundary of each simplex is the sum, with coefficients plus or minus one, of exactly its codimension-one faces, the boundary of an edge is one end minus the other, and the boundary of a boundary is zero, for any number of vertices and any order of attaching simplices.",
 "all simplicial complexes, including more than 64 and more than 128 vertices", "tests print a handful of complexes with few vertices",
 [SM, SI], [("boundary map", SI), ("cells as bit sets", SI)], ["boundary_map entries and bases"],
 EXP + "Faces are enumerated independently from the vertex lists; sign conventions are only constrained through the square-zero condition and the edge condition.")
prop("C04", "A simplicial complex is exactly the closure of the attached simplices",
 "After any sequence of attaching simplices the complex contains exactly the faces of the attached simplices and of the initial vertices: each simplex once in the basis of its dimension, the number of cells in every dimension, the dimension of the complex and connectedness all agree with that set, and a simplex that is not new changes nothing; an empty simplex or one that lists a vertex twice is refused and changes nothing.",
 "all attachment histories, including simplices attached through faces, repeated ones and vertex numbers beyond 64", "tests count cells of single small complexes",
 [SM, SI], [("maximal cells", SI), ("zero skeleton", SI)], ["n_cells, dim, is_connected, bases of the boundary maps"],
 EXP, over=("histories",))
prop("C05", "Smith normal form is an exact diagonalisation with inverse transformations",
 "For every integer matrix the Smith normal form returns a diagonal matrix D and transformations R, C with inverses such that R*M*C = D exactly, both inverses are true inverses over the integers, and each diagonal entry of D divides the next (zeros last); so the absolute values of the diagonal are the invariant factors of M. Over the rationals the same factors come out, with the non-zero diagonal entries first and as many as the rank. Arithmetic that does not fit the scalar type is not a wrong answer but a refusal.",
 "all integer matrices whose computation fits the scalar type, any shape (rectangular, zero, rank deficient)", "tests use a few fixed matrices and check only the diagonal",
 [MI], [("smith_normal_form", MI)], ["the five factors returned"], EXP + "Products are multiplied out in checked i128 arithmetic; invariant factors by an independent elimination.")
prop("C06", "Rank of a matrix over a field and field homology are exact",
 "The rank reported for a matrix over the rationals is the dimension of its row space, equal for the matrix and its transpose, and computing it does not change the matrix. Homology with field coefficients built on it has the Betti numbers of the complex.",
 "all rational matrices including rank-deficient ones", "tests cover one or two matrices",
 [MI, TS], [("rank_as_linear_map", MI)], ["rank value, matrix after the call"], EXP + "The oracle is elimination modulo two large primes on the cleared integer matrix.")
prop("C07", "The cubical complex of a configuration space has the right cells and boundaries",
 "For a graph and a number of points, the cubical complex of the unordered discretised configuration space has as cells exactly the sets of that many pairwise disjoint vertices and closed edges of the subdivided graph, the dimension of a cell is its number of edges, and its boundary map is the signed sum of the two opposite faces in every direction, with square zero.",
 "all connected graphs and small numbers of points", "tests count cells for three graphs",
 [CU, GR], [("complex construction", CU)], ["n_cells, dimensions, boundary_map"], EXP + "Cells and faces are enumerated independently from the adjacency of the subdivided graph (itself checked by C10); complexes of more than 500 cells (thorough: 1500) are not built; orientation conventions are constrained only through opposite signs and the square.")
prop("C08", "The reduced configuration-space complex has the homology of the full one",
 "The reduced (critical-cell) complex of the unordered configuration space of a graph has the same homology groups, including torsion, as the full cubical complex of the same graph and number of points, up to the dimension for which it was built, however the vertices were named and the edges listed.",
 "all connected graphs and small numbers of points, all listings", "the tests are fixed graphs, homology assertions are commented out",
 [CU, GR], [("Morse flow", CU), ("critical cells", CU)], ["homology of both complexes"], EXP + "The homology of the full complex is computed by the harness from its own enumeration of the cubes (up to 2500 cells; thorough 12000). Configurations too large for that (up to 16 points, graphs up to Petersen and K5) are compared with the Euler characteristic of Gal's formula, and with the first homology that the theorem of Ko and Park gives for 3-connected graphs.")
prop("C09", "Reduced cells are critical cells and their boundary squares to zero",
 "The cells of the reduced complex in each dimension are exactly the critical cells of the discrete gradient field of the chosen maximal tree, each listed once, their alternating count equals the Euler characteristic of the full complex, the reduced boundary maps compose to zero, the flow of cubes onto critical cells commutes with the boundary and fixes critical cells, and the printed complex lists exactly these cells and counts.",
 "all connected graphs and small numbers of points", "tests check counts for few graphs",
 [CU], [("get_cells_of_dim", CU)], ["cells and boundary maps of the reduced complex"], EXP + "Criticality is decided from its definition for the maximal tree the subdivided graph carries; the flow is checked as a chain map on sampled cells.")
prop("C10", "Subdividing a graph keeps its shape and builds a depth-first maximal tree",
 "The subdivided graph made for n points is a subdivision of the input graph: same essential vertices and degrees, every edge replaced by a path and every loop by a cycle long enough for n points, labels naming the original vertices; the inner vertices of a subdivided edge are labelled evenly from one end to the other; its numbering comes from a maximal tree in which every vertex but the base has exactly one smaller tree neighbour, and at each vertex the branches from which no edge leads back below the vertex are numbered first.",
 "all connected multigraphs, any edge list order", "tests print a few graphs",
 [GR], [("subdivided_graph_from", GR), ("maximal tree", GR)], ["edges, labels, tree membership"], EXP)
prop("C11", "Edge paths and raw graph operations compute what they say",
 "Adding, removing and querying edges, degrees, neighbours, connectedness and relabelling of a raw graph agree with the set of edges it holds; edge paths compose, invert and act on points as the motions they list (the moves of one step happen at once), and reducing a path leaves its motion class unchanged. Questions about single cells of a graph (disjointness, order, ends, flow towards the base point, being blocked) are answered from the graph. Vertices that are not in the graph, and the ends of a cell that is not one-dimensional, are refused.",
 "all operation histories on graphs", "tests cover single examples",
 [GR], [("RawSimpleGraph", GR), ("EdgePath", GR)], ["edges, degrees, iteration, evaluated permutations"], EXP + "Motion classes are compared by normal forms of words in which moves along disjoint edges commute.", over=("histories",))
prop("C12", "Rational arithmetic is exact, reduced and totally ordered",
 "Every arithmetic operation, negation, absolute value, comparison, sum and product on rationals gives the exact rational result in lowest terms with positive denominator, so that equal values compare equal, hash equally and print the same whatever way they were computed; the order is the order of the numbers. Zero denominators and division by zero are refused rather than given a value.",
 "all values whose exact result fits in 64 bits, all operation chains", "tests try a few values",
 [RI], [("rational arithmetic", RI)], ["results of operators, comparison, hash, printing"], EXP + "The oracle is an i128 fraction reduced by Euclid; steps whose exact result leaves 64 bits are not judged.")
prop("C13", "Integer division, gcd, divisibility and primality obey their laws",
 "For every signed integer type, Euclidean division gives quotient and non-negative remainder smaller than the divisor with a = q*b + r; divisibility agrees with it; the greatest common divisor is non-negative and is the stated combination of its arguments; the normal form is a unit times a non-negative number; primality and the number of prime factors are those of the absolute value.",
 "all pairs of values (zero, negative, extreme ones where the result fits)", "tests use positive small samples",
 [CO], [("euclidean domain of the integers", CO)], ["results of euclid_div, divides, gcd, simplify, is_prime, n_prime_factors"], EXP)
prop("C14", "Permutations act, compose and invert as bijections in every representation",
 "Products, inverses, powers (also negative), order, action on a list, decomposition into transpositions and block swaps of permutations agree with composing them as bijections of the natural numbers; two permutations are equal exactly when they move every index alike and print the same way, whatever order or rotation their cycles were written in. The same holds for the array and vector representations, and malformed cycles and overlapping blocks are refused.",
 "all permutations, all ways of writing them", "tests compose a few short cycles",
 [PE], [("cycle representation", PE), ("array and vector representations", PE)], ["images, equality, printing, order"], EXP)
prop("C15", "Formal sums are finitely supported functions with exact coefficients",
 "Building, adding, subtracting, negating, scaling, dividing and summing formal sums gives, for every basis element, exactly the coefficient that those operations give pointwise, with no zero terms and each basis element once; equality, length, printing, removal and iteration agree with that, dividing by zero is refused, and a matrix applied to a basis gives the corresponding combinations.",
 "all families of sums over integers, rationals, floats with cancelling and repeated terms, all ways of building them", "tests add a few sums",
 [LA], [("sorted summand lists", LA)], ["summands, printing, indexing"], EXP)
prop("C16", "Finitely generated modules are compared and printed up to isomorphism",
 "Two descriptions of finitely generated modules by free rank and torsion coefficients are reported isomorphic exactly when they present isomorphic modules; the printed form presents the same module, and a module is zero exactly when it presents the trivial module. This holds over every integer type, and over the rationals and reals, where every coefficient but zero is a unit and nothing but the free part remains.",
 "all descriptions, including torsion split in different ways", "tests compare two modules",
 [LA], [("isomorphism test", LA)], ["is_isomorphic_to, printing, is_zero"], EXP)
prop("C17", "Dense matrix operators equal entrywise algebra in every operand form",
 "Sum, difference, product, scalar multiple, negation, division by a scalar, transpose, power, dot product, norms, equality and printing of dense matrices give the entries that linear algebra prescribes, whichever mix of owned, borrowed, viewed, transposed and assigning operands is used, and leave borrowed operands unchanged. Mismatched shapes and ragged rows are refused.",
 "all shapes and entries over integers, rationals and floats, all operand forms", "tests check a few fixed 2x2 and 3x3 products",
 [MI, LA], [("operators", MI)], ["entries, size, printing"], EXP)
prop("C18", "Views address exactly the entries they name, and only those",
 "A view of a matrix made by any chain of row and column ranges and transpositions reads exactly the named entries; writing, swapping, and row or column operations through it change exactly those entries of the parent and no others. Indices and ranges outside a view are refused even when they lie inside the parent.",
 "all chains of nested views, all range forms, all write operations", "tests slice a few matrices once",
 [MI, LA], [("submatrix indexing", LA), ("slices", MI)], ["entries read through views, parent after writes"], EXP, over=("inputs", "histories"))
prop("C19", "Matrix memory is sound: no stale or twice-freed elements, no storage left over",
 "No sequence of safe matrix operations reads or writes outside the allocation of a matrix, uses an element that was never initialised or already freed, or drops one element twice, for any element type (also ones that own memory) and any shape, and matrices never hand out elements that were not put in or produced by their operations. The storage of every matrix is given back to the allocator exactly once, with the layout it was requested with: after all matrices of numbers made by any sequence of operations (transposes, products, views, clones, conversions) are dropped, no block remains.",
 "all programs over the safe API, including empty shapes, transposes, moves and clones", "tests run without sanitizers on machine integers, where misuse stays silent",
 [MI, LA], [("raw-pointer storage", LA), ("constructors, clone, transpose, drop", MI)], ["AddressSanitizer reports, element registry"],
 "Executions under AddressSanitizer plus a registry that follows every element from construction to drop. Leaks (elements never dropped) are not claimed. Uninitialised reads of plain integers are seen only through the registry's element type and ASan's fill patterns.",
 technique="AddressSanitizer + element-lifetime registry monitor", over=("programs",))
prop("C20", "Sparse matrices behave as the dense matrices they represent",
 "A sparse matrix iterates, row by row and column by column, over exactly its stored entries in increasing order, and its products with sparse and dense matrices, transposes, equality (with a dense or another sparse matrix, also a transposed one) and printing agree with the dense matrix it represents; incompatible sizes are refused.",
 "all sparse matrices, including empty rows and columns and the zero matrix", "tests check two fixed matrices",
 [SP], [("linked row and column lists", SP)], ["row and column iteration, products, printing"], EXP)
prop("C21", "Fixed-size vectors and matrices obey entrywise algebra",
 "Every operator on fixed-size vectors and matrices (sum, difference, product, scaling, dot product, norm, transpose, identity, equality, conversions) gives the entries that linear algebra prescribes, also in assigning and borrowed forms.",
 "all entries and several sizes", "tests check a few sums",
 [CM], [("operators", CM)], ["entries"], EXP)
prop("C22", "Determinants, linear solves, LU factors and norms are accurate",
 "The determinant of a square matrix is within rounding error of the exact one (and zero for non-square matrices as documented), the solution of a nonsingular linear system satisfies it within rounding error, the LU factors of a matrix with non-vanishing leading minors multiply to it, and norms are those of the entries, for matrices and for views.",
 "all moderate-size well-scaled matrices, including ones with zero pivots", "tests use two small matrices",
 [MI], [("det, solve, lu", MI)], ["values returned"], EXP + FLOAT)
prop("C23", "Orthogonal transformations are orthogonal and realise their similarity",
 "Every operator returned by the Householder, Givens, Hessenberg, tridiagonalisation, symmetric QR, Francis QR and Gram-Schmidt routines is orthogonal within rounding error, the returned form has the promised zero pattern, and operator and form together reproduce the input matrix.",
 "all moderate-size matrices, including reduced, axis-aligned and repeated ones", "tests check single examples of some routines",
 [MI], [("orthogonal reductions", MI)], ["returned operators and forms"], EXP + FLOAT)
prop("C24", "Eigenvalues and eigenvectors of general real matrices are right",
 "For a square real matrix with real, separated eigenvalues, the reported eigenvalues are those of the matrix, each the stated number of times, and each reported eigenvector is a non-zero vector that the matrix scales by its eigenvalue, within rounding error.",
 "all matrices with real separated eigenvalues", "tests check three fixed matrices",
 [MI], [("QR iteration, inverse iteration", MI)], ["eigenvalues and eigenvectors returned"], EXP + FLOAT)
prop("C25", "Spectra of symmetric matrices are complete and orthonormal",
 "For every symmetric real matrix the reported spectrum contains every eigenvalue with its multiplicity, and the reported eigenvectors are unit vectors, mutually orthogonal, and scaled by the matrix by their eigenvalues, within rounding error, including repeated and zero eigenvalues and block-diagonal matrices.",
 "all symmetric matrices of moderate size", "tests check fixed examples with distinct eigenvalues",
 [MI], [("symmetric QR", MI)], ["spectrum returned"], EXP + FLOAT)
prop("C26", "Lattice reduction keeps the lattice and returns a reduced basis",
 "Lattice basis reduction returns a basis of exactly the same lattice that is size-reduced and satisfies the Lovasz condition for the given parameter.",
 "all integer bases of moderate size, several parameters", "one fixed example in the tests",
 [MI], [("lll_lattice_reduce", MI)], ["the reduced basis"], EXP)
prop("C27", "Bit sets and labelled sets behave as finite sets",
 "Adding, removing, membership, counting, iteration in order, union, intersection, inclusion, fullness, equality and printing of bit sets and labelled sets agree with the finite set that the operations describe, for every length including multiples of the word size; elements outside the universe and mismatched universes are refused without changing the set.",
 "all lengths and operation histories", "tests use a few short sets",
 [UT], [("word-packed sets", UT)], ["set contents after every operation"], EXP, over=("histories",))
prop("C28", "Enumerating subsets yields each once in lexicographic order",
 "Enumerating the subsets of a given size of a slice yields every such subset exactly once, in lexicographic order of positions, including size zero (the empty subset once) and sizes larger than the slice (nothing).",
 "all slice lengths and subset sizes", "tests enumerate one slice",
 [UT], [("tuple iterator", UT)], ["sequence of subsets"], EXP)
prop("C29", "Graph Laplacians are degree minus weighted adjacency",
 "A weighted graph built from a list of weighted edges has exactly the vertices that are named, each once, and the weight of each listed edge in both directions (an edge listed again with the same weight is the same edge; loops are refused). Its Laplacian is symmetric with zero row sums, off-diagonal entries the negated weights and diagonal the weighted degrees, exactly, for integer, rational and floating-point weights; for positive weights its number of vanishing eigenvalues is the number of components.",
 "all weighted edge lists", "no test looks at the entries of a Laplacian",
 [GR], [("laplacian", GR)], ["vertices, weights and Laplacian entries"], EXP)
prop("C30", "Delaunay triangulation is valid and has empty circumcircles",
 "For points in general position in the plane (no three collinear, no four on a circle) the triangulation consists of exactly the triangles on those points whose circumcircle contains no other point, each once, so that it covers the convex hull without overlaps, for any number and order of the points; returned triangles and index triples agree, and the circle test says whether a point lies strictly inside the circumcircle.",
 "all finite point sets in general position, all orders", "one test on random points looks at circles only, with no check that the hull is covered",
 [GE], [("Bowyer-Watson insertion", GE)], ["triangles and indices returned, circle test"], EXP + "Decided with exact integer arithmetic on point sets kept so far from degenerate that rounding cannot change an answer.")
prop("C31", "Symbolic functions evaluate and differentiate correctly",
 "Evaluating a symbolic expression built with sums, differences, products, quotients, scalings, integer and real powers, sine and cosine gives the value of that expression, and evaluating its symbolic partial derivatives (also repeated ones) gives the derivatives of that value, wherever they are defined; dividing by the zero function is refused, and a quotient by zero is not given a finite value. The printed form of a function or derivative denotes the same function.",
 "all expressions, all points of their domain", "tests differentiate two expressions",
 [AN], [("expression trees", AN)], ["values of functions and derivatives"], EXP + "The oracle evaluates the same expression in hyper-dual arithmetic with running error bounds; points closer than 0.05 to a pole, or to the boundary of the domain of a real power, are skipped.")
prop("C32", "Multivariate functions, gradients and Jacobians are right",
 "Evaluating a symbolic function of several variables gives the value of each component, the Jacobian has the partial derivative of component i by variable j in row i and column j and nothing else, gradients agree with it, and matrices of functions (dense or sparse, also products of them) evaluate entrywise to the matrices of values.",
 "all functions of several variables, all points of their domain", "tests check one function with one component",
 [AN], [("multivariable functions", AN)], ["values, partial derivatives and Jacobians"], EXP + "Same oracle as C31.")
prop("C33", "Laplacians of complexes have the Betti numbers as kernels",
 "For every finite complex (simplicial, cubical or given by its boundary maps) the combinatorial Laplacian of each dimension, composed from the boundary maps and their transposes with matrix operators, is exactly the symmetric matrix those maps prescribe and commutes with the boundary; its kernel has the Betti number of that dimension as its rank, its reported spectrum is that of the complex, whatever the names and order of vertices and cells, with as many vanishing eigenvalues as the Betti number, and the eigenvectors reported for them have no boundary and no coboundary. Weighted Laplacians with positive weights have the entries and the spectrum that the weights prescribe.",
 "all finite complexes and positive weights", "only the examples compose Laplacians, and nothing looks at the result",
 [TS, SM, CU, MI], [("boundary maps", SM), ("operators, spectrum", MI)], ["entries and spectra of Laplacians"], EXP + FLOAT + "Spectra are computed for at most 26 (thorough: 40) cells per dimension.")
for p in P:
    if p["note"] is None: NOT_CLAIMED.setdefault(p["id"], NB)
