#![allow(clippy::all)]
mod core;
mod p_dense;
mod p_fn;
mod p_geom;
mod p_hodge;
mod p_lin;
mod p_mem;
mod p_num;
mod p_snf;
mod p_sparse;
mod p_perm;
mod p_simp;
mod p_sums;
mod p_topo;
mod p_util;
mod refmat;
use crate::core::PropDef;

pub use topo_spaces::graph; // the macros of the library refer to it

#[global_allocator]
static ALLOC: p_mem::Watch = p_mem::Watch;

fn props() -> Vec<PropDef> {
    vec![
        PropDef { id: "C01", rule: "random user-defined chain complexes of prescribed homology (scrambled bases, torsion, rarely 10-28 dimensions), random simplicial complexes, and known spaces (spheres, torus, projective plane, Klein bottle, Moebius band, suspensions, cones, subdivisions, unions) with random vertex names and attaching orders, with and without a bound on the dimension; the printed groups compared with invariant factors computed independently; non-trivial = some cell of positive dimension or non-zero map", quick: 600000, thorough: 12000000, case_cpu: 60, f: p_simp::c01 },
        PropDef { id: "C02", rule: "random user-defined chain complexes with torsion and random simplicial complexes; the printed cycles and boundaries read back and compared as lattices with kernel and image; non-trivial = some cell of positive dimension or non-zero map", quick: 750000, thorough: 15000000, case_cpu: 60, f: p_simp::c02 },
        PropDef { id: "C03", rule: "random attachment histories (up to 140/210 vertices, word boundaries, vertices beyond the first word only) from every constructor; each boundary map compared with the faces enumerated from the vertex lists; non-trivial = some simplex with two vertices", quick: 400000, thorough: 8000000, case_cpu: 60, f: p_simp::c03 },
        PropDef { id: "C04", rule: "random attachment histories as for C03 with repeated simplices, faces and cofaces; dimension, counts, connectedness, vertices and cells compared with the closure of the attached simplices; non-trivial = some simplex with two vertices", quick: 90000, thorough: 1800000, case_cpu: 60, f: p_simp::c04 },
        PropDef { id: "C07", rule: "random graphs (paths, stars, trees, cycles, loops, multi-edges, theta, complete, bipartite, random) with 1-5 points, rarely graphs of up to 80 vertices, long handles, up to 70 parallel edges, 6-9 points, or up to 40 points on one edge or circle; the discrete configuration space's dimension, cell counts and every boundary map (signs, faces, cells returned with the maps) compared with an independent enumeration of cubes, and boundary of boundary checked to vanish; non-trivial = a complex of positive dimension", quick: 120000, thorough: 2400000, case_cpu: 60, f: p_topo::c07 },
        PropDef { id: "C08", rule: "random graphs as for C07; homology printed for the full cubical complex and for the reduced (Morse) complex compared with invariant factors of the independently enumerated cube complex; non-trivial = positive dimension", quick: 80000, thorough: 1600000, case_cpu: 60, f: p_topo::c08 },
        PropDef { id: "C09", rule: "random graphs as for C07; classification of every cube, the flow, the critical cells and their number, Morse boundary maps compared with an independent implementation of the vertex flow (in complexes too large to list, for cubes picked at random); non-trivial = positive dimension", quick: 240000, thorough: 4800000, case_cpu: 60, f: p_topo::c09 },
        PropDef { id: "C10", rule: "random multigraphs with hostile vertex names (quotes, separators, digits) subdivided for 1-5 points, rarely larger graphs or up to 40 points; counts, labels, positions along every edge, edges between labels, depth-first numbering and maximal tree, printing and embeddings compared with the multigraph; non-trivial = at least one edge", quick: 750000, thorough: 15000000, case_cpu: 60, f: p_topo::c10 },
        PropDef { id: "C11", rule: "random histories of graph operations (add, remove, swap, relabel) with every query compared with an edge-set model; paths of cells and configurations, inverses, compositions and reductions executed as token motions and compared up to commutation of disjoint moves, rarely with 10-22 points or 15-60 steps, and rarely a graph of tens of thousands of vertices; non-trivial = more than two vertices", quick: 750000, thorough: 15000000, case_cpu: 60, f: p_topo::c11 },
        PropDef { id: "C33", rule: "random user-defined chain complexes, simplicial complexes and known spaces, and cubical complexes of small configuration spaces; combinatorial and weighted Laplacians composed from the library's boundary maps on borrowed views as in its examples; entries exactly, kernels against Betti numbers computed by modular ranks, commutation with the boundary, spectra against an independent Jacobi iteration on the harness's own complex, harmonic chains; non-trivial = some cell of positive dimension or non-zero map", quick: 160000, thorough: 3200000, case_cpu: 60, f: p_hodge::c33 },
        PropDef { id: "C29", rule: "random weighted edge lists (trees, complete, split into components, repeated edges, rarely up to 70 vertices, zero, negative and large weights, weights at very small and very large scales) over i64, f64 and rationals and through the graph! macros; adjacency, Laplacian entries and the spectrum against components compared; non-trivial = at least two edges", quick: 1800000, thorough: 36000000, case_cpu: 20, f: p_geom::c29 },
        PropDef { id: "C30", rule: "random integer point sets in general position (uniform, near-parabola, near-circle, clusters, strips, outliers, columns, jittered grids, wheels with a hub), up to 60 points, four insertion orders and scales; the triangulation compared with all triples that have an exactly empty circumcircle; non-trivial = at least four points", quick: 150000, thorough: 3000000, case_cpu: 20, f: p_geom::c30 },
        PropDef { id: "C31", rule: "random expressions in one to three (rarely up to 14, very rarely 70) variables through every operator form, on functions, coordinates and iterators, with zero, one, cancelling and repeated parts and scalars from 1e-40 to 1e30; values, first, mixed second and third derivatives at random points compared with hyper-dual numbers carrying error bounds; non-trivial = nested operators", quick: 3000000, thorough: 40000000, case_cpu: 20, f: p_fn::c31 },
        PropDef { id: "C32", rule: "random functions of one to four variables with one to four components (rarely up to 14, very rarely 40); values, sparse Jacobians, gradients, and matrices with functions as entries (products too), evaluated and compared with dual numbers; non-trivial = several variables and components", quick: 1500000, thorough: 30000000, case_cpu: 20, f: p_fn::c32 },
        PropDef { id: "C20", rule: "random sparse matrices (empty rows/columns, all-zero, stored zeros, built directly or through a transpose) over three scalar types, rarely with hundreds of rows or one line of more than 60000 entries, also at very small and very large scales; every row/column iteration, product form, comparison and print compared with nested vectors; non-trivial = some non-zero entry", quick: 1500000, thorough: 30000000, case_cpu: 20, f: p_sparse::c20 },
        PropDef { id: "C21", rule: "random fixed-size vectors and matrices of many shapes through every operator, compared with integer arrays, exact fractions and scaled floating-point numbers; non-trivial = first operand non-zero", quick: 10000000, thorough: 40000000, case_cpu: 20, f: p_sparse::c21 },
        PropDef { id: "C19", rule: "random programs over a pool of matrices whose elements carry identities followed by a registry from construction to drop, programs under an allocator that records the layout of every block (released with the layout it was requested with, none left over), matrices with extreme shapes, and the workloads of C05, C17, C18 and C20-C26, all in an AddressSanitizer build; non-trivial = more than 20 elements or a workload that is non-trivial for its own property", quick: 20000, thorough: 600000, case_cpu: 90, f: p_mem::c19 },
        PropDef { id: "C17", rule: "random matrices over i32/i64/i128/f64/rationals through every operand form (borrowed, owned, assigning, transposed), each result compared entry by entry with nested vectors, also of fractions and of floating-point numbers at very small and very large scales; ragged and mismatched inputs must be refused; non-trivial = larger than 1x1", quick: 1250000, thorough: 25000000, case_cpu: 20, f: p_dense::c17 },
        PropDef { id: "C18", rule: "random chains of nested views (all seven range forms on both axes, transposes, empty views) read and written, with the parent matrix compared after every step; accesses outside a view must be refused; non-trivial = larger than 1x1", quick: 360000, thorough: 7200000, case_cpu: 20, f: p_dense::c18 },
        PropDef { id: "C05", rule: "random integer matrices (dense, sparse, boundary-like, low-rank, scrambled diagonals, zero rows/columns; rarely with up to 66 rows and columns; some over i32 and some over the rationals) decomposed; the five returned factors are multiplied out exactly (R*M*C = D, both inverses, diagonal, divisibility chain) and the invariant factors compared with an independent elimination; non-trivial = non-zero and larger than 1x1", quick: 4800000, thorough: 40000000, case_cpu: 20, f: p_snf::c05 },
        PropDef { id: "C06", rule: "random rational matrices incl. rank-deficient ones and their transposes, rank compared with exact modular elimination; non-trivial = non-zero and larger than 1x1", quick: 4000000, thorough: 40000000, case_cpu: 20, f: p_snf::c06 },
        PropDef { id: "C12", rule: "random operation chains (+ - * / neg abs compare, plain and assigning) and iterator sums/products on rationals, operands up to 2^62 where a refusal for overflow is allowed, near-equal fractions; each result compared with an exact i128 fraction and with the same value built directly (equality, hash, order, printing); non-trivial = a non-integer value occurred", quick: 4000000, thorough: 40000000, case_cpu: 20, f: p_num::c12 },
        PropDef { id: "C13", rule: "random operand pairs in every signed integer type; division with remainder, divisibility, normal form, gcd with cofactors, primality and factor count compared with i128 trial arithmetic; non-trivial = both operands non-zero and different", quick: 4800000, thorough: 40000000, case_cpu: 20, f: p_num::c13 },
        PropDef { id: "C14", rule: "random triples of permutations (sparse, single cycles, small support, uniform; written as cycles in random rotation and order, as arrays and as vectors) through product, inverse, powers, order, transposition decomposition, list action, block swaps; each result compared with an image table; non-trivial = both operands move something", quick: 1600000, thorough: 32000000, case_cpu: 20, f: p_perm::c14 },
        PropDef { id: "C15", rule: "random families of formal sums over four coefficient types (also fractions and very small and very large numbers) on overlapping basis elements, built in several ways; sums, differences, scalings, basis operators, printing and matrices acting on a basis compared with sorted maps; non-trivial = at least two summands", quick: 2000000, thorough: 40000000, case_cpu: 20, f: p_sums::c15 },
        PropDef { id: "C16", rule: "random pairs of module descriptions (independent, re-presented, perturbed), isomorphism and printing compared with prime-power decompositions, over integers of several widths and over the rationals and reals; non-trivial = torsion on both sides", quick: 3000000, thorough: 40000000, case_cpu: 20, f: p_sums::c16 },
        PropDef { id: "C22", rule: "random integer matrices (sparse, permuted, singular, zero pivots; sizes 1-7, rarely to 16, very rarely to 110; scaled by powers of ten and of two) with exact determinants by modular arithmetic and systems with known integer solutions, residuals of LU factors and norms; non-trivial = larger than 1x1", quick: 2000000, thorough: 40000000, case_cpu: 20, f: p_lin::c22 },
        PropDef { id: "C23", rule: "random vectors (axis-aligned, zero heads or tails), general and symmetric matrices of size 1-9, rarely to 70 (dense, tridiagonal, block diagonal, Laplacians); orthogonality of every returned operator and the similarity it is supposed to realise measured as residuals; non-trivial = size above 2", quick: 300000, thorough: 6000000, case_cpu: 30, f: p_lin::c23 },
        PropDef { id: "C24", rule: "matrices P D P^-1 of size 1-8 (rarely to 36) with known separated real eigenvalues (diagonal, triangular, integer-conjugated, rotated); reported eigenvalues compared with the known ones in order, eigenvectors by residual; non-trivial = not diagonal", quick: 1200000, thorough: 24000000, case_cpu: 30, f: p_lin::c24 },
        PropDef { id: "C25", rule: "symmetric matrices of size 1-10, rarely to 60 (rotated diagonals with repeated and zero eigenvalues, permuted, block diagonal, tridiagonal, Laplacians) against the construction or an independent Jacobi iteration; eigenvectors by residual, norm and orthogonality; non-trivial = some off-diagonal entry", quick: 400000, thorough: 8000000, case_cpu: 30, f: p_lin::c25 },
        PropDef { id: "C26", rule: "random integer lattice bases reduced with several deltas; ranks 1-6, rarely up to 20; equality of lattices by the exact integral change of basis and its determinant, size-reduction and Lovasz conditions by an independent orthogonalisation; non-trivial = rank above 1", quick: 1200000, thorough: 24000000, case_cpu: 30, f: p_lin::c26 },
        PropDef { id: "C27", rule: "random operation sequences on bit sets whose lengths straddle 64-bit word boundaries, and on labelled sets, compared after every step with a sorted-set model; non-trivial = the set became non-empty; distinct = distinct operation log", quick: 300000, thorough: 6000000, case_cpu: 20, f: p_util::c27 },
        PropDef { id: "C28", rule: "random slice and subset size, full enumeration compared with recursive lexicographic enumeration; non-trivial = 1<=k<=n, n>=2", quick: 1800000, thorough: 36000000, case_cpu: 20, f: p_util::c28 },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let props = props();
    match a[0].as_str() {
        "worker" => core::worker(&props, &a[1..]),
        "check" => std::process::exit(core::check(&props, &a[1])),
        "replay" => std::process::exit(core::replay(&props, &a[1..])),
        "list" => for p in &props { println!("{}", p.id) },
        _ => std::process::exit(2),
    }
}
