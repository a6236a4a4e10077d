#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Coefficient fields do exact field arithmetic",
 "For every prime p whose square fits the integer type, building a residue from any machine integer (negative or larger than p included), assigning one, adding, subtracting, multiplying, dividing, negating, inverting and comparing residues (binary and in-place forms, against residues or plain integers) gives exactly the integers-mod-p answer. Rational arithmetic gives the exact fraction in lowest terms with positive denominator whenever the unreduced intermediate products fit the integer type, and equality and ordering agree with the rationals.",
 ["inputs"], "every pair and triple of elements of F_p for small primes, every integer in a window around zero, every pair of small fractions",
 "Tests try a handful of operands with p = 2, 3, 5; they never build residues from integers below -p and never divide or compare exhaustively.",
 ["include/linalg/field.hpp"], [("ModP and its F2 specialisation", "include/linalg/field.hpp"), ("Rational normalisation", "include/linalg/field.hpp")])

prop("C02", "Sparse vectors behave as exact vectors over their field",
 "Any sequence of public sparse-vector operations (construction from indices and values, axpy with an index window, scaling, sums, products, dot and entry access, insertion, erasure, block assignment and extraction, permutation, shifting, concatenation) leaves the vector equal to what the same sequence does to a dense vector over the same field. After every step the stored entries are in strictly increasing index order with no explicit zeros, whatever cancellations happened.",
 ["histories", "inputs"], "every operation sequence up to a small depth from every vector of small dimension, over F2, F3 and Q",
 "Tests apply one operation to one or two hand-written vectors; cancellation patterns and sequences of edits on the same object are not covered.",
 ["include/linalg/sparse_vector.hpp", "include/linalg/abstract_vector.hpp"], [("sorted merge in axpy", "include/linalg/sparse_vector.hpp"), ("insertion, erasure and block operations", "include/linalg/sparse_vector.hpp")])

prop("C03", "Sparse matrices do exact linear algebra",
 "For column matrices and compressed sparse column matrices over any supported field, products with vectors and matrices, sums, differences, scalar multiples, transposes, equality, row/column/block extraction, norms counting non-zeros and conversions between the formats give exactly the dense answer for every shape, including empty rows, empty columns and 0-sized matrices. Results never contain explicit zeros or unsorted columns, and operands are left unchanged.",
 ["inputs"], "every pair of matrices of small shapes over F2, F3 and a small rational alphabet",
 "Tests multiply a few fixed matrices; no test compares products, sums or CSC operations with a dense reference over all sparsity patterns.",
 ["include/linalg/col_matrix.hpp", "include/linalg/csc_matrix.hpp"], [("ColumnMatrix gemv/gemm/arithmetic", "include/linalg/col_matrix.hpp"), ("CSCMatrix gather-style products", "include/linalg/csc_matrix.hpp")])

prop("C04", "Structural matrix edits match the dense reference",
 "Any sequence of structural edits of a column matrix - row and column swaps, permutations and their inverses, row/column scaling and mixing, appending, inserting and erasing rows and columns, block assignment, block and anti-transposition views (J-conjugations) - has exactly the effect the same edits have on a dense matrix, dimensions included. Edits documented as inverses of each other undo each other.",
 ["histories", "inputs"], "every edit sequence up to a small depth from every matrix of small shape over F2 and F3, with every permutation and index argument",
 "Tests cover single edits on one or two matrices; sequences and all index arguments (ends, duplicates, empty sets) are not reached.",
 ["include/linalg/col_matrix.hpp", "include/util/permutation.hpp"], [("swap/permute/mix/append/insert/erase", "include/linalg/col_matrix.hpp")])

prop("C05", "Triangular solves and shape predicates are exact",
 "For every invertible upper or lower triangular matrix and every right-hand side (vector or matrix), the forward and backward solves, left and right, and triangular inverses return the unique exact solution. The predicates recognising upper, lower, unit, permutation, echelon-pivot (EL, EU) and reduced shapes return true exactly on matrices of those shapes.",
 ["inputs"], "every small matrix over F2, F3 and a small rational alphabet, every right-hand side",
 "Tests solve a few fixed systems; predicates are only used on matrices known to satisfy them.",
 ["include/linalg/col_matrix.hpp", "include/linalg/sparse_fact.hpp"], [("u_solve, l_solve, ut_solve, lt_solve, u_inv, l_inv", "include/linalg/col_matrix.hpp"), ("is_upper/is_lower/is_EL/is_EU...", "include/linalg/col_matrix.hpp")])

prop("C06", "Matrix factorizations reproduce the matrix with factors of promised shape",
 "For every matrix over a field, each of the echelon factorizations (LEUP, PLEU, UELP, PUEL, LQU, UQL) returns factors whose product is exactly the matrix, with triangular factors invertible and of the named triangular kind, permutation factors permutations, and echelon factors of the named pivot shape. The commutation routines that push triangular factors through echelon or quasi-permutation factors preserve the product and return factors of the promised shape.",
 ["inputs"], "every matrix up to a small shape over F2, F3 and a small rational alphabet; every echelon and quasi-permutation shape with every triangular factor",
 "Tests factor a few fixed and random matrices; rank-deficient patterns in rectangular shapes are covered only by luck.",
 ["include/linalg/sparse_fact.hpp"], [("LEUP/PLEU/UELP/PUEL/LQU/UQL", "include/linalg/sparse_fact.hpp"), ("EL_L_commute and relatives", "include/linalg/sparse_fact.hpp")])

prop("C07", "Column reduction returns a reduced matrix and the basis that produces it",
 "For every matrix over a field and every reduction entry point and option (standard, extra, sparsifying, compressed, divide-and-conquer, with or without a recorded basis), the reduced matrix has distinct pivots in its non-zero columns, its pivots are the ones determined by the ranks of the corner blocks of the input, and the pivot table lists exactly them. The recorded basis change is invertible upper triangular and maps the input to the reduced matrix exactly, and extra reduction additionally clears every entry that lies in the pivot row of an earlier column.",
 ["inputs", "configurations"], "every matrix up to a small shape over F2 and F3, every reduction flag",
 "Tests reduce a few hand-made boundary matrices with some flags and compare only a Betti count.",
 ["include/homology/reduction.hpp", "include/homology/parallel.hpp"], [("reduce_matrix variants", "include/homology/reduction.hpp"), ("partial_reduce_parallel / divide and conquer", "include/homology/parallel.hpp")])

prop("C08", "Homology ranks are right for every complex, field and option",
 "For every finite chain complex (simplicial, cubical, cellular, relative to a subcomplex, or tensor product), every coefficient field and every documented computation option (standard, clearing, compression, extra or sparse reduction, with or without basis), the reported dimension of homology in each degree equals kernel rank minus incoming rank computed independently, and hence the alternating sum equals the Euler characteristic. All options agree with one another.",
 ["inputs", "configurations"], "every simplicial complex on few vertices and every small subcomplex pair, cubical complexes in a small grid, F2, F3, Q, all option combinations",
 "Tests compute Betti numbers of a few spheres and a circle with a few flags and fields.",
 ["include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/homology/cohom_basis.hpp", "include/chain/chain_complex.hpp"], [("ReducedChainComplex constructor, hdim", "include/homology/basis.hpp"), ("compression and clearing", "include/homology/reduction.hpp")])

prop("C09", "Homology representatives are cycles and normal forms decide homology",
 "With a basis, the representatives returned for each degree are cycles whose classes form a basis of homology. The normal form of a cycle differs from it by a boundary, is idempotent, is linear, and two cycles have the same normal form exactly when they are homologous; in particular boundaries and only boundaries map to zero.",
 ["inputs", "configurations"], "every chain in every degree of every small complex, F2 and F3, every basis-producing option",
 "Tests check one or two cycles of one complex.",
 ["include/homology/basis.hpp"], [("get_preferred_representative, find_preferred_representative, to_hom_basis, from_hom_basis", "include/homology/basis.hpp")])

prop("C10", "Induced maps on homology are correct and functorial",
 "The matrix a chain map induces on homology sends each representative's class to the class of its image, so it is the identity for the identity map, respects composition of maps, and its rank equals that of the map on homology computed independently. This holds for every reduction option of either end and in every degree, whether computed for plain, filtered (by persistence bases) or dual complexes.",
 ["inputs", "configurations"], "every vertex map between small simplicial complexes and every inclusion pair, composable pairs, F2 and F3",
 "Tests induce one inclusion map.",
 ["include/homology/induced_map.hpp", "include/homology/basis.hpp"], [("induced_map overloads", "include/homology/induced_map.hpp")])

prop("C11", "Persistence barcodes are right for every filtration, field and option",
 "For every filtered complex with any finite filtration values (ties and zero-length pairs included), every field and every option (standard, clearing, compression, extra, sparsify, with or without basis), the reported pairs with their birth and death values and critical cells form exactly the persistence pairing determined by the ranks of the filtered boundary blocks. The number of bars alive across any sublevel pair equals the rank of that inclusion on homology, independent of the order in which equal-valued cells were added.",
 ["inputs", "configurations"], "every filtration order with ties of every small complex, F2 and F3, all options",
 "Tests compare barcodes of one or two filtrations; quickstart and rips demos only check that programs exit.",
 ["include/persistence/filtered_basis.hpp", "include/persistence/extract.hpp", "include/persistence/barcode.hpp", "include/chain/filtered_chain_complex.hpp"], [("ReducedFilteredChainComplex persistence_pairs", "include/persistence/filtered_basis.hpp"), ("filtration permutation of boundaries", "include/chain/filtered_chain_complex.hpp")])

prop("C12", "Cohomology and homology dualities hold",
 "For every complex and filtration, the graded-vector-space computation in degree -1 (homology) and degree +1 (cohomology) give the same dimensions and, in the filtered case, the same persistence pairs with the same birth and death values and the same birth and death cells as ordinary homology, for every option. Coboundaries square to zero, and the union-find computation of zero-dimensional persistence gives the same degree-0 pairs as matrix reduction.",
 ["inputs", "configurations"], "every small complex and filtration, F2 and F3, all options, both degrees",
 "No stable test covers cohomology, graded vector spaces or union-find persistence.",
 ["include/dgvs/dgvs.hpp", "include/dgvs/filtered_dgvs.hpp", "include/homology/dgbasis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/persistence/union_find.hpp"], [("DGVectorSpace degree handling", "include/dgvs/dgvs.hpp"), ("union_find_pairs", "include/persistence/union_find.hpp")])

prop("C13", "Updating filtration values equals recomputing from scratch",
 "After any sequence of changes of the filtration values of a fixed complex, an incrementally updated filtered reduction reports the same persistence pairs (birth and death values and cells), up to the pairing being determined by the same total order, as a reduction computed from scratch for the current values, and its recorded basis still satisfies the reduction identity. This holds for chain complexes and graded vector spaces, and for every update option.",
 ["histories", "inputs", "configurations"], "every sequence of one or two value assignments (all weak orders compatible with faces) on small complexes, F2 and F3",
 "The only update tests are not in the stable set; they check single random updates.",
 ["include/persistence/filtered_basis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/chain/filtered_chain_complex.hpp", "include/homology/basis.hpp"], [("update_filtration", "include/persistence/filtered_basis.hpp"), ("update_basis (permute then re-reduce)", "include/homology/basis.hpp")])

prop("C14", "Inserting and deleting cells incrementally equals recomputing",
 "For any two filtrations with simplices added, removed and re-ordered between them, the update information extracted from the pair is a correct edit script (old cells minus deletions, permuted, plus insertions, is exactly the new filtration), and applying it to a reduced complex of the first filtration yields the same barcode as reducing the second from scratch. Chains of successive updates keep this true.",
 ["histories", "inputs", "configurations"], "every pair (and chains of three) of filtered complexes on few vertices, F2",
 "The stable tests have no general-update case (those suites crash or are excluded).",
 ["include/filtration/update_information.hpp", "include/persistence/filtered_basis.hpp", "include/homology/basis.hpp"], [("UpdateInfo2 / Update_info", "include/filtration/update_information.hpp"), ("update_filtration_general", "include/persistence/filtered_basis.hpp")])

prop("C15", "Zigzag (quiver) barcodes are the interval decomposition",
 "For every diagram of vector spaces and linear maps over an A_n quiver with any arrow directions, the computed barcode is its interval decomposition: the bar multiplicities are exactly those determined by the ranks of the composite relations between every two vertices. All algorithms (leftward, rightward, divide-and-conquer) return the same multiset of bars.",
 ["inputs", "configurations"], "every direction pattern, dimension vector and matrix tuple up to small length and dimension over F2 and F3; all algorithms",
 "The stable tests factor a few fixed quivers and check only that the algorithms agree on some.",
 ["include/quiver/sparse.hpp", "include/linalg/sparse_fact.hpp"], [("barcode_form_leftward/rightward/divide_conquer", "include/quiver/sparse.hpp")])

prop("C16", "Zigzag filtration barcodes match the subcomplex sequence",
 "For every zigzag filtration (cells entering and leaving any number of times, in any order consistent with faces), the zigzag barcode in every degree is the interval decomposition of the homology of the resulting sequence of subcomplexes and inclusions. Cells present at each time form a complex, and filtrations without removals give the ordinary persistence barcode.",
 ["histories", "inputs", "configurations"], "every valid sequence of insertions and removals up to a bounded length over complexes on few vertices, F2 and F3, all options",
 "No stable test computes a zigzag-filtration barcode.",
 ["include/zigzag/zigzag_filtration.hpp", "include/zigzag/reduction.hpp"], [("ZigzagFiltration", "include/zigzag/zigzag_filtration.hpp"), ("zigzag barcode by extended boundary reduction", "include/zigzag/reduction.hpp")])

prop("C17", "Simplicial complexes behave as downward-closed sets of simplices",
 "Whatever sequence of insertions (single, recursive, bulk, duplicates, missing faces) is performed, a simplicial complex contains exactly the simplices a plain set would, reports the right counts per dimension, gives every simplex a stable distinct index in insertion order, lists the right faces (with signs that make the boundary of a boundary vanish), and (pointer-trie form) rejects a simplex whose faces are missing without changing state. Both simplicial representations (pointer-trie and packed-key) agree, as do set operations (union, intersection), skeletons and sorted-order accessors.",
 ["histories", "inputs"], "every insertion sequence up to a bounded length over all simplices on few vertices, both representations",
 "Tests build two or three complexes with valid insertions only.",
 ["include/complex/simplicial_complex.hpp", "include/complex/light_simplicial_complex.hpp", "include/util/trie.hpp"], [("add / add_recursive / find_idx", "include/complex/simplicial_complex.hpp"), ("packed simplex keys", "include/complex/light_simplicial_complex.hpp")])

prop("C18", "Boundary operators are right and square to zero",
 "For every simplicial, cubical or general cell complex built through the public interface, the boundary matrix of each dimension has exactly the faces of each cell with the alternating-sign orientation, consecutive boundaries compose to zero over every field, and cell counts match. The same holds for relative complexes, tensor products of complexes and the product (Eilenberg-Zilber) complexes, whose homology obeys the Kunneth formula.",
 ["inputs", "histories"], "every small complex and pair, every field tried, products of all small pairs",
 "Tests look at a couple of boundary matrices over F2, F3 and Q.",
 ["include/complex/simplicial_complex.hpp", "include/complex/light_simplicial_complex.hpp", "include/complex/cubical_complex.hpp", "include/complex/cell_complex.hpp", "include/chain/chain_complex.hpp", "include/topology/eilenberg_zilber.hpp"], [("boundary_csc", "include/complex/simplicial_complex.hpp"), ("tensor_product, relative complexes", "include/chain/chain_complex.hpp")])

prop("C19", "Maps of complexes induce chain maps, functorially",
 "For every vertex map that is simplicial, and for every inclusion of simplicial, cubical or cell complexes, the induced matrices commute with the boundary operators over every field, with the right orientation signs and with collapsed simplices sent to zero. Identity maps induce identities and composition of maps induces the product of matrices.",
 ["inputs"], "every simplicial vertex map between small complexes, every inclusion of small complexes, composable pairs",
 "Tests cover one map.",
 ["include/complex/simplicial_map.hpp", "include/complex/cell_map.hpp", "include/complex/cubical_map.hpp", "include/chain/chain_map.hpp"], [("SimplicialMap constructor", "include/complex/simplicial_map.hpp"), ("ChainMap", "include/chain/chain_map.hpp")])

prop("C20", "Rips and flag constructions are exactly the clique complexes",
 "For every finite metric input, radius and maximum dimension, the Rips or flag complex contains exactly the cliques of the threshold graph up to that dimension, each once. In the filtered versions each simplex's value is the largest pairwise distance (or edge value) in it, faces never come after cofaces, and points, distance-matrix and edge-list entry points agree.",
 ["inputs", "configurations"], "every edge-weight weak order on few points (realised as distance matrices) with every threshold and dimension, every small planar integer point set",
 "Tests and demos run on one or two random point clouds and check no simplex list.",
 ["include/topology/rips.hpp", "include/topology/flag.hpp", "include/filtration/rips.hpp", "include/filtration/flag.hpp"], [("add_dimension_recursive_flag", "include/topology/flag.hpp"), ("rips_edges / RipsFiltration", "include/topology/rips.hpp")])

prop("C21", "Covers, nerves, witness and landmark constructions match their definitions",
 "Nerves contain a simplex exactly when the cover sets indexed by its vertices have a common point; bivariate covers, cover maps, restrictions, neighbourhoods and Dowker-type complexes contain exactly what their definitions by distances or memberships say, with filtration values as defined. Greedy landmark selection returns distinct points in farthest-point order from its seed, and its covering radius and distance helpers match brute force.",
 ["inputs"], "every cover of a few points by a few sets, every small integer point configuration, every parameter",
 "No stable test exercises these constructions.",
 ["include/topology/nerve.hpp", "include/topology/cover.hpp", "include/topology/dowker.hpp", "include/topology/landmark.hpp", "include/topology/neighborhood.hpp"], [("Nerve", "include/topology/nerve.hpp"), ("greedy_landmarks, hausdorff", "include/topology/landmark.hpp"), ("dowker edges", "include/topology/dowker.hpp")])

prop("C22", "Diagrams and functors preserve shape and commute with direct computation",
 "Applying a functor (nerve, Rips, chain, homology, quiver) to a diagram yields a diagram of the same shape whose node and edge data equal what the direct computation gives for that node or edge, for every shape of diagram and regardless of the order or number of threads that process it. Consequently commuting squares stay commuting.",
 ["inputs", "configurations"], "every small directed multigraph with every small assignment of sets or covers",
 "No stable test applies functors to diagrams.",
 ["include/multigraph/diagram.hpp", "include/multigraph/functors.hpp", "include/topology/inclusion.hpp"], [("Diagram", "include/multigraph/diagram.hpp"), ("Chain/Hom/Nerve/Rips functors", "include/multigraph/functors.hpp")])

prop("C23", "Saved objects read back equal",
 "Writing a vector, matrix, simplicial complex, cellular map or diagram (node by node and edge by edge) in its text format and reading it back yields an equal object - the same cells with the same indices and boundaries, the same entries - including empty ones and empty columns, negative values and rationals. Saving never alters the object, and saving the loaded object gives the same text. Lists of cubes and point-cloud files load exactly what they list, one row per point.",
 ["inputs"], "every small vector, matrix, complex and map through the real save/load functions",
 "Tests round-trip at most one or two fixed objects.",
 ["include/linalg/col_matrix.hpp", "include/linalg/sparse_vector.hpp", "include/complex/simplicial_complex.hpp", "include/complex/cell_complex.hpp", "include/multigraph/diagram.hpp", "include/util/io.hpp"], [("save/load/str/read", "include/linalg/col_matrix.hpp")])

prop("C24", "Parallel sections give the sequential answer under every schedule",
 "Every computation the library parallelises - divide-and-conquer zigzag barcodes, per-dimension and blocked reductions, functor application over diagrams, neighbourhood graphs and level-set constructions - produces the same result under every thread count and every interleaving of its tasks as it does sequentially. No two concurrently runnable tasks ever access the same memory location with one of them writing, except under the locks they hold.",
 ["schedules", "inputs", "configurations"], "every order of task and loop-chunk execution on small inputs, with conflicting-access detection between concurrent tasks that covers all finer interleavings",
 "Tests run with whatever schedule the machine produces; two runs cover two interleavings.",
 ["include/homology/parallel.hpp", "include/quiver/sparse.hpp", "include/multigraph/functors.hpp", "include/topology/neighborhood.hpp", "include/topology/levelset.hpp"], [("OpenMP tasks in divide and conquer", "include/quiver/sparse.hpp"), ("parallel for in functors", "include/multigraph/functors.hpp"), ("blocked parallel reduction", "include/homology/parallel.hpp")])

prop("C25", "Filtration containers keep values, cells and order consistent",
 "Whatever sequence of insertions builds a filtration, every cell keeps the value it was given, implicitly added faces get the value of the insertion that added them, sublevel sets at every threshold are subcomplexes with exactly the cells of value at most the threshold, and complex and value lists stay aligned. Lower-star extension of vertex values (to any real values, negative included) gives each cell the maximum over its vertices, and filtering permutations sort cells stably by value.",
 ["histories", "inputs"], "every insertion sequence up to a bounded length over all simplices on few vertices with small value alphabets; every small real-valued vertex function",
 "Tests build one filtration with increasing values.",
 ["include/filtration/filtration.hpp", "include/filtration/extension.hpp", "include/chain/filtered_chain_complex.hpp"], [("Filtration add / add_recursive / sublevelset", "include/filtration/filtration.hpp"), ("lower_star_filtration", "include/filtration/filtration.hpp")])

prop("C26", "Index utilities: permutations, sorted lists, tries and disjoint sets",
 "Sorting and partial-sorting permutations really sort (stably where promised), applying and inverting permutations are mutual inverses, sorted-list intersections and unions and set relations equal the set operations for every bound argument, and simplex keys hash and compare consistently. The tries behave as maps from key sequences to values (every prefix of an inserted key is a key too, with value zero until it is set) under any sequence of insertions, look-ups, copies, moves and assignments, and disjoint-set forests answer connectivity exactly as a naive partition does under any sequence of unions.",
 ["histories", "inputs"], "every operation sequence up to a bounded length over small key alphabets; all lists and permutations up to a small length",
 "The utility test suite checks single examples of sorting; tries, copies and union-find have no stable test.",
 ["include/util/permutation.hpp", "include/util/sorted.hpp", "include/util/trie.hpp", "include/util/set.hpp", "include/persistence/union_find.hpp"], [("sortperm, apply_perm, inv_perm", "include/util/permutation.hpp"), ("SparseTrie", "include/util/trie.hpp"), ("intersect_sorted_lt", "include/util/sorted.hpp")])

prop("C27", "Normal forms over principal ideal domains are exact",
 "For every small integer or polynomial matrix the Smith normal form routines return a diagonal form equivalent to the input (same determinantal divisors up to units, factors multiply back to the input where factors are returned). Polynomial arithmetic (ring operations, division with remainder, gcd, evaluation) agrees with coefficient-wise arithmetic over the field, and the rational canonical form is similar to the input with the right invariant factors.",
 ["inputs"], "every matrix of small shape with small integer entries, all small polynomials over F2, F3; every small square matrix over F2, F3 for the canonical form",
 "No stable test covers Smith or rational canonical forms or polynomials.",
 ["include/linalg/pid.hpp", "include/linalg/polynomial.hpp", "include/linalg/rcf.hpp"], [("smith_factorization, smith_normal_form", "include/linalg/pid.hpp"), ("UnivariatePolynomial", "include/linalg/polynomial.hpp"), ("RCF", "include/linalg/rcf.hpp")])

prop("C28", "Level-set zigzag constructions realise the sublevel and interlevel sets",
 "Extending vertex values to intervals on cells and building level-set zigzag filtrations or diagrams gives, at every level and interval of the subdivision, exactly the cells whose value range meets it as documented, with inclusions in the documented directions, for any real vertex values (negative included). Zigzag barcodes of these constructions agree with those of the explicit subcomplex sequence.",
 ["inputs"], "every small vertex function on small simplicial and cubical complexes with every small subdivision",
 "No stable test exercises level-set zigzags.",
 ["include/zigzag/extension.hpp", "include/zigzag/zigzag_filtration.hpp", "include/topology/levelset.hpp"], [("extend_zigzag_filtration", "include/zigzag/extension.hpp"), ("zigzag_levelsets, zigzag_toplex", "include/topology/levelset.hpp")])

prop("C29", "Dense matrices do exact linear algebra",
 "Dense matrix storage, views, products, transposition, slicing, and the dense factorizations over a field (LU, LEUP-type echelon factorization, span and similarity computations) agree with exact textbook linear algebra for every matrix, and conversions between dense and sparse matrices are inverse to each other.",
 ["inputs"], "every small matrix over F2 and F3",
 "No stable test covers the dense code.",
 ["include/linalg/naive_dense.hpp", "include/future/dense.hpp", "include/future/lu.hpp", "include/future/span.hpp"], [("dense LU / products", "include/linalg/naive_dense.hpp"), ("Matrix, LU, Span", "include/future/dense.hpp")])

prop("C30", "Basis clean-up keeps homology bases valid",
 "Sparsifying a recorded basis and discarding or re-completing redundant cycles (in plain and filtered, homology and cohomology computations) keeps the basis invertible, keeps the reduction identity and the span filtration it had, and leaves every reported barcode and homology dimension unchanged. Remaining representatives are still cycles that form a homology basis.",
 ["inputs", "configurations"], "every small complex and filtration, F2 and F3, every basis-producing option followed by each clean-up operation",
 "No stable test calls these operations.",
 ["include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/homology/reduction.hpp"], [("sparsify_basis, remove_extra_cycles", "include/homology/basis.hpp"), ("greedy introduce", "include/homology/basis.hpp")])

prop("C31", "Generated grids, sample spaces and self-similar diagrams are what they claim",
 "Grid generators return complexes closed under faces that triangulate or tile exactly the requested box: Cube gives every cell of the cubical grid, Freudenthal gives every simplex of the Freudenthal triangulation of the same grid (all overloads, sub-ranges included), the triangulation of a cubical complex has its homology, products of point sets contain every pair with the right coordinates, interval, circle and cylinder generators return points on those spaces with the documented spacing, seeded samples and noise are reproducible and on their space, and the Sierpinski diagram is a diagram of cellular chain maps between complexes of the right homology.",
 ["inputs"], "every grid size up to small bounds in one to three dimensions and every sub-range, every subcomplex of small cubical grids, all levels of the self-similar diagram up to a bound, a range of seeds and sizes for samples",
 "No stable test checks generated complexes or data sets.",
 ["include/topology/grid.hpp", "include/topology/data_gen.hpp", "include/topology/extras.hpp", "include/topology/spherical.hpp"], [("Freudenthal, Cube", "include/topology/grid.hpp"), ("serpinski_diagram", "include/topology/extras.hpp"), ("product_space, gen_cylinder", "include/topology/data_gen.hpp")])

if __name__ == "__main__":
    for p in P: print(json.dumps(p))
