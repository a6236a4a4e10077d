CHECKS = {
 "C01": {"harness": ["c01_field"], "note": "All pairs over an alphabet of integers around multiples of p and type extremes for 9 primes and 2 integer types, all pairs of small fractions, boundary-size fractions, all in-place operation sequences to depth 3-5; oracle: 128-bit integer / fraction arithmetic."},
 "C02": {"harness": ["c02_vector"], "note": "Every pair of vectors and every single edit (all arguments) of every vector up to length 3-5 over F2, F3, F5, Q; edit sequences; oracle: dense vectors."},
 "C03": {"harness": ["c03_matrix"], "note": "Every matrix (and every compatible pair) up to 3x3 over F2, 2x3 over F3, 2x2 over Q, including 0-sized shapes; every vector, block and ordered row/column selection; column and CSC formats; oracle: dense matrices."},
 "C04": {"harness": ["c04_edits"], "note": "Every one of 40 edit kinds with every argument from every matrix up to 3x3 over F2 and 2x2 over F3 and Q (the stored form is canonical, so this is every transition of the edit system in the bound), plus all pairs/triples of edits; oracle: dense edits."},
 "C05": {"harness": ["c05_triangular"], "note": "Every invertible triangular matrix up to 4x4 (F2), 3x3 (F3, Q) with every right-hand side; every matrix up to 4x4 / 3x3 through every shape predicate; every small invertible matrix inverted."},
 "C06": {"harness": ["c06_factor"], "note": "Every matrix up to 3x4 (F2), 2x3 (F3), 2x2 (Q) through six factorizations in both forms; every echelon matrix with every triangular factor through the four commutation routines; Schur complements."},
 "C07": {"harness": ["c07_reduction"], "note": "Every matrix up to 4x4 / 3x5 over F2, 3x3 over F3, small Q alphabets, through every reduction entry point; pivots judged by corner ranks, bases by dense multiplication."},
 "C08": {"harness": ["c08_homology"], "note": "Every simplicial complex on 4 and 5 vertices, every pair on 4 vertices, subsurfaces of RP2, grid cubical complexes, CW complexes with small attaching matrices, tensor products; all reduction options; oracle: dense ranks."},
 "C09": {"harness": ["c09_reps"], "note": "Every complex on 4 vertices (three cell orders), 5-vertex 2-complexes, torsion cell complexes, small filtrations; every basis-computing option, both degrees of graded spaces; every cycle (all kernel vectors) judged by dense ranks."},
 "C10": {"harness": ["c10_induced"], "note": "Every simplicial map between complexes on 3 vertices and from 4-vertex complexes to spheres/wedges, all hexagon-to-triangle maps, all composable pairs, all inclusions and maps of pairs, filtered bases; every pair of basis-computing options, both degrees; each column judged by whether f(z)-sum M w bounds."},
 "C11": {"harness": ["c11_barcodes"], "note": "Every filtration (all monotone value assignments over small alphabets, all linear extensions) of complexes on 3-4 vertices, lower-star filtrations, cubical and cell complexes; every reduction option over F2, F3, Q; oracle: corner ranks of the sorted boundary matrix."},
 "C12": {"harness": ["c12_duality"], "note": "Every complex/filtration in the bound: cohomology = homology ranks, barcodes of degree +1 = degree -1, union-find = matrix pairs, universal coefficients for torsion cells."},
 "C13": {"harness": ["c13_update"], "note": "Every pair (and short chains) of value assignments on complexes on 3 vertices, graphs on 4 vertices, hollow tetrahedron, RP2 lower stars; both degrees, augmented, all basis options; after each update R=DU, U, pivots, values and pairs are compared with a fresh sort."},
 "C14": {"harness": ["c14_incremental"], "note": "Every pair of filtrations (cells and values) on 2 and 3 vertices, every pair of graphs on 4 vertices, every pair of triangle sets, chains of three filtrations, Rips at two scales; SimplicialComplex and LightSimplicialComplex; both updaters, both degrees; factorization, pairs, values and order compared with a fresh computation."},
 "C15": {"harness": ["c15_quiver"], "note": "Every representation of type-A quivers with 1-3 arrows of dimension <=2-3 (F2, F3, Q), every direction, lines of up to 5-7 arrows, five arrows of planes, up to 12 arrows with all placements of up to 2-3 non-identity maps (recursive divide and conquer); oracle: generalised ranks (limit to colimit) of every interval."},
 "C16": {"harness": ["c16_zigzag"], "note": "Every history of single insertions/removals up to 8-9 steps from the empty complex on 3 vertices, from the (hollow) triangle, tetrahedron, K4 and cube boundaries, several cells per time, cells that leave and return; both reductions and every maximum dimension; oracle: generalised ranks of the homology of the subcomplex sequence."},
 "C17": {"harness": ["c17_simplicial"], "note": "Every sequence of 2-5 insertions (single or recursive, duplicates, missing faces, scrambled vertex order) over all simplices on 3-5 vertices in both representations, directed simplices over 2-3 letters, copies/moves/assignments, union/intersection/indices for every pair of complexes on 3-4 vertices; oracle: ordered sets of simplices."},
 "C18": {"harness": ["c18_boundary"], "note": "boundary matrices of simplicial, packed, cubical and general cell complexes against independent dense boundaries; relative, tensor, triangulated-product and Eilenberg-Zilber complexes, Kunneth"},
 "C19": {"harness": ["c19_maps"], "note": "every vertex map between complexes on 3 vertices and between full simplices up to 5 (6) vertices, 4-vertex complexes into spheres/graphs, composable pairs, identities, every inclusion of subcomplexes (simplicial, packed, cubical), relative maps, hand-made cell maps; matrices against a dense model, commutation with boundaries over F2, F3, Q"},
 "C20": {"harness": ["c20_rips"], "note": "every symmetric distance matrix with entries 0..3 on up to 4 points, two/three-valued on 5, every graph on 6; edge lists in every order and orientation; small integer point clouds with three metrics; both complex types, every maximum dimension; oracle: enumeration of all cliques with largest pair value"},
 "C21": {"harness": ["c21_covers"], "note": "Nerves of every cover of 4-5 points by 3-4 sets, every pair of covers, every point/landmark configuration on small integer grids for landmark selection, covering radii, witness and Dowker constructions and Rips filtrations over covers, every small vector pair for the metrics; oracle: brute force by definition (every cover set is a vertex of the nerve, even an empty one)."},
 "C22": {"harness": ["c22_functors"], "note": "Every diagram with up to 3 nodes and small sets through the Nerve, Rips, Chain, Hom and barcode functors, commuting squares and triangles, every container history; oracle: direct computation per node and edge on reference models."},
 "C23": {"harness": ["c23_io"], "note": "Every small vector and matrix (F2, F3, F5, Q, integers), every complex on 4 vertices in three insertion orders, every small map and diagram through save/read/save; point clouds, cube lists, command-line values; oracle: independent text rendering and dense/cell-wise equality."},
 "C24": {"harness": [{"src": "c24_schedules", "cmd": "g++ -std=c++17 -O2 -w -I{here}/lib -c {here}/lib/sched.cpp -o {exe}.sched.o && g++ -std=c++17 -O1 -w -fopenmp -fsanitize=thread -DMC_THREADS -D_GLIBCXX_ASSERTIONS -I{repo}/include -I{here}/lib -c {src} -o {exe}.o && g++ {exe}.o {exe}.sched.o -rdynamic -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -o {exe} -ldl"}], "note": "Stateless exploration of the real code under a controlled OpenMP scheduler (lib/sched.cpp replaces libgomp and the ThreadSanitizer runtime): for every enumerated input and thread count 2-5, in each parallel region every order of tasks, threads and loop chunks with up to 1-3 deviations from run-to-completion (all orders of up to 4-5 loop threads), plus the reversed order everywhere; conflicting accesses of strands the fork/join structure leaves unordered are reported in every execution, which covers all finer interleavings; results are compared with the one-thread run and, for barcodes and reductions, with an independent oracle.", "technique": "stateless schedule exploration with conflict detection on the real code"},
 "C25": {"harness": ["c25_filtration"], "note": "Every sequence of 3-5 insertions (single, recursive, directed, re-insertion with another value) over all simplices of a triangle, gapped labels, tetrahedron and cubes, in three containers; unions, sublevel sets at every threshold, lower stars of every small vertex function on complexes, grids and cubes, and their gradient; oracle: map from cell to value."},
 "C26": {"harness": ["c26_utilities"], "note": "Every list of length <=6-7, every permutation of <=6-7 (pairs: 4-5), every pair of sorted lists over 5-6 keys with every bound, every sequence of 4-5 operations on two tries, every union-find history of 4-5 steps and every parent forest on 6-7 nodes, every edge index of K_N up to N=120-400; oracle: set/partition/rank definitions."},
 "C27": {"harness": ["c27_pid"], "note": "Every small integer matrix, every small polynomial matrix and polynomial pair over F2/F3, every small square matrix over F2/F3 is run through the real extended Euclidean algorithm, polynomial division, Smith normal forms, companion matrices, generating bases and rational canonical forms; oracles are determinant-divisor invariants and exact matrix identities."},
 "C28": {"harness": ["c28_levelset"], "note": "Every small vertex function (negative values included) on every small simplicial complex, on the cubes of 8 and 27 vertices, and every small image, with every thickening of a list; stored intervals, every level set between critical values, every windowed zigzag (nodes, inclusions, barcode) and the zigzag barcode are compared with the explicit sequence of subcomplexes (generalised ranks). Histories of cells entering several times as in C16."},
 "C29": {"harness": [{"src": "c29_dense", "flags": ["-fsanitize=address", "-O0"]}, {"src": "c29_future", "flags": ["-fsanitize=address", "-O0"]}], "note": "Every small matrix over F2, F3 and Q in every storage order; every history of elementary operations, span insertions and similarity steps up to a depth; results compared with exact dense reference linear algebra; run under AddressSanitizer so that a read outside the matrix is a violation."},
 "C30": {"harness": ["c30_cleanup"], "note": "Every matrix up to 12-16 entries over F2, 9-12 over F3, 6-9 over Q with every sequence of up to three clean-up steps after every reduction; every complex on 4 vertices, every 2-complex on 5 vertices (bounded in the quick tier), cell complexes with torsion coefficients, every value assignment on 3-vertex filtrations with value updates between clean-up steps, lower-star filtrations of the projective plane, induced maps between cleaned bases; oracle: dense recomputation of pivots, D*U = R, homology dimensions, persistence pairs and cycle representatives."},
 "C31": {"harness": ["c31_generators"], "note": "Every grid size and sub-range up to small bounds in all overloads of Cube and Freudenthal, every triangulated small cubical complex, every size of generated spaces, seeds of samples, levels of the Sierpinski diagram; oracle: grids enumerated from their definition, exact homology, coordinates and chain-map identities checked entry by entry."},
}
NOT_APPLICABLE = {}
