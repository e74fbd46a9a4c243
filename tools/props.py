H, I = "histories", "inputs"
MODEL = "property-based testing: model-based operation histories against a naive reference, with shrinking"
DIFF = "property-based testing: generated inputs against brute-force / defining-identity oracles, with shrinking"
NOTE = ("Held on every generated {what} (counts, non-trivial counts and samples in the evidence file), built with AddressSanitizer and "
        "bounds/div-by-zero/return checks. Trusts the naive reference model in the harness, g++-10, and the stand-in for the absent ac-library; "
        "sizes are bounded so that the reference stays cheap, so size-only effects beyond those bounds are not reached.")
PROPS = []
def P(id, title, statement, over, text, files, mech, tech=MODEL, what="history", why="", how=""):
    L = "library/"
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, files=[L + f for f in files],
                      mech=[(n, L + w) for n, w in mech], tech=tech, note=NOTE.format(what=what), why=why, how=how))

ST = "datastructure/segment_tree/"
P("C01", "Point-update range-fold segment trees equal a plain array / point map",
  "After any sequence of point updates (by assignment, by in-place modification through the element proxy, by set/add), every range, prefix, suffix or rectangle fold, every point read and every max_right/min_left search of the dense, sparse (implicit key space), compressed and 2-D segment trees returns exactly what folding the current contents from left to right gives, for any monoid including non-commutative ones. "
  "This holds for every size including 0, 1 and non-powers of two and for empty and full ranges.",
  [H, I], "all operation histories, sizes, index ranges, element values and monoids",
  [ST + x for x in ["segment_tree.hpp", "sparse_segment_tree.hpp", "compressed_segment_tree.hpp", "segment_tree_2d.hpp", "segment_tree_2d_sparse.hpp"]] + ["util/update_proxy_object.hpp"],
  [("bottom-up recomputation of the ancestors of an updated leaf", ST + "segment_tree.hpp"), ("lazily created nodes over an implicit key range", ST + "sparse_segment_tree.hpp"), ("coordinate compression of announced points", ST + "segment_tree_2d_sparse.hpp")])
P("C02", "Range-update structures equal element-wise application to a plain array",
  "Applying operators to ranges (lazy, sparse lazy, dual and commutative dual segment trees, range set / range composite, segment tree beats with chmin/chmax/add, affine and affine-clamp monoids) and then reading points, folding ranges or binary-searching gives exactly the result of applying each operator element by element, in order, to a plain array. "
  "It holds for non-commutative operator and data monoids, for every size and for interleavings of updates, point sets and queries.",
  [H, I], "all interleavings of range updates, point updates and queries over all sizes, ranges, operator and data monoids",
  [ST + x for x in ["lazy_segment_tree.hpp", "sparse_lazy_segment_tree.hpp", "dual_segment_tree.hpp", "commutative_dual_segment_tree.hpp", "segment_tree_beats.hpp"]] + ["range_query/range_chmin_chmax_add_range_sum.hpp", "range_query/range_set_range_composite.hpp", "algebra/monoid/affine.hpp", "algebra/monoid/affine_clamp.hpp"],
  [("push of pending operators before descending", ST + "lazy_segment_tree.hpp"), ("second-extreme bookkeeping and failure propagation", ST + "segment_tree_beats.hpp")])
DS = "datastructure/"
P("C03", "Sortable segment trees and implicit treaps behave as a plain sequence",
  "Any history of insert, erase, split, concatenate, rotate, reverse, ascending/descending sort of a range, point set, range apply and fold on the sortable segment trees and on the implicit treaps (plain, range-foldable, lazily applied, reversible) leaves exactly the sequence a plain array would have, and every fold, read, iteration and lower/upper bound search returns what the array gives, also for non-commutative monoids.",
  [H], "all operation histories, sizes, ranges and monoids",
  [ST + x for x in ["sortable_segment_tree.hpp"]] + [DS + "bbst/" + x for x in ["implicit_treap.hpp", "implicit_treap_segtree.hpp", "reversible_implicit_treap.hpp", "reversible_implicit_treap_lazy_segtree.hpp"]],
  [("merging and splitting of sorted runs", ST + "sortable_segment_tree.hpp"), ("reversal and operator push in treap nodes", DS + "bbst/reversible_implicit_treap_lazy_segtree.hpp")])
P("C04", "Red-black-tree and splay dynamic sequences behave as a plain sequence",
  "Any history of build, insert, erase, split, merge, reverse, get, set, range apply and fold on the (non-persistent) red-black trees and on the splay-tree dynamic sequences leaves exactly the sequence a plain array would have; every fold, read, dump and size agrees with it, and the balance invariants of the tree hold after each operation.",
  [H], "all operation histories, sizes, ranges and monoids",
  [DS + x for x in ["dynamic_sequence.hpp", "range_foldable_dynamic_sequence.hpp", "lazy_eval_dynamic_sequence.hpp", "bbst/red_black_tree.hpp", "bbst/red_black_segment_tree.hpp", "bbst/red_black_lazy_segment_tree.hpp"]],
  [("red-black join", DS + "bbst/red_black_tree_base.hpp"), ("splay with reversal flags", DS + "dynamic_sequence.hpp")])
P("C05", "Persistent structures never change an old version",
  "For every persistent structure (red-black trees, segment trees, lazy and dual segment trees, array, union-find, Fenwick tree), an update of any version yields a new version equal to the updated plain model, and every previously obtained version still answers every query exactly as it did when it was created, whatever branching history of updates, splits, merges and queries follows.",
  [H], "all branching version histories, sizes, ranges and monoids",
  [DS + x for x in ["persistent_array.hpp", "bbst/persistent_red_black_tree.hpp", "bbst/persistent_red_black_segment_tree.hpp", "segment_tree/persistent_segment_tree.hpp", "segment_tree/persistent_lazy_segment_tree.hpp"]],
  [("node copying on update", DS + "bbst/red_black_tree_base.hpp"), ("path copying", DS + "segment_tree/persistent_segment_tree.hpp")])
P("C06", "Ordered maps, sets and tries behave as the standard ordered containers",
  "Any history of insert, assign, erase (by key, index or value), merge, split, lookup, rank, k-th, bound, fold and range-apply on the splay-tree map/set, range-foldable and lazily-evaluated maps, binary tries (plain and Patricia, with global XOR) and the Fenwick-backed set gives the results of std::map / std::multiset on the same history, including empty containers and extreme keys.",
  [H], "all operation histories and keys",
  [DS + x for x in ["splay_tree_map.hpp", "splay_tree_set.hpp", "range_foldable_map.hpp", "lazy_eval_map.hpp", "binary_trie.hpp", "binary_trie_patricia.hpp"]],
  [("splay / split / merge", DS + "splay_tree_map.hpp"), ("lazy XOR and leaf counts", DS + "binary_trie_patricia.hpp")])
P("C07", "Fenwick-tree structures equal a plain array / point map",
  "After any history of point or range additions and assignments, each sum, fold, point read and lower-bound search of the one- and two-dimensional, sparse and offline Fenwick trees and of the rectangle-add / point-add rectangle-sum structures equals the value computed from the plain array or point set.",
  [H, I], "all update histories, sizes, ranges and values",
  [DS + "fenwick_tree/" + x for x in ["fenwick_tree.hpp", "fenwick_tree_prefix.hpp", "fenwick_tree_2d.hpp", "fenwick_tree_2d_sparse.hpp"]],
  [("low-bit walk", DS + "fenwick_tree/fenwick_tree.hpp"), ("coordinate compression", DS + "fenwick_tree/fenwick_tree_2d_sparse.hpp")])
P("C08", "Union-find structures track exactly the connected components",
  "After any history of merges (and rollbacks / snapshots for the undoable one, potentials for the weighted one), same, leader, size, groups, component folds, component lists, weighted differences and merge-history forests agree with components recomputed from scratch from the edges merged so far; contradicting weighted merges are reported and change nothing.",
  [H], "all merge / rollback histories and sizes",
  [DS + "union_find/" + x for x in ["union_find.hpp", "weighted_union_find.hpp", "undo_union_find.hpp", "linked_union_find.hpp"]],
  [("union by size and path compression", DS + "union_find/union_find.hpp"), ("undo stack", DS + "union_find/undo_union_find.hpp")])
P("C09", "Heaps and aggregating queues behave as their sorted / sequential models",
  "Any history of pushes, pops, erasures and queries on the binary and interval heaps, lazily-erasing and double-ended priority queues, top-k sum structures, aggregating queue/deque and the sliding-window minimum returns what a multiset or a plain deque gives for the same history, for any comparator and any (non-commutative) monoid, also after copying and through iterators.",
  [H], "all operation histories, comparators and monoids",
  [DS + x for x in ["priority_queue.hpp", "double_ended_priority_queue.hpp", "queue_aggregation.hpp", "deque_aggregation.hpp", "sliding_window_minimum.hpp", "util/priority_sum.hpp"]],
  [("interval-heap sifting", DS + "heap/interval_heap.hpp"), ("two-stack rebalancing", DS + "deque_aggregation.hpp")])

P("C10", "Static range queries, wavelet matrices and bitsets equal brute force",
  "Sparse table, +-1 RMQ, Cartesian tree, bit vector, wavelet matrices (plain, compressed), offline distinct count, range inversion / mode / XOR-mex queries, the dynamic and fixed-size bitsets and the interval set return exactly the answer computed by scanning the underlying array or set, for every array (also empty, all equal, extreme values, full bit width), every range and every threshold; bitset and interval-set answers stay right after any history of updates.",
  [H, I], "all arrays, ranges, thresholds and update histories",
  [DS + x for x in ["sparse_table.hpp", "cartesian_tree.hpp", "bit_vector.hpp", "wavelet_matrix.hpp", "compressed_wavelet_matrix.hpp", "util/dynamic_bitset.hpp", "util/static_bitset.hpp", "util/range_set.hpp"]] + ["range_query/static range_count_distinct.hpp", "range_query/static_range_inversion_number_query.hpp", "range_query/static_range_mode_query.hpp", "range_query/static_range_xored_mex_query.hpp", "algorithm/rmq_pm1.hpp", "algorithm/rmq_pm1_with_index.hpp"],
  [("bit-by-bit stable partition", DS + "wavelet_matrix.hpp"), ("sqrt-decomposition tables", "range_query/static_range_mode_query.hpp")], what="array / history")

P("C11", "Convex-envelope and (min,+) structures return true optima",
  "Convex hull trick, monotonic convex hull trick and Li Chao tree return, for every query point, the exact minimum / maximum over all lines (and segments) added so far, in any insertion order; slope trick reports the exact minimum, argmin interval and function values of the piecewise-linear function built by any history of updates; monotone minima, (min,+) convolution of convex sequences and the Lagrangian (alien) DP return the optimum found by exhaustive evaluation.",
  [H, I], "all insertion histories, slopes / intercepts, query points and convex sequences",
  ["datastructure/convex_hull_trick.hpp", "datastructure/monotonic_convex_hull_trick.hpp", "datastructure/segment_tree/li_chao_segment_tree.hpp", "datastructure/slope_trick.hpp", "algorithm/monotone_minima.hpp", "convolution/min_plus_convolution.hpp"],
  [("removal of dominated lines", "datastructure/convex_hull_trick.hpp"), ("shifted breakpoint heaps", "datastructure/slope_trick.hpp")])
P("C12", "ZDD families and permutation trees represent exactly their definition",
  "Every ZDD operation (union, intersection, difference, join, meet, quotient, remainder, onset/offset/change, maximal/minimal, subsets/supersets, counting, optimisation, enumeration) yields exactly the family of sets that applying the operation to explicit families yields, with equal families sharing one node; the permutation tree of any permutation consists exactly of its strong intervals with the right node types, ranges and children.",
  [H, I], "all families, expressions of family operations and permutations",
  ["datastructure/ZDD.hpp", "datastructure/permutation_tree.hpp"],
  [("zero-suppressed node sharing and operation cache", "datastructure/ZDD.hpp"), ("stack of cuts / joins", "datastructure/permutation_tree.hpp")], what="family / permutation")
P("C13", "Link-cut trees follow any history of links, cuts and rerootings",
  "After any history of link, cut, evert, value updates and path applications on the plain, path-foldable and lazily-applied link-cut trees, connectivity, root-relative LCA, path enumeration, path folds (ordered, non-commutative) and vertex values equal those computed on the explicit forest.",
  [H], "all link / cut / evert / update / query histories on forests",
  ["tree/link_cut_tree_base.hpp", "tree/link_cut_tree.hpp", "tree/link_cut_tree_path_foldable.hpp", "tree/link_cut_tree_path_foldable_lazy.hpp"],
  [("expose / evert on splay trees", "tree/link_cut_tree_base.hpp"), ("operator push with reversal", "tree/link_cut_tree_path_foldable_lazy.hpp")])
P("C14", "Tree queries: HLD, LCA, auxiliary trees and centroids equal path walking",
  "On every tree, heavy-light decomposition (path / subtree queries and updates, LCA, k-th ancestor, move-to, distance), every LCA structure, the auxiliary (virtual) tree of any vertex set, centroids, the centroid decomposition and the distance frequency table agree with answers computed by walking the explicit tree; the decomposition's intervals cover each path or subtree exactly once.",
  [I, H], "all trees, roots, vertex sets and query histories",
  ["tree/heavy_light_decomposition.hpp", "tree/lowest_common_ancestor.hpp", "tree/auxiliary_tree.hpp", "tree/centroid_decomposition.hpp", "tree/frequency_table_of_tree_distance.hpp", "tree/level_ancestor.hpp", "tree/euler_tour.hpp", "tree/get_path.hpp", "tree/find_centroid.hpp"],
  [("heavy-path intervals", "tree/heavy_light_decomposition.hpp"), ("recursive centroid removal", "tree/centroid_decomposition.hpp")], tech=DIFF, what="tree")
P("C15", "Contour queries, rerooting, top-tree DP and tree isomorphism are exact",
  "Contour-sum / contour-add structures, rerooting DP, the static top tree DP and both tree-isomorphism classifiers give, for every tree, every vertex, every distance interval and every update history, exactly the value obtained by walking the tree (fold over all vertices in the distance interval, DP recomputed from scratch for each root, equality of canonical forms).",
  [I, H], "all trees, update histories, distance intervals and pairs of trees",
  ["tree/" + x for x in ["rerooting.hpp", "rerooting_invertible.hpp", "static_top_tree.hpp", "contour_sum.hpp", "point_add_range_contour_sum.hpp", "point_set_range_contour_sum.hpp", "point_get_range_contour_operate.hpp", "tree_isomorphism_classification.hpp"]],
  [("prefix/suffix merging of children", "tree/rerooting.hpp"), ("heavy-path clusters", "tree/static_top_tree.hpp")], tech=DIFF, what="tree")
P("C16", "Shortest paths, CSR graphs and functional graphs equal brute force",
  "BFS, 0-1 BFS, Dijkstra, BFS on complements, DAG shortest paths, topological sort, min-max Floyd, the segment-tree graph, multi-edge removal, CSR graphs with their DFS tree and cycle detection, and functional graphs (k-th iterate for huge k, cycles, tails) return on every graph the distances, orders, adjacency lists, cycles and iterates obtained by elementary relaxation or simulation, with unreachable vertices reported as such and returned paths being real paths of that length.",
  [I], "all graphs (disconnected, multi-edges, self-loops where allowed), weights and sources",
  ["graph/" + x for x in ["dijkstra.hpp", "bfs.hpp", "bfs01.hpp", "bfs_complement.hpp", "csr_graph.hpp", "cycle_detection.hpp", "functional_graph.hpp", "segment_tree_graph.hpp", "topological_sort.hpp", "single_source_shortest_path_dag.hpp", "minmax_floyd_warshall.hpp", "remove_multiedges.hpp"]],
  [("priority-queue relaxation", "graph/dijkstra.hpp"), ("doubling over cycle structure", "graph/functional_graph.hpp")], tech=DIFF, what="graph")
P("C17", "Connectivity decompositions and Eulerian trails match the definition",
  "Low-link (bridges, articulation points), two-edge-connected components, biconnected components with the block-cut forest, SCCs of tournaments, Eulerian circuits / trails and bipartite 2-colouring agree with the definition checked by deleting each edge or vertex / by reachability, on every (multi-)graph including disconnected ones (without self-loops for biconnected components); an Eulerian trail uses every edge exactly once and is reported absent exactly when none exists.",
  [I], "all graphs and multigraphs",
  ["graph/low_link.hpp", "graph/biconnected_components.hpp", "graph/two_edge_connected_components.hpp", "graph/undirected_eulerian_graph.hpp", "graph/directed_eulerian_graph.hpp", "graph/block_cut_forest.hpp", "graph/scc_tournament.hpp", "graph/bipartite_graph_recognition.hpp"],
  [("low-link values", "graph/low_link.hpp"), ("auxiliary edge closing a trail", "graph/undirected_eulerian_graph.hpp")], tech=DIFF, what="graph")
P("C18", "Matching, min-cost flow, assignment and project selection are optimal",
  "Bipartite matching (with minimum vertex / edge cover and maximum independent set, also after adding edges to a solved instance), bipartite edge colouring, the Dulmage-Mendelsohn decomposition, the assignment problem, min-cost flow (all three initialisers, bounded / maximum / arbitrary flow, slope function, per-edge flows) and binary / k-ary project selection return feasible solutions of exactly the optimal value, as found by exhaustive search or certified by duality, for every instance including multi-edges, negative costs without negative cycles, disconnected and empty instances.",
  [I], "all instances (graphs, capacities, costs, cost functions) without negative cycles",
  ["graph/bipartite_matching.hpp", "graph/min_cost_flow.hpp", "graph/assignment_problem.hpp", "graph/edge_coloring_of_bipartite_graph.hpp", "graph/dulmage_mendelsohn_decomposition.hpp", "optimization/project_selection_problem.hpp", "optimization/k_project_selection_problem.hpp"],
  [("layered augmentation", "graph/bipartite_matching.hpp"), ("successive shortest paths with potentials", "graph/min_cost_flow.hpp"), ("reduction to minimum cut", "optimization/project_selection_problem.hpp")], tech=DIFF, what="instance")
P("C19", "Exact graph optima: chromatic number, cliques, MIS, treewidth-2, spanning trees",
  "Chromatic number, clique and triangle enumeration, maximum independent set / clique, minimum vertex cover of every simple graph, the width-2 tree decomposition (plain, nice, and the DP over it) of every multigraph, Kruskal minimum / maximum spanning forests and the Manhattan spanning tree / nearest distances equal the result of exhaustive enumeration; returned vertex sets, decompositions and trees satisfy their definition and are reported absent exactly when none exists.",
  [I], "all graphs and point sets",
  ["graph/" + x for x in ["chromatic_number.hpp", "enumerate_cliques.hpp", "enumerate_triangles.hpp", "maximum_independent_set.hpp", "maximum_clique.hpp", "minimum_vertex_cover.hpp", "tree_decomposition_tw2.hpp", "tree_decomposition_tw2_dp.hpp", "kruscal.hpp", "manhattan_mst.hpp", "manhattan_minimum_distances.hpp"]],
  [("branching on maximum degree", "graph/maximum_independent_set.hpp"), ("series-parallel reduction", "graph/tree_decomposition_tw2.hpp")], tech=DIFF, what="graph")
P("C20", "String structures agree with naive scanning of the text",
  "For every string: pattern matching (Morris-Pratt, Aho-Corasick map and array versions, tries) counts exactly the occurrences of non-empty patterns, also when rebuilt; periods, Manacher radii, runs, substring comparison / LCP, palindromic trees, suffix automata (counts, occurrences, first occurrence, longest common substring), the ordered substring set with its iterators and bounds, and rolling hashes (static, over a field, dynamic under edits) agree with direct inspection of the text; equal substrings always hash equally and polynomial hashes have exactly the defined value.",
  [I, H], "all strings, alphabets, pattern sets, substrings and edit histories",
  ["string/" + x for x in ["aho_corasick.hpp", "aho_corasick_array.hpp", "trie_array.hpp", "trie_map.hpp", "morris_pratt.hpp", "manacher.hpp", "compare_substring.hpp", "run_enumerate.hpp", "palindromic_tree.hpp", "rolling_hash.hpp", "rolling_hash_field.hpp", "dynamic_rolling_hash.hpp", "suffix_automaton.hpp", "substring_set.hpp"]],
  [("suffix-link construction with cloning", "string/suffix_automaton.hpp"), ("failure links", "string/aho_corasick.hpp"), ("divide-and-conquer run detection", "string/run_enumerate.hpp")], tech=DIFF, what="string")
P("C21", "Primality, factorisation and sieves are exact over the whole integer range",
  "For every integer in the supported range (up to 2^63, including strong pseudoprimes, prime powers and products of two large primes): Miller-Rabin (scalar and SIMD) answers exactly 'is prime'; fast factorisation returns the sorted prime factorisation; the sieves list exactly the primes up to the limit and their smallest prime factors, factorisations, divisors and totients agree with trial division; the number-theory helpers (divisors, totient, gcd-like utilities) agree with their definitions.",
  [I], "all integers and sieve limits in range",
  ["number/" + x for x in ["deterministic_miller_rabin.hpp", "deterministic_miller_rabin_simd.hpp", "fast_factorize.hpp", "sieve_of_eratosthenes.hpp", "sieve_of_eratosthenes_constexpr.hpp", "linear_sieve.hpp", "util.hpp", "montogomery.hpp"]],
  [("Montgomery multiplication", "number/montogomery.hpp"), ("witness sets per range", "number/deterministic_miller_rabin.hpp"), ("wheel-30 sieve", "number/sieve_of_eratosthenes.hpp")], tech=DIFF, what="number")
P("C22", "Arithmetic-function sums and quotient enumeration equal direct summation",
  "The Moebius function, the prefix sums of Moebius and totient functions (all quotient points and single values), square-free counting, the enumeration of the distinct quotients floor(n/i) with their index ranges, the denominators giving a prescribed quotient, and rounded k-th roots equal their definitions for every argument in range, including perfect powers and their neighbours and values near the type limits.",
  [I], "all arguments in the documented ranges",
  ["number/" + x for x in ["mobius_function.hpp", "sum_of_mobius_function.hpp", "sum_of_totient_function.hpp", "count_square_free.hpp", "enumerate_quotient.hpp", "find_denominators.hpp", "kth_root_round.hpp"]],
  [("sublinear prefix sums over quotients", "number/sum_of_totient_function.hpp"), ("block ranges of equal quotient", "number/enumerate_quotient.hpp")], tech=DIFF, what="number")
P("C23", "Modular-equation solvers return a correct solution exactly when one exists",
  "For every modulus and operand in range: extended gcd and Bezout solutions satisfy their equation (with all solutions generated), Garner reconstruction returns the least non-negative common solution or reports inconsistency and its modular variant agrees, the minimum of a linear function modulo m over a range, modular square roots (prime and composite modulus), tetration modulo m, multiplicative orders, primitive roots and discrete logarithms (baby-step and index-calculus) equal exhaustive search or satisfy the defining equation; 'no solution' is reported exactly when none exists.",
  [I], "all moduli, residues and systems of congruences in range, coprime or not",
  ["number/" + x for x in ["ext_gcd.hpp", "bezout_equation.hpp", "garner.hpp", "min_of_mod_of_linear.hpp", "mod_sqrt.hpp", "tetration_mod.hpp", "order_Z_mZ.hpp", "primitive_root.hpp", "discrete_logarithm.hpp", "fast_discrete_logarithm.hpp"]],
  [("non-coprime CRT merging", "number/garner.hpp"), ("Hensel lifting and combination", "number/mod_sqrt.hpp"), ("Euclid-like floor minimisation", "number/min_of_mod_of_linear.hpp")], tech=DIFF, what="number")
P("C24", "Modular integers and combinatorial tables compute exact residues",
  "All modular types (Barrett, static/dynamic modint, 2^61-1, Montgomery 32/64, quadratic extension) compute the exact residue for every operation, operand and valid modulus; factorial tables, their inverses, binomials, permutations, multinomials, huge factorials and binomial sums, and the tables of inverses and powers equal their definitions for every request order and size.",
  [I, H], "all moduli, operands and request histories",
  ["number/barrett_reduction.hpp", "number/modint.hpp", "number/modint_2^61m1.hpp", "number/montogomery.hpp", "math/modint_extension.hpp", "math/factorial.hpp", "math/factorial_embeded.hpp", "math/factorial_large.hpp", "math/binomial_coefficient_sum.hpp", "math/inv_mods.hpp", "math/pow_mods.hpp", "math/util.hpp"],
  [("lazily growing tables", "math/factorial.hpp"), ("block products of factorials", "math/factorial_large.hpp"), ("high-half reduction", "number/barrett_reduction.hpp")], tech=DIFF, what="number")
P("C25", "Big integers, factoradic numbers, rationals and the Stern-Brocot tree are exact",
  "Unsigned and signed big integers agree with schoolbook decimal arithmetic for every operand pair (construction from strings with leading zeros and from every primitive type, conversion back, comparison, + - * / %, digit shifts, increments, aliasing, stream round trip, thousands of digits); factoradic numbers are arithmetic modulo n! and their permutation conversion is the lexicographic ranking; Rational is exact field arithmetic with exact total order, floor/ceil, best approximations, Farey and Stern-Brocot tables; sbt_node navigation (paths, ranges, lca, distances, moves, orders, auxiliary trees) agrees with explicit L/R strings.",
  [I, H], "all operands and operation histories",
  ["math/unsigned_bigint.hpp", "math/bigint.hpp", "number/factorial_number.hpp", "number/rational.hpp", "number/stern_brocot_tree.hpp"],
  [("naive / Karatsuba / FFT products and Newton division", "math/unsigned_bigint.hpp"), ("continued-fraction comparison", "number/rational.hpp"), ("run-length encoded paths", "number/stern_brocot_tree.hpp")], tech=MODEL, what="number")
P("C26", "Linear algebra over fields, rings and GF(2) is exact",
  "For every matrix (any shape, rank-deficient, over small and large prime fields, GF(2), composite moduli for det_arbitrary_mod, and user-supplied semirings for ArrayMatrix): sums, products (including the Strassen sizes), powers, inverses (present exactly when non-singular), determinants and ranks are exact; Gaussian elimination reports solvability exactly and returns a solution plus a basis of the whole kernel; the characteristic polynomial, Hessenberg form, circulant products, spanning-tree counts, hafnians, XOR bases and GF(2) solution spaces (sum, intersection, normal form) equal their definitions.",
  [I], "all matrices, right-hand sides and vector sets",
  ["linear_algebra/" + x for x in ["array_matrix.hpp", "matrix.hpp", "gaussian_elimination.hpp", "gaussian_elimination_f2.hpp", "matrix_f2.hpp", "characteristic_polynomial.hpp", "hessenberg_reduction.hpp", "circulant_matrix.hpp", "count_spanning_trees.hpp", "hafnian.hpp", "xor_base.hpp"]],
  [("pivoting and back substitution", "linear_algebra/gaussian_elimination.hpp"), ("Strassen recursion with odd fringes", "linear_algebra/matrix.hpp"), ("zeta-transformed recursion", "linear_algebra/hafnian.hpp")], tech=DIFF, what="linear_algebra")
P("C27", "Convolutions and transforms equal their defining sums",
  "Divisor, multiple, subset, superset, Walsh-Hadamard, Kronecker and chirp-z transforms equal their defining sums and their inverses undo them (also with user-supplied addition); and / or / xor / gcd / lcm / Dirichlet / subset / min-plus convolutions, products modulo any modulus, over 128-bit integers, modulo 2^64, beyond the modulus's roots of unity, truncated and circular multivariate products and multiplicative products modulo 2^n equal the naive double sum for every input length and value; relaxed and semi-relaxed convolutions return the exact k-th coefficient after k+1 appends, also when later inputs depend on earlier outputs.",
  [I, H], "all sequences, lengths, moduli, dimensions and append histories",
  ["transform/" + x for x in ["divisor.hpp", "multiple.hpp", "subset.hpp", "supset.hpp", "walsh_hadamard.hpp", "kronecker.hpp", "kronecker_power.hpp", "chirp_z_transform.hpp"]] + ["convolution/" + x for x in ["and_convolution.hpp", "or_convolution.hpp", "xor_convolution.hpp", "gcd_convolution.hpp", "lcm_convolution.hpp", "dirichlet_convolution.hpp", "subset_convolution.hpp", "array_subset_convolution.hpp", "min_plus_convolution.hpp", "polynomial_eval.hpp", "polynomial_eval_multipoint_eval.hpp", "arbitrary_mod_convolution.hpp", "convolution.hpp", "convolution_2_64.hpp", "convolution_large.hpp", "convolution_naive.hpp", "multi_variate_convolution.hpp", "multi_variate_convolution_circular.hpp", "multiplicative_convolution_mod_2^n.hpp", "relaxed_convolution.hpp", "relaxed_convolution_ntt.hpp", "semi_relaxed_convolution.hpp", "semi_relaxed_convolution_ntt.hpp"]],
  [("Garner recombination of several NTT moduli", "convolution/convolution_2_64.hpp"), ("ranked subset transform", "convolution/subset_convolution.hpp"), ("online doubling blocks", "convolution/relaxed_convolution_ntt.hpp"), ("generator decomposition of the units modulo 2^k", "convolution/multiplicative_convolution_mod_2^n.hpp")], tech=DIFF, what="convolution")
P("C28", "Set power series and naive power-series types are exact",
  "Set power series (any value type, ranked or array-backed): sum, subset product, inverse, division, exp, log, pow, polynomial composition and transforms equal the subset-sum definition for every coefficient vector; FPSNaive and ArrayFPSNaive agree with schoolbook truncated polynomial arithmetic for every operation (arithmetic, shifts, division with remainder, derivative, integral, inverse, exp, log, pow, sqrt, safe_sqrt), for all lengths including empty and all-zero series and leading zeros.",
  [I], "all coefficient vectors, lengths and exponents",
  ["math/set_power_series.hpp", "math/array_set_power_series.hpp", "polynomial/fps_naive.hpp", "polynomial/array_fps_naive.hpp"],
  [("rank-by-rank ring operations", "math/set_power_series.hpp"), ("leading-zero normalisation in sqrt/pow", "polynomial/fps_naive.hpp")], tech=DIFF, what="series")
P("C29", "Formal power series operations satisfy their defining identities",
  "For FPS, FormalPowerSeries, the relaxed (online) series and RationalFPS, over every coefficient vector and precision: ring operations, scalar operations, shifts, Euclidean division (f = q*g + r, deg r < deg g), derivative and integral, inverse (f*inv = 1 mod x^n), exp, log, pow (huge exponents and leading zeros), sqrt (present exactly when it exists), evaluation, products of many factors and sums of fractions equal the schoolbook result modulo x^n; sparse, naive and Newton branches agree across the size thresholds.",
  [I, H], "all coefficient vectors, precisions, exponents and append histories",
  ["polynomial/fps.hpp", "polynomial/formal_power_series.hpp", "polynomial/formal_power_series_relaxed.hpp", "polynomial/rational_fps.hpp"],
  [("Newton doubling", "polynomial/fps.hpp"), ("sparse-input branches", "polynomial/formal_power_series.hpp"), ("online coefficient production", "polynomial/formal_power_series_relaxed.hpp")], tech=DIFF, what="series")
P("C30", "Polynomial algorithms equal their mathematical definitions",
  "Multipoint evaluation, interpolation, Lagrange interpolation, Taylor shift, shift of sampling points, Newton-basis conversion, polynomial gcd and modular inverse (both half-gcd and small sizes), Bostan-Mori and linear-recurrence terms, Berlekamp-Massey (shortest recurrence reproducing the sequence), composition, compositional inverse, composition with exp, products of scaled copies, rook polynomials of Ferrers and skyline boards, subset-sum counts and block-sparse polynomials equal direct evaluation for every input.",
  [I], "all polynomials, points, sequences, boards and item lists",
  ["polynomial/" + x for x in ["berlekamp_massey.hpp", "bostan_mori.hpp", "compose.hpp", "compose_exp.hpp", "compose_inv.hpp", "convert_to_newton_basis.hpp", "lagrange_interpolation.hpp", "multi_point_eval.hpp", "polynomial_gcd.hpp", "polynomial_interpolation.hpp", "polynomial_taylor_shift.hpp", "prod_f(r^k_x).hpp", "rook_polynomial.hpp", "shift_of_sampling_points.hpp", "subset_sum.hpp", "vec_sparse_fps.hpp"]],
  [("half-gcd recursion", "polynomial/polynomial_gcd.hpp"), ("product tree", "polynomial/multi_point_eval.hpp"), ("baby-step giant-step composition", "polynomial/compose.hpp")], tech=DIFF, what="polynomial")
P("C31", "Combinatorial sequences and special-modulus binomials are exact",
  "Bell, Bernoulli, Eulerian, Montmort, partition, Stirling (both kinds, rows, columns and modulo a small prime), power and power-sum sequences, binomial coefficients (tables, small prime modulus, enumeration, offline small-r), sums i^d r^i (finite and infinite, also with i weights) and products of pairwise differences equal their recurrences / definitions for every index, length and modulus in their domain.",
  [I], "all indices, lengths, moduli and value lists",
  ["sequence/" + x for x in ["bell_number.hpp", "bernoulli_number.hpp", "binomial_coefficient.hpp", "binomial_coefficient_small_prime_mod.hpp", "binomial_coefficient_small_r_offline.hpp", "binomial_coefficitnt_enumeration.hpp", "eulerian_number.hpp", "montmort_number.hpp", "partition_number.hpp", "powers.hpp", "stirling_number1.hpp", "stirling_number1_small_prime_mod.hpp", "stirling_number2.hpp", "stirling_number2_small_prime_mod.hpp", "sum_of_powers.hpp"]] + ["math/sum_i^d_r^i.hpp", "math/product_of_differences.hpp"],
  [("Lucas-type digit decomposition", "sequence/stirling_number1_small_prime_mod.hpp"), ("doubling of rising factorials", "sequence/stirling_number1.hpp"), ("finite-difference closed form", "math/sum_i^d_r^i.hpp")], tech=DIFF, what="sequence")
P("C32", "Integer geometry answers are exact",
  "For every set of integer points (duplicates, collinear, empty): predicates and intersections of lines, rays, segments, polygons and circles, orientation, containment, areas, convex hulls and their point-inclusion queries, convex diameter, closest and farthest pairs, argument sort and the number of lattice points in a polygon equal exact integer reference computations.",
  [I], "all integer point sets, lines, polygons and queries",
  ["integral_geom/" + x for x in ["closest_pair.hpp", "convex_hull.hpp", "convex_hull_inclusion.hpp", "count_lattice_point.hpp", "farthest_pair.hpp", "geometry.hpp", "point.hpp", "sort_points_by_argument.hpp"]],
  [("rotating calipers", "integral_geom/geometry.hpp"), ("divide and conquer", "integral_geom/closest_pair.hpp"), ("half-plane argument order", "integral_geom/sort_points_by_argument.hpp")], tech=DIFF, what="integral_geom")
P("C33", "Floating-point plane and space geometry agrees with exact configurations",
  "On every integer configuration (where truth is decidable exactly) the floating-point plane and 3-D geometry returns the right predicates and, within tolerance, the right distances, projections, cross points, tangents, triangle centres, hulls, cuts, diameters, areas, circle relations and intersections; axis-parallel segment intersection counting equals pairwise testing.",
  [I], "all point, line, ray, segment, plane, polygon and circle configurations",
  ["geom/" + x for x in ["closest_pair.hpp", "convex_hull.hpp", "geometry.hpp", "geometry3d.hpp", "segment_intersections.hpp"]],
  [("epsilon comparisons", "geom/geometry.hpp"), ("closest pair of two lines", "geom/geometry3d.hpp"), ("sweep line with a Fenwick tree", "geom/segment_intersections.hpp")], tech=DIFF, what="geom")
P("C34", "Offline algorithms, satisfiability and small DPs return exact answers",
  "Area of a union of rectangles, maximal/maximum rectangles and squares, inversion numbers, Mo's ordering (every callback matches the current range, every query answered), offline dynamic connectivity and component sums over add/delete/query histories, Horn and 2-SAT (satisfiable exactly when a model exists; the answer is a model), the offline dynamic convex hull (hulls and linear optima after any insert/erase history), longest monotone subsequences, number of distinct subsequences and grid connectivity transitions equal brute force for every input.",
  [I, H], "all point sets, grids, sequences, clause sets and operation histories",
  ["algorithm/" + x for x in ["area_of_union_of_rectangles.hpp", "dynamic_convex_hull_offline.hpp", "horn_sat.hpp", "inversion_number.hpp", "maximum_rectangle.hpp", "maximum_square.hpp", "mo.hpp", "offline_dynamic_connectivity.hpp", "offline_dynamic_connectivity_component_sum.hpp", "two_sat.hpp"]] + ["dp/grid_connectivity.hpp", "dp/longest_increasing_subsequence.hpp", "dp/number_of_subsequences.hpp"],
  [("bridge search in a segment tree of hulls", "algorithm/dynamic_convex_hull_offline.hpp"), ("unit propagation", "algorithm/horn_sat.hpp"), ("time segment tree with undo", "algorithm/offline_dynamic_connectivity.hpp")], tech=MODEL, what="algorithm")
P("C35", "Nimbers form their field and affine maps compose exactly",
  "Nimber arithmetic of every size (1 to 64 bits) equals nim multiplication (mex definition for small values, Fermat-power rules for all), with field laws, inverses, powers, comparisons, hashing and stream round trip; Affine and AffineClamp evaluate and compose as functions (compose(f, g)(x) = f(g(x)) for every x), with their arithmetic, order, conversions and streams.",
  [I], "all values, functions and arguments",
  ["algebra/field/nimber.hpp", "algebra/monoid/affine.hpp", "algebra/monoid/affine_clamp.hpp"],
  [("byte-table product", "algebra/field/nimber.hpp"), ("clamp of a composition", "algebra/monoid/affine_clamp.hpp")], tech=DIFF, what="algebra")
P("C36", "Utility containers, iterators and counting helpers honour their contracts",
  "Bit utilities for every integer width, sorted-container queries, string/number conversions, coordinate compression (every way of building it), cumulative sums, default_vector, neighbour cells, tuple hashes, product ranges, object pools, pair/tuple/vector operators (also aliased), permutations and their minimal perfect hash, 32-bit pointers, rotations and transposes, run-length encoding histories, ternary and binary searches, step sums and views, subset iteration, sum counts in a wider result type, update proxies, variant matching and Zobrist hashing equal their definitions for every input and call history.",
  [I, H], "all values, containers and operation histories",
  ["util/" + x for x in ["bit_utils.hpp", "container_utils.hpp", "coordinate_compressor.hpp", "cumulative_sum.hpp", "cumulative_sum_2d.hpp", "default_operator.hpp", "default_vector.hpp", "grid_utils.hpp", "hashes.hpp", "iter_util.hpp", "object_pool.hpp", "pair_ops.hpp", "permutation.hpp", "pointer_32bit.hpp", "rot90.hpp", "run_length_encoder.hpp", "search.hpp", "step_sum.hpp", "step_view.hpp", "subset_iterator.hpp", "sum_count.hpp", "transpose.hpp", "tuple_ops.hpp", "update_proxy_object.hpp", "variant_utils.hpp", "vector_ops.hpp", "zobrist_hash.hpp"]],
  [("Gosper's next combination", "util/subset_iterator.hpp"), ("run splitting", "util/run_length_encoder.hpp"), ("lazily grown random table", "util/zobrist_hash.hpp")], tech=MODEL, what="util")
P("C37", "Input/output round-trips, expression parsing and the program template are right",
  "Every value written by OutputStream / print (128-bit integers including the extremes, pairs, tuples, nested containers, separators) is the expected text and is read back unchanged by InputStream / read; the expression parser returns the value of every well-formed arithmetic expression, stops at its end and raises ParseError on malformed text; floor/ceil division, the REP/RREP loop macros, sorted_indices, comparators and ndvec of the template, the operator and container type traits, and the debug drawings of trees and automata are right.",
  [I], "all values, texts, ranges and trees",
  ["io/input_stream.hpp", "io/output_stream.hpp", "icpc/parsing.hpp", "template.hpp", "type_traits/type_traits.hpp", "type_traits/operator.hpp", "debug/tree.hpp", "debug/suffix_automaton.hpp"],
  [("recursive descent", "icpc/parsing.hpp"), ("128-bit decimal conversion", "io/output_stream.hpp"), ("reverse loop start", "template.hpp")], tech=DIFF, what="io")
P("C38", "Costs grow no faster than the documented asymptotic bounds",
  "For every input family tried (random, sorted, all equal, periodic, path/star/caterpillar/binary trees, sparse/dense/layered graphs, every merge order), the work done - executed basic blocks plus bytes copied or allocated - between a small and a large size grows no faster than the bound the structure is used for: O(log n) amortised per operation for segment trees (lazy, dynamic, persistent, beats), Fenwick trees, treaps, red-black and splay trees, sequences, maps, link-cut trees, heaps, queues and union-finds of every kind (O(log n) or better), O(log n) or O(log^2 n) for heavy-light paths; O(1) for sparse tables, RMQ and LCA queries; O(n) or O(n log n) for rerooting, centroid decomposition, graph traversals, shortest paths, matchings (Hopcroft-Karp), string algorithms and automata, convex hulls, closest and farthest pairs, sieves and transforms; sub-quadratic convolutions, power-series operations and long-integer arithmetic; O(n sqrt q) end-point moves for Mo's order; sublinear counting and summing of square-free numbers, Moebius and totient values; cubic elimination.",
  [I, H], "all input sizes, shapes and operation histories",
  ["datastructure/segment_tree/segment_tree.hpp", "datastructure/union_find/union_find.hpp", "datastructure/bbst/implicit_treap.hpp", "tree/heavy_light_decomposition.hpp", "tree/link_cut_tree_base.hpp", "graph/dijkstra.hpp", "graph/bipartite_matching.hpp", "string/suffix_automaton.hpp", "string/palindromic_tree.hpp", "polynomial/fps.hpp", "convolution/relaxed_convolution.hpp", "number/sum_of_totient_function.hpp", "integral_geom/closest_pair.hpp", "algorithm/mo.hpp"],
  [("union by size and path compression", "datastructure/union_find/union_find.hpp"), ("choice of the heavy child", "tree/heavy_light_decomposition.hpp"), ("block order of the queries", "algorithm/mo.hpp"), ("stale heap entries are skipped", "graph/dijkstra.hpp")], tech="property-based testing: generated workloads at two sizes, metered cost (sanitizer-coverage block counts + bytes moved) against the growth of the documented bound", what="cost")
P("C39", "Every header compiles alone and any selection compiles together",
  "Every header of the library compiles on its own in a translation unit (it includes what it uses), may be included any number of times, and any selection of headers in any order compiles together in one translation unit (no clashing include guards, macros or definitions).",
  [I], "all selections and orders of headers", [],
  [("include guards and includes", "template.hpp")], tech="property-based testing: random selections and orders of headers compiled into one translation unit, compiler as oracle, failing selections shrunk", what="header")
P("C40", "Objects are independent values",
  "Every data structure, solver and automaton of the library that can be copied, moved or assigned is a value: a copy (constructed, assigned, stored in a vector that grows) equals the object it was made from and stays what it is whatever is later done to the original, and conversely; a moved-to or swapped object has exactly what the source had; destroying, creating or using one object never changes what another contains; asking never changes what later operations and questions give; and an operand or argument that is the object itself or one of its elements (x op= x, x *= x[i], pushing the top) counts with the value it had before the call. "
  "Types that are by design handles into a shared static node pool (node pointers/indices of the balanced trees, dynamic arrays, sparse segment trees, dynamic rolling hash, link-cut trees) are excluded from the copying part.",
  [H, I], "all interleavings of operations, copies, moves, assignments, swaps and destructions of several objects",
  ["datastructure/segment_tree/segment_tree.hpp", "datastructure/segment_tree/lazy_segment_tree.hpp", "datastructure/fenwick_tree/fenwick_tree.hpp", "datastructure/union_find/union_find.hpp", "datastructure/binary_trie.hpp", "datastructure/binary_trie_patricia.hpp", "datastructure/priority_queue.hpp", "datastructure/double_ended_priority_queue.hpp", "datastructure/deque_aggregation.hpp", "datastructure/bit_vector.hpp", "tree/contour_sum.hpp", "tree/heavy_light_decomposition.hpp", "graph/csr_graph.hpp", "string/suffix_automaton.hpp", "string/aho_corasick.hpp", "convolution/relaxed_convolution.hpp", "algorithm/offline_dynamic_connectivity.hpp"],
  [("nodes owned by the object", "datastructure/binary_trie.hpp"), ("indices, not pointers, into the object's own arrays", "tree/contour_sum.hpp"), ("pending edges kept by answer()", "algorithm/offline_dynamic_connectivity.hpp")])
