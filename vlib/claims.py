"""per property: contract modules, claimed level, and what stays outside the contracts"""
CLAIMS = {
 "C01": dict(modules=["gf2", "forest", "bsd", "mainloop", "tbb", "lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("mainloop", ""), ("bsd", ""), ("tbb", ""), ("treeloop", ""), ("trees", "")], level="other", technique='contracts on the extracted main loops of mcb_sva_signed, mcb_sva_fvs_trees and their TBB variants and the functions they call, all obligations discharged by Verus; the other variants by a bounded differential run',
   note="proved for every simple graph with positive weights: mcb_sva_signed, mcb_sva_fvs_trees and their TBB variants (any schedule) emit m - n + c edge lists, each a simple cycle of the caller's graph, linearly independent over GF(2). Under contract: the bidirectional signed shortest-path search; lexicographic dijkstra, shortest-path trees with their parity labels and candidate cycles, greedy_fvs, the builder of the collection, the search of the lightest odd candidate; the GF(2) vectors, the forest index and the main loops. Trusted: the extraction (ded/), the model of boost::adjacency_list, shared_ptr and of the standard containers, exact real weights; partial correctness (termination is not proved).",
   outside='the isometric-circuit variants (sequential, TBB) and the MPI variants: bounded'),
 "C02": dict(modules=["gf2", "forest", "bsd", "mainloop", "tbb", "lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("mainloop", ""), ("bsd", ""), ("tbb", ""), ("treeloop", ""), ("trees", "")], level="other", technique="contracts on the extracted main loops of mcb_sva_signed, mcb_sva_fvs_trees and their TBB variants and the functions they call, all obligations discharged by Verus (de Pina's theorem included); the other variants by a bounded differential run",
   note='proved for every simple graph with positive weights: the value returned by mcb_sva_signed, by mcb_sva_fvs_trees and by their TBB variants (any schedule) is the total weight of the emitted cycles and no cycle basis weighs less. For the trees: a minimum odd cycle meets the feedback vertex set, and the tree of that vertex contains an odd candidate no heavier (cands.rs, treemcb.rs). Under contract as in C01. Trusted: the extraction (ded/), the model of boost::adjacency_list, shared_ptr and of the standard containers, exact real weights; partial correctness (termination is not proved).',
   outside='the isometric-circuit variants (sequential, TBB) and the MPI variants: bounded'),
 "C03": dict(modules=["gf2", "forest", "bsd", "tbb", "bfs", "spanner", "dijkstra", "closetbb", "approxtbb", "lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("bsd", ""), ("tbb", ""), ("closetbb", ""), ("approxtbb", "", "run_.*|approx_.*"), ("treeloop", "", "look_tbb|cyc_of|fvs_build|cc_.*"), ("trees", "", "mcb_fvs_tbb|mcb_sva_fvs_trees_tbb")], level="other", technique='contracts on the extracted tasks, joins and main loops of mcb_sva_signed_tbb, mcb_sva_fvs_trees_tbb and of the parallel closing-cycle builder, all obligations discharged by Verus; the isometric variants by runs under a shuffled and a threaded scheduler',
   note='proved for every simple graph with positive weights, every way of splitting the ranges and every order of the joins and of the tasks: mcb_sva_signed_tbb and mcb_sva_fvs_trees_tbb emit a basis of simple cycles whose total weight it returns and no basis weighs less, hence the value of the sequential variants; the parallel closing-cycle builder and the approximate entry points satisfy the contracts of their sequential counterparts. Obligations per parallel construct: the task is verified on an arbitrary piece of its range, the join on arbitrary neighbouring results, the identity as a result of the empty piece, and a task writes only its own piece (a row of its index or elements it appends). Trusted: the contracts of tbb::parallel_for, tbb::parallel_reduce and tbb::concurrent_vector stated so (ded/trp.py), the extraction, the model of boost::adjacency_list and of the standard containers, exact real weights (a sum does not depend on its order); partial correctness.',
   outside='the TBB variant built on isometric circuits: bounded runs (scheduler that splits, reorders and joins at random; ThreadSanitizer); rounding of non-integral doubles'),
 "C17": dict(modules=["gf2"], level="proof", technique='contracts on the extracted SpVecGF2 methods, all obligations discharged by Verus; plus a bounded differential run',
   note='every constructor, assignment, + , +=, * of SpVecGF2<unsigned long> proved against the set/parity specification for all inputs. Trusted: the extraction (ded/), std::vector/std::set semantics as Seq/Set, std::set iterates in increasing order; size_t counters do not reach 2^64.',
   outside='operator<< (text output) and the serialization hook; instantiations other than unsigned long'),
 "C18": dict(modules=["fp", "spvecfp"], level="proof", technique='contracts on the extracted fp/primes/SpVecFP functions, all obligations discharged by Verus; plus a bounded differential run',
   note="ext_gcd (result, Bezout identity, no overflow), get_mult_inverse (value and exactly when it throws), is_prime and every SpVecFP operation proved for all 64-bit inputs, p*p <= 2^63-1 for products. Trusted: the extraction (ded/), container semantics, an axiom on libm's sqrt rounding.",
   outside='operator<<, serialization; instantiations other than long (other widths and multiprecision are run in the bounded part)'),
 "C16": dict(modules=["forest"], level="proof", technique='contracts on the extracted spanning_forest and ForestIndex functions, all obligations discharged by Verus; plus a bounded differential run',
   note='spanning_forest (spanning forest + number of components) and every ForestIndex function proved for all well-formed adjacency lists (loops and parallel edges included). Trusted: the extraction (ded/), the model of boost::adjacency_list and of the standard containers; partial correctness (termination is not proved).',
   outside='instantiations for graphs other than adjacency_list<vecS, vecS, undirectedS>'),
 "C13": dict(modules=["fvs"], level="proof", technique='contract on the extracted greedy_fvs, all obligations discharged by Verus; plus a bounded differential run',
   note='greedy_fvs proved for all well-formed adjacency lists without self-loops (parallel edges included): emitted vertices are distinct vertices, every cycle contains one, nothing is emitted for an acyclic graph. Trusted: the extraction (ded/), the model of boost::adjacency_list, of the pairing heap (top() is some element, whatever the priorities) and of the standard containers; partial correctness (termination is not proved).',
   outside='the order in which vertices are emitted (greedy choice)'),
 "C15": dict(modules=["bfs", "spanner"], level="proof", technique='contracts on the extracted construct_spanner, the constructor and is_bfs_reachable, all obligations discharged by Verus; plus a bounded differential run',
   note='is_bfs_reachable (decides hop distance exactly, every limit) and construct_spanner (copied weights, partition, stretch path of at most 2k-1 edges none heavier, girth > 2k) proved for every graph without self-loops, every weighting and every k >= 1. Trusted: the extraction (ded/), the model of boost::adjacency_list, std::sort (a sorted permutation) and the standard containers; weights as reals (only compared and copied here); partial correctness (termination is not proved).',
   outside='instantiations for graphs other than adjacency_list<vecS, vecS, undirectedS>'),
 "C10": dict(modules=["util"], level="other", technique='contracts on the extracted has_loops, has_multiple_edges and has_non_positive_weights, all obligations discharged by Verus; read_dimacs_from_file by a bounded differential run',
   note='the three validators proved for all graphs and weightings. Trusted: the extraction (ded/), the model of boost::adjacency_list and of the standard containers. The parser is checked on generated texts only.',
   outside='read_dimacs_from_file (C library input functions): bounded'),
 "C05": dict(modules=["gf2", "forest", "bsd", "mainloop", "bfs", "spanner", "dijkstra", "closing", "approx", "tbb", "closetbb", "approxtbb", "lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("closing", ""), ("approx", "", "run_.*|approx_.*"), ("closetbb", ""), ("approxtbb", "", "run_.*|approx_.*")], level="other", technique='contracts on the extracted approximation entry points, construct_spanner, dijkstra, the closing-cycle builder and the exact algorithms they call, all obligations discharged by Verus; plus a bounded differential run',
   note="proved for every loop-free graph with positive weights and every k >= 1: the three sequential and the three TBB entry points emit a basis of the cycle space of the caller's graph (simple cycles in its own descriptors, independent, m - n + c of them) and return their total weight. The exact algorithms they call are cited by contracts proved in this run (mainloop, tbb, trees), except mcb_sva_iso_trees_tbb, whose contract is assumed. Trusted: the extraction (ded/), the model of boost::adjacency_list and of the standard containers, exact real weights; partial correctness.",
   outside='mcb_sva_iso_trees_tbb, called by approx_mcb_sva_iso_trees_tbb: bounded'),
 "C06": dict(modules=["gf2", "forest", "bsd", "mainloop", "bfs", "spanner", "dijkstra", "closing", "approx", "tbb", "closetbb", "approxtbb", "lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("approx", "", "run_.*|approx_.*"), ("approxtbb", "", "run_.*|approx_.*")], level="other", technique='contracts on the extracted approximation entry points and what they call, with the approximation theorem as lemmas over those contracts (factor.rs: de Pina witnesses lifted from the spanner, exchange against an arbitrary basis), all obligations discharged by Verus; plus a bounded differential run',
   note='proved for every loop-free graph with positive weights and every k: k = 0 is rejected with an exception and nothing is emitted; otherwise the returned total is at most (2k - 1) times the total of every basis of the cycle space (hence of a minimum one), and for k = 1 it is that of a minimum basis. The exact algorithms they call are cited by contracts proved in this run (mainloop, tbb, trees), except mcb_sva_iso_trees_tbb, whose contract is assumed. Trusted: the extraction (ded/), the model of boost::adjacency_list and of the standard containers, exact real weights; partial correctness.',
   outside='mcb_sva_iso_trees_tbb, called by approx_mcb_sva_iso_trees_tbb: bounded'),
 "C07": dict(modules=["gf2", "forest", "fvs", "util", "bfs", "spanner", "dijkstra", "closing", "approx", "bsd", "mainloop", "tbb", "closetbb", "approxtbb", "lexd", "sptree", "treeloop", "trees"], owned="safety", level="other", technique='the extraction turns every operation with undefined behaviour (subscripts, iterators, empty containers, null pointers, signed overflow, vertices that do not exist, misuse of heaps and of sort comparisons) into an obligation, discharged by Verus for every function under contract; the rest by sanitizer runs',
   note='for every function under contract (listed in the evidence) no operation of that list is undefined on any input allowed by its contract. Memory lifetime, leaks, uninitialised scalars inside Boost and the functions not under contract: bounded runs under AddressSanitizer, LeakSanitizer and UBSan. Trusted: the extraction (ded/), the model of boost::adjacency_list and of the standard containers.',
   outside='object lifetime, leaks and the functions not under contract: bounded sanitizer runs'),
 "C12": dict(modules=["lexd", "sptree"], owned=[("lexd", ""), ("sptree", "", "t_new|t_init|t_first")], level="other", technique='contracts on the extracted lex_dijkstra, the SPTree constructor, initialize and compute_first_in_path, all obligations discharged by Verus; plus a bounded differential run',
   note='proved for every simple graph with positive weights and every source: a vertex has a node iff it is reachable, the reported weight is the exact distance, the predecessor edges form a tree rooted at the source whose root paths have those weights, every node is linked under the node of its predecessor, and first_in_path is the child of the root on that path. Across sources: any path of one tree is the reverse of the path the other tree has chosen, and every sub-path of a chosen path is the chosen path between its ends (lemmas l_c12_rev and l_c12_sub over the postcondition of the constructor). Trusted: the extraction (ded/), the model of boost::adjacency_list, of shared_ptr, of the pairing heap and of the standard containers, exact real weights; partial correctness.',
   outside=""),
 "C14": dict(modules=["lexd", "sptree", "fvs", "treeloop", "trees"], owned=[("sptree", "", "t_cand|t_first"), ("treeloop", "", "fvs_build"), ("fvs", "")], level="other", technique='contracts on the extracted create_candidate_cycles, greedy_fvs and FVSCyclesBuilder, all obligations discharged by Verus; the Horton and isometric collections by a bounded differential run',
   note='proved for every simple graph with positive weights: create_candidate_cycles lists exactly the non-tree edges whose ends hang under different children of the root, with the true weight of the cycle; the roots of the FVS collection meet every cycle, and the collection contains a minimum cycle basis (the exact algorithm picks one out of it). Trusted: the extraction (ded/), the model of boost::adjacency_list, of shared_ptr and of the standard containers, exact real weights; partial correctness.',
   outside='the Horton and isometric collections: bounded'),
}
