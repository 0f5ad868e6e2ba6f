#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the texts can be wrapped)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
SB = "spgemm-blocks/"
prop("C01", "Masked product is exactly the mask-restricted semiring product",
 """For valid CSR inputs A, B and mask M of compatible shapes with duplicate-free, column-sorted rows, every masked multiplication
 algorithm of the library (MSA, hash, MCA, heap, inner product, in one-phase or two-phase form) returns a matrix that has an entry at (i,j)
 if and only if M has an entry at (i,j) and some k has entries A(i,k) and B(k,j), and its value is the sum over all such k of
 mult(A(i,k),B(k,j)), each product used exactly once.  An entry whose value happens to be zero is kept, mask values are ignored, and MSA and hash
 need no sorted rows.""",
 ["inputs", "configurations"], "all shapes, sparsity patterns, values, index/value types, algorithms, phases and thread counts",
 """The tests only exercise accumulators in isolation; no test runs a masked multiplication, so no pattern (empty rows, rows at hash-capacity
 or heap-inspection boundaries, masked-out products) is ever compared with the mathematical product.""",
 [SB+"masked-spgemm.h", SB+"masked-spgemm-inner.h", SB+"inner/MaskedInnerSpGEMM.h", SB+"msa/MSAAlgorithm.h", SB+"hash/MaskedHashAlgorithm.h",
  SB+"mca/MCAAlgorithm.h", SB+"heap/MaskedHeapAlgorithm.h", SB+"heap/MaskedHeapAlgorithmInspect.h", SB+"common.h", SB+"masked-spgemm-poly.h"],
 [("row kernels: symbolicRow / numericRow of each accumulator", SB+"*/M*Algorithm*.h"), ("per-thread row ranges, local output, offset and copy", SB+"masked-spgemm.h")],
 ["CSR returned in C (rowptr, colids, values, nnz, rows, cols)"])
prop("C02", "Complement-masked product is exactly the product outside the mask",
 """For valid CSR inputs with duplicate-free, column-sorted rows, every complement-mask algorithm (MSA, hash, heap; one- or two-phase; sorted or
 unsorted output) returns an entry at (i,j) if and only if M has no entry at (i,j) and some k has entries A(i,k) and B(k,j), with value the sum of
 mult(A(i,k),B(k,j)) over those k.  An empty mask (or an empty mask row) therefore yields the full product of that row.""",
 ["inputs", "configurations"], "all shapes, patterns, values, algorithms, phases and thread counts, including empty mask rows and full mask rows",
 "No test runs a complemented multiplication; the complement paths (not-allowed marks, erase, key tracking) are entirely unsampled.",
 [SB+"masked-spgemm.h", SB+"msa/MSAAlgorithm.h", SB+"msa/MSAAlgorithm_old.h", SB+"hash/MaskedHashAlgorithm.h", SB+"heap/MaskedHeapAlgorithm.h"],
 [("complemented row kernels", SB+"*/M*Algorithm*.h"), ("hash erase with backward shift", SB+"hash/HashAccumulator.h")],
 ["CSR returned in C"])
prop("C03", "Parallel masked multiplication is correct under every thread schedule",
 """However the threads of a parallel masked multiplication are interleaved between their synchronisation points, and for any number of threads
 (more threads than rows included), the call terminates with the same result as the single-threaded run; no thread's rows are lost, duplicated,
 overwritten or read before they are complete, and input matrices are never freed while another thread still reads them.""",
 ["schedules", "configurations"], "all interleavings of the worker threads between barriers, all thread counts, one- and two-phase drivers, output aliased to an input or not",
 "Tests never run the parallel drivers, and an ordinary run samples one lucky schedule; a missing barrier can stay invisible for years.",
 [SB+"masked-spgemm.h", SB+"masked-spgemm-inner.h", SB+"inner/MaskedInnerSpGEMM.h", SB+"common.h", SB+"scan.h"],
 [("barrier / master initC / barrier", SB+"masked-spgemm.h"), ("per-thread offsets from threadsNvals", SB+"common.h setRowOffsets")],
 ["OpenMP runtime entry points (harness replaces the runtime by a controlled scheduler)", "CSR returned in C"])
prop("C04", "Results are well-formed, replace the old output, and inputs stay intact",
 """A masked multiplication leaves its output a valid CSR matrix: rows/cols are those of the product, row pointers start at 0, never decrease and end at
 the number of stored entries, columns are in range and unique within a row, and ascending for algorithms that advertise or imply sorted output.
 Whatever the output object held before is discarded; the output may be the same object as A, B and/or M, and inputs that are not the output are
 left bit-for-bit unchanged, over any sequence of multiplications on the same objects.""",
 ["inputs", "histories"], "all inputs, all prior contents of the output, all alias patterns among A, B, M, C, all sequences of calls",
 "No test inspects an output matrix, re-uses an output object or aliases it with an operand.",
 [SB+"masked-spgemm.h", SB+"common.h", "CSR.h"],
 [("initC after the barrier", SB+"common.h"), ("result built aside, then moved", SB+"masked-spgemm.h MaskedSpGEMM2p"), ("make_empty", "CSR.h")],
 ["CSR objects before and after each call"])
prop("C05", "Multiplication works over arbitrary user semirings and value types",
 """The masked multiplications use only the supplied operations: every product is mult(a,b) with a from A and b from B in that order, products for one
 output entry are combined only by add, an entry with a single product has exactly that value (no identity element, zero or arithmetic on the value type is
 assumed), and operations are never applied to values of different output entries.  So any commutative monoid for add (min, max, or, xor, gcd, ...) and any mult
 over int, 64-bit, floating or plain-struct values gives the mathematically defined result.""",
 ["inputs", "programs"], "all commutative associative add operations, all (non-commutative) mult operations, index and value types",
 "Tests never pass a semiring; the benchmarks only ever use plus-times, plus-second and similar, for which zero-initialisation or swapped operands go unnoticed.",
 [SB+"msa/MSAAlgorithm.h", SB+"hash/MaskedHashAlgorithm.h", SB+"mca/MCAAlgorithm.h", SB+"heap/MaskedHeapAlgorithm.h", SB+"inner/InnerAlgorithm.h", SB+"inner/MaskedInnerSpGEMM.h"],
 [("first product initialises, later products are added", SB+"*/M*Algorithm*.h")], ["calls made to the mult/add functors", "values of C"])
prop("C06", "The hash accumulator is an exact map over any operation history",
 """After any sequence of resize, insert, find, erase, gather and reset on a hash accumulator within its declared capacity, look-ups succeed exactly for
 the keys present, return their last stored value, insertion reports whether the key was new, erasing one key never hides or changes another, and a gather or
 reset leaves the table empty for the next row.""",
 ["histories", "inputs"], "all operation sequences, key sets (colliding, wrapping round the table end, full to the load limit) and sizes",
 "The test runs one fixed insert/erase scenario; collision clusters that wrap around the table end under erase are not covered.",
 [SB+"hash/HashAccumulator.h"],
 [("linear probing, backward-shift erase", SB+"hash/HashAccumulator.h"), ("adjustSize load factor", SB+"hash/HashAccumulator.h")],
 ["return values of insert/find/erase", "output of gather/gatherList"])
prop("C07", "Mask-driven accumulators honour their states and are clean for re-use",
 """For any sequence of rows processed with a masked sparse accumulator (one- or two-array) or a mask-compressed accumulator, a value is accumulated
 exactly for the keys the mask allows (or, complemented, does not forbid), the gathered row contains exactly the keys that received a value, and after
 the row is gathered or cleared no state leaks into the next row or into the next phase that re-uses the same memory.""",
 ["histories", "inputs"], "all sequences of rows and operations on one accumulator and one buffer",
 "One fixed sequence on the one-array accumulator is tested; the two-array, the compressed one and re-use across rows and phases are not.",
 [SB+"msa/MaskedSparseAccumulator1A.h", SB+"msa/MaskedSparseAccumulator2A.h", SB+"mca/MaskCompressedAccumulator.h", SB+"msa/MSAAlgorithm.h"],
 [("state per key: not allowed / allowed / initialised", SB+"msa/*.h"), ("reset on gather", SB+"msa/*.h")], ["accumulator API results"])
prop("C08", "Work buffers are aligned, disjoint, in bounds and really clean",
 """For any request, a buffer allocation is aligned as asked and can be freed; carving a buffer into a part that may hold garbage and a part that must be
 clean yields two non-overlapping aligned ranges inside the buffer, the clean part contains only the clean pattern, and the reported amount of dirty
 memory never understates what may have been written, across any sequence of such carvings on one buffer.""",
 ["inputs", "histories"], "all buffer sizes, dirty amounts, element sizes and counts that fit, and sequences of set/release on one buffer",
 "The test tries a few sizes once; it does not check that the clean part is clean after several users shared the buffer.",
 [SB+"util.h", SB+"hash/HashAccumulator.h", SB+"msa/MaskedSparseAccumulator1A.h", SB+"msa/MaskedSparseAccumulator2A.h", SB+"mca/MaskCompressedAccumulator.h"],
 [("mallocAligned/freeAligned", SB+"util.h"), ("splitMemory dirty accounting", SB+"util.h")], ["pointers and bytes of the carved ranges"])
prop("C09", "Prefix sums are exact for every size and thread count",
 """The inclusive, exclusive and row-offset prefix sums return, for every input length (sequential or parallel path), thread count and schedule, exactly the
 running sums of the input; they write only the output range and read only the input range.""",
 ["inputs", "schedules", "configurations"], "all lengths including 1, fewer elements than threads, and both sides of the parallel threshold; all thread counts and interleavings",
 "test-scan covers powers of two with the default thread count and one schedule; lengths around the cut-off, fewer elements than threads and the second scan are not covered.",
 [SB+"scan.h", "utility.h"], [("two-pass blocked scan with barrier", SB+"scan.h"), ("scan / seq_scan / CumulativeSum", "utility.h")], ["destination arrays"])
prop("C10", "Work is partitioned: every row goes to exactly one thread",
 """For any per-row work vector and any number of threads, the row ranges handed to the threads are in order, within bounds, disjoint and together cover all
 rows, in the masked drivers as well as in the binning used by the baseline algorithms, and the per-thread size bounds computed from a range (maximal row sizes, result-size
 upper bound, hash-table size) are large enough for every row in it.""",
 ["inputs", "configurations"], "all work vectors (zero rows, one heavy row, all zero), row counts and thread counts",
 "No test calls the work distribution or the binning.",
 [SB+"common.h", "BIN.h"], [("distributeWork: lower_bound on cumulative work", SB+"common.h"), ("scanInputs", SB+"common.h"), ("BIN::set_rows_offset / set_bin_id / create_local_hash_table", "BIN.h")],
 ["row ranges and bounds returned"])
prop("C11", "Unmasked multiplication algorithms compute the full product",
 """For valid inputs of compatible shapes the unmasked algorithms (hash CSR x CSR with or without sorted output, heap CSC x CSC, generic heap CSR x CSR, and outer product
 CSC x CSR within its documented index-width limits) return exactly the semiring product A*B: an entry wherever at least one product exists, with the sum of all products,
 in a well-formed matrix, for every thread count and blocking parameter.""",
 ["inputs", "configurations"], "all shapes, patterns, values, thread counts and blocking parameters",
 "These are only exercised by sample programs that print timings; nothing compares results.",
 ["hash_mult_hw.h", "heap_mult.h", "heap_mult_generic.h", "outer_mult.h", "outer_mult2.h", "BIN.h", "utility.h"],
 [("symbolic + numeric hash kernels", "hash_mult_hw.h"), ("k-way heap merge", "heap_mult.h, heap_mult_generic.h"), ("blocked expand-sort-merge", "outer_mult.h")],
 ["returned matrix"])
prop("C12", "Baseline masked kernels agree with the mask-restricted product",
 """The baseline masked kernels (hash with and without binning, sparse-accumulator, row-wise heap variants, mask-compressed variants and plus-times inner product) return
 exactly the mask-restricted product A*B for any valid sorted inputs A, B and M of compatible shapes, A and B different matrices included, for every thread count.""",
 ["inputs", "configurations"], "all inputs, thread counts and kernel variants",
 "The sample programs and the MaskedAll benchmark only run them on A*A and print timings.",
 ["mask_hash_mult.h", "mask_hash.h", "spa_mult.h", "SPA.h", "heap_mult_generic.h", "inner_mult.h"],
 [("map_lp open addressing", "mask_hash.h"), ("SPA flags", "SPA.h"), ("heap/mask merge", "heap_mult_generic.h")], ["returned CSR"])
prop("C13", "Format conversions preserve the matrix",
 """Converting a matrix between triples, tuples, arrays, coordinate edges, CSR and CSC (in any chain, including a transpose of the storage) yields a well-formed matrix (indices ascending within each row or column, except after the helper that promises no order) with the
 same dimensions and exactly the same set of (row, column, value) entries; repeated entries are kept or combined only where the interface says so, and the source is unchanged.""",
 ["inputs", "histories"], "all matrices incl. empty rows/columns/matrices, rectangular shapes, and all chains of conversions",
 "No test builds a matrix through a conversion and compares it.",
 ["CSR.h", "CSC.h", "util/transpose.h", "Triple.h", "util/triple-util.h"],
 [("counting + cumulative sum + scatter", "CSR.h, CSC.h"), ("csr2csc", "util/transpose.h")], ["constructed objects"])
prop("C14", "Matrix objects copy, compare, permute, sort and intersect faithfully",
 """Copying or assigning a CSR or CSC matrix yields an independent equal matrix; equality holds exactly for matrices with the same shape and entries (up to the stated
 tolerance); shuffling and sorting change only the order within rows or columns; the intersection of two matrices contains exactly the coordinates present in both, with values combined by the supplied
 operation, the sum of a matrix is the sum of its stored values and changing the index base keeps the matrix; any history of such operations keeps every live object valid and untouched objects unchanged.""",
 ["histories", "inputs"], "all histories of create, copy, assign, self-assign, empty, shuffle, sort, intersect and compare on a set of objects",
 "No test exercises these member functions.",
 ["CSR.h", "CSC.h", "utility.h"], [("copy constructors, operator=, operator==", "CSR.h, CSC.h"), ("sortIds / shuffleIds / Intersect / make_empty", "CSR.h, CSC.h")],
 ["matrix objects after each operation"])
prop("C15", "Readers reproduce the matrix in the file",
 """Reading a Matrix Market style or triple text file or a binary file yields exactly the matrix the file describes: one-based text indices become zero-based, pattern entries get the value one,
 symmetric files yield both triangles with diagonal entries once, declared dimensions are kept, comments are skipped, and columns come out well-formed.""",
 ["inputs"], "all well-formed files: general/symmetric, real/integer/pattern, comments, empty rows and columns, duplicate-free entries in any order",
 "No test reads a file.",
 ["IO.h", "CSC.h", "CSR.h"], [("ReadASCII / ReadASCII_Triples / ReadBinary", "IO.h")], ["matrix returned by the reader"])
prop("C16", "Triangle counting reports the number of triangles, whatever the algorithm",
 """For a simple undirected graph, relabelling by degree, taking the strictly lower triangle L and summing the entries of L*L masked by L gives exactly the number of triangles of the
 graph, for every algorithm and thread count, with the library's own preprocessing, conversion and reduction steps.""",
 ["inputs", "configurations"], "all simple graphs, algorithms and thread counts",
 "No test runs the triangle count.",
 ["benchmarks/TriCntAll.cpp", "benchmarks/benchmarks-util.h", "util/triple-util.h", "IO.h", "CSR.h", "CSC.h", SB+"masked-spgemm.h"],
 [("preprocessInput", "benchmarks/TriCntAll.cpp"), ("masked multiply + sum", SB+"masked-spgemm.h, CSR.h sumall")], ["LOG lines of tricnt-all", "sum of C"])
prop("C17", "k-truss returns the maximal subgraph whose edges lie in enough triangles",
 """For an undirected graph and k, the iterated masked multiplication and pruning ends with exactly the k-truss: the largest subgraph in which every edge is contained in at least k-2 triangles of that
 subgraph; all algorithms agree on it and on the number of iterations.""",
 ["inputs", "configurations", "histories"], "all simple graphs, k, algorithms and thread counts; the whole iteration history",
 "No test runs k-truss.",
 ["benchmarks/KTrussAllGrb.cpp", "grb_util.h", "CSR.h", SB+"masked-spgemm.h"], [("masked plus-pair product, threshold, repeat", "benchmarks/KTrussAllGrb.cpp"), ("CSR <-> GraphBLAS", "CSR.h")],
 ["output of ktruss-all-grb", "matrix after each iteration"])
prop("C18", "Batched betweenness centrality equals the shortest-path definition",
 """For a graph and a batch of source vertices, the forward (complement-masked) sweeps visit every vertex at its breadth-first depth with its exact number of shortest paths, and the backward (masked) sweeps
 accumulate the dependency scores, so the result equals the betweenness contributions of those sources, identically for every algorithm and thread count.""",
 ["inputs", "configurations", "histories"], "all graphs (disconnected, cyclic), source batches, algorithms, thread counts; all sweeps of the iteration",
 "No test runs betweenness centrality.",
 ["benchmarks/BCAllGrb.cpp", SB+"masked-spgemm.h", "CSR.h"], [("frontier * A masked by complement of visited; backward update", "benchmarks/BCAllGrb.cpp")], ["frontier matrices per sweep", "centrality sum"])
prop("C19", "Exchange with GraphBLAS preserves the matrix",
 """Handing a CSR matrix to GraphBLAS and taking a GraphBLAS matrix back gives the same dimensions and entries in either direction, and the helpers around it (lower-triangle extraction, degree relabelling, CSC conversion)
 return exactly the matrix they name: the strictly lower triangle, a permuted graph isomorphic to the input with degrees in order, the same matrix by columns.""",
 ["inputs"], "all matrices incl. empty ones and rectangular shapes",
 "No test touches the GraphBLAS exchange.",
 ["CSR.h", "grb_util.h"], [("get_grb_mat / constructor from GrB_Matrix", "CSR.h"), ("sort_by_degree, get_lowtri, convert_to_csc", "grb_util.h")], ["GrB_Matrix tuples vs CSR arrays"])
prop("C20", "The generator's concurrent queue and capacity gate are safe and live",
 """Under every interleaving of any number of producers and consumers the queue delivers every pushed item exactly once and in order per producer, never loses or duplicates an item, a blocked consumer is released once an item is available,
 and the capacity gate never admits more than its limit yet always eventually admits a waiting request that fits.""",
 ["schedules", "histories"], "all interleavings of push, try_pop, wait_and_pop, accumulate and dissipate by several threads",
 "No test uses the queue; a lost wake-up needs one particular interleaving of two threads that stress runs almost never hit.",
 ["PaRMAT/src/threadsafe_queue.hpp", "PaRMAT/src/capacity_controller.hpp", "PaRMAT/src/GraphGen_notSorted.cpp"],
 [("head/tail locks, dummy node, condition variable", "PaRMAT/src/threadsafe_queue.hpp"), ("predicate wait + notify_all", "PaRMAT/src/capacity_controller.hpp")],
 ["pthread mutex/condition entry points (harness replaces them by a controlled scheduler)", "values popped"])
prop("C21", "The parallel R-MAT generator produces the graph that was asked for",
 """For any accepted request that leaves room (fewer edges than cells in every region it has to be split into) the generator comes to an end with exactly the requested number of edges, all end points below the number of vertices, no duplicate edge and no self loop when these are disallowed, only one triangle of the adjacency matrix for
 undirected graphs, and sources in ascending order when sorting is requested, whatever the number of worker threads and the memory limit; splitting the matrix into regions keeps the total number of edges.""",
 ["inputs", "schedules", "configurations"], "all parameter combinations, thread counts, capacities and random draws",
 "No test runs the generator.",
 ["PaRMAT/src/GraphGen_notSorted.cpp", "PaRMAT/src/GraphGen_sorted.cpp", "PaRMAT/src/utils.cpp", "PaRMAT/src/Square.cpp", "PaRMAT/src/Edge.cpp"],
 [("ShatterSquare renormalisation", "PaRMAT/src/utils.cpp"), ("duplicate elimination and regeneration", "PaRMAT/src/GraphGen_*.cpp")], ["edge list produced"])
prop("C22", "The sorting routines sort: ordered permutation, stable where promised",
 """Every sorting routine shipped with the library (key-value merge sort, radix sort by key, both timsorts, pdqsort, vergesort, the generators' edge-list sorts) terminates with an ordered permutation of its input for any input sequence, comparator or key; the timsorts, the radix sort and the merge sort's key-value pairing
 additionally keep each value with its key, and the timsorts and radix sort keep the order of equal elements.""",
 ["inputs"], "all sequences and lengths: runs, reversed runs, many equal keys, galloping patterns, sizes around minrun, block and insertion-sort thresholds",
 "The vendored unit tests sample shuffled and a few patterned arrays; run-merge invariants and radix digit boundaries need adversarial inputs.",
 ["utility.h", "radix_sort/radix_sort.hpp", "cpp-TimSort/include/gfx/timsort.hpp", "timsort-cpp/include/tim/timsort.h", "pdqsort/pdqsort.h", "vergesort/include/vergesort/vergesort.h"],
 [("run stack and galloping merges", "timsort headers"), ("block partition, heap-sort fall-back", "pdqsort/pdqsort.h"), ("digit passes", "radix_sort/radix_sort.hpp")], ["sorted array with identity tags"])
prop("C23", "Random inputs and duplicate removal respect their contract",
 """Generating random triples gives the requested dimensions with every coordinate in range, and removing duplicates from a list of triples leaves exactly one entry per distinct coordinate, in row-major order, never inventing or losing a coordinate; the GTgraph R-MAT generator returns exactly the requested number of edges between existing vertices, without self loops unless they are allowed, with weights in the requested range and sorted by start vertex when asked.""",
 ["inputs"], "all lists of triples (empty, all equal, already sorted, reversed) and all requested shapes",
 "The existing test samples a few random shapes and checks only totals.",
 ["util/triple-util.h", "Triple.h", "GTgraph/R-MAT/graph.c", "GTgraph/R-MAT/init.c"], [("sort + compact", "util/triple-util.h"), ("quadrant descent, self-loop retry", "GTgraph/R-MAT/graph.c")], ["returned triples and counts"])
prop("C24", "Operation counts are exact for every input and thread count",
 """Every routine that counts the multiplications of a product (for CSR, CSC and mixed operands, with and without a mask, in total and per row or column) returns exactly the number of pairs A(i,k), B(k,j) the product combines (twice that where it counts floating-point operations; only rows with a non-empty mask row where the masked count is asked for),
 and the work measure of the inner-product algorithm is exactly the sum of the lengths of the rows and columns it has to intersect; the counts do not depend on the number of threads or the schedule, they do not change their inputs, and totals beyond the range of the index type are still exact where a wider type is returned. An unmasked multiplication performs exactly the counted number of multiplications.""",
 ["inputs", "schedules"], "all sparsity patterns, index types, thread counts and interleavings of the reductions",
 "Load balancing, buffer sizes and reported rates are built on these counts; no test compares them with anything, and overflow needs operands far larger than a test's.",
 ["multiply.h", "heap_mult.h", "inner_mult.h", "heap_mult_generic.h", "outer_mult.h", "outer_mult2.h", "spgemm-blocks/common.h"],
 [("get_flop / getFlop", "multiply.h, heap_mult.h, inner_mult.h, heap_mult_generic.h, outer_mult*.h"), ("calculateMultOps, calculateFlops, calculateWork", "spgemm-blocks/common.h")], ["returned totals", "per-row and per-column arrays", "calls of the multiply functor"])
prop("C25", "The masked benchmark programs report the product they were asked for",
 """For any matrices in the input files, any number of threads, mode and number of iterations, masked-all reports for each of its algorithms the number of entries and the checksums of the product of the first two files restricted to the third's pattern, and complement-masked-all those of the square of the file's matrix outside its own pattern (and the sum of its entries and the checksum of the row pointers);
 every algorithm run reports once per outer iteration and requested number of threads, warm-up and measured repetitions do not change what is reported.""",
 ["inputs", "configurations"], "all input files, thread counts, modes, warm-up and iteration counts",
 "The programs are how the library's results are compared and published; nothing runs them in the tests.",
 ["benchmarks/MaskedAllSpGEMM.cpp", "benchmarks/ComplementMaskedSpGEMM.cpp", "benchmarks/benchmarks-util.h", "IO.h", "spgemm-blocks/masked-spgemm.h", "mask_hash_mult.h", "heap_mult_generic.h", "spa_mult.h", "inner_mult.h"],
 [("read, convert, run, report", "benchmarks/*.cpp"), ("checksum", "benchmarks/benchmarks-util.h")], ["LOG lines"])
prop("C26", "The GTgraph programs write the graph their options ask for",
 """For any options in any order, any configuration file and any outcome of the random draws, the programs end without touching memory that is not theirs and write, to the file named, a graph whose header, vertex numbers, weights and number of edges agree with what was asked for.
 R-MAT and G(n, m): exactly m edges, self loops only if allowed; G(n, p): every ordered pair at most once, none for p = 0 and all of them for p = 1; SSCA2: every vertex in one clique of at most the maximum size, all members of a clique joined (in one or both directions as asked), at most the given number of parallel edges, edges between cliques only if their probability is not zero, and the numbers of cliques and edges in the log are those of the graph. Sorted by start vertex where asked for.""",
 ["inputs", "configurations", "random outcomes"], "all option orders, configuration files and sequences of random draws",
 "The generators' inputs to every experiment; buffers are sized by estimates, and nothing runs the programs in the tests.",
 ["GTgraph/R-MAT", "GTgraph/random", "GTgraph/SSCA2"],
 [("options and configuration", "GTgraph/*/init.c"), ("generation", "GTgraph/*/graph.c"), ("sorting and writing", "GTgraph/*/utils.c")], ["graph file", "log file"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(p["id"], len(p["title"]), p["statement"].count(". ")+1)
