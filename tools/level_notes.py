T = "TLA+/TLC: "
NOTE = {
 "C01": (T + "recorded products of the real algorithms validated row by row against SpGEMM.tla", "Every algorithm is compiled from /repo and run over generated matrices (shapes, degrees, value types, semirings, thread counts); each record is a behaviour of ProductTrace.tla, whose transition recomputes the row from the definition. Bounded by the generated inputs, not by sampling the result."),
 "C02": (T + "recorded products of the real algorithms validated row by row against SpGEMM.tla", "As C01, for the complemented algorithms, empty and full masks included."),
 "C03": (T + "model of the parallel driver explored exhaustively; its schedules replayed in the real code", "MaskedDriver.tla: all interleavings of 2-3 threads and rows, termination under fairness, necessity of both barriers. Schedules generated from it (2-5 threads) are imposed on the real drivers through a replacement of the OpenMP runtime; results validated against SpGEMM.tla."),
 "C04": (T + "histories of multiplications on a pool of objects validated against Workspace.tla", "Histories with all aliasings of A, B, M and C, stale outputs, one-based outputs; after each step every array of every object is compared with the specification. Built with AddressSanitizer."),
 "C05": (T + "recorded calls of the user's operations over opaque tokens validated against Terms.tla", "TermsMC.tla shows (per semiring, exhaustively in small scope) that legal calls in any order give the sum of products; TokenTrace.tla checks that the calls the real code makes are legal, so the verdict holds for every commutative monoid."),
 "C06": (T + "hash-table model explored for every hash function; generated histories replayed in the real accumulator", "HashTable.tla (all hash functions, small tables) refines an exact map; histories from HashAccGen.tla are replayed on the real classes and the recorded steps validated, plus rows through the hash row algorithms."),
 "C07": (T + "histories generated from MaskAcc.tla replayed in the real accumulators and validated", "Both array layouts, plain and complemented, key-only and valued, five value types, plus row sequences through the row algorithms sharing one dirty buffer (RowSeqTrace.tla)."),
 "C08": (T + "buffer model explored exhaustively; recorded carvings of real buffers validated", "BuffersMC.tla: every sequence of carvings of small buffers with worst-case garbage; BuffersTrace.tla checks the bytes of real buffers."),
 "C09": (T + "interleaving model of the prefix sums; real sums under free and controlled schedules validated", "Scan.tla: element-level interleavings, all lengths up to 6-7 and 4-5 threads, necessity of the barrier; ScanTrace.tla validates the real functions on both sides of the parallel threshold, with guard words around the arrays."),
 "C10": (T + "all small work vectors in WorkDistMC.tla; recorded distributions of the real code validated", "Every work vector up to 5 rows x 3 units x 4 threads in the model; recorded ranges, bins and size bounds of the real code for generated vectors and schedules."),
 "C11": (T + "recorded products validated against SpGEMM.tla, also under replayed schedules", "As C01 without a mask; the parallel parts additionally under schedules generated from MaskedDriver.tla."),
 "C12": (T + "recorded products validated against SpGEMM.tla, also under replayed schedules", "As C01 for the baseline kernels."),
 "C13": (T + "interleaving model of the counting transpose; recorded conversions validated against Compressed.tla", "Transpose.tla: all interleavings of 2-3 workers, the atomic counter shown necessary; recorded conversion chains (also under controlled schedules) compared slice by slice."),
 "C14": (T + "ownership model explored exhaustively; generated object histories replayed and validated", "ObjectLife.tla: no aliasing, no leak, no use after free for 2-3 objects; histories from ObjectLifeGen.tla replayed on real CSR and CSC objects under AddressSanitizer, every step validated by ObjectOps.tla."),
 "C15": (T + "reader state machine explored on all small files; recorded reads validated by running it on the file's lines", "ReadFileMC.tla: every file up to 2x2 and 3-4 lines; ReadTrace.tla runs the machine on the lines the real readers were given."),
 "C16": (T + "triangle counting explored on all small graphs; program runs validated against the definition", "Triangles.tla on all graphs of 3-5 vertices; the repository's programs run on generated graphs, every LOG line compared with the number of triangles."),
 "C17": (T + "k-truss loop explored on all small graphs; program runs and passes validated against the definition", "KTruss.tla: all graphs of 4-5 vertices and k up to 5-6, convergence; the program runs on generated graphs for every algorithm."),
 "C18": (T + "Brandes sweeps explored on all small graphs; program runs and sweeps validated", "BC.tla: all graphs of 3-5 vertices; the program's sweeps (frontiers, path counts, centralities) compared with the definition."),
 "C19": (T + "ownership model of the exchange explored exhaustively; generated exchange histories replayed and validated", "Exchange.tla: who owns which array, four wrong designs refuted; histories from ExchangeGen.tla replayed against the GraphBLAS library under AddressSanitizer for six type combinations."),
 "C20": (T + "queue and gate models with liveness; schedules replayed through interposed thread primitives; linearizability checked", "Queue.tla and Gate.tla exhaustively for 2-4 threads with fairness and spurious wake-ups; schedules generated from them drive the real classes, and QueueTrace.tla checks each recorded history for linearizability."),
 "C21": (T + "models of region splitting and ordered writing; generator runs validated", "Regions.tla and SortedWriter.tla exhaustively in small scope; the real generator runs (free and controlled schedules, extreme shares) are validated edge by edge."),
 "C22": (T + "models of the algorithms explored on all small inputs; generated plans sorted by the real code and validated", "RunStack, TimSort, Quick, MergeBuffer and Radix explored exhaustively in small scope; real sorts validated as ordered (stable) permutations on plans from SortGen.tla."),
 "C23": (T + "models of duplicate removal and of the R-MAT descent; recorded runs validated", "All lists up to 5 triples over a 2x2 matrix; real runs validated."),
 "C24": (T + "model of parallel counting; recorded counts validated", "OpCount.tla: all small operand patterns and interleavings, width shown necessary; real counts validated, totals modulo three primes so that values beyond 32 and 64 bits are decided exactly."),
 "C25": (T + "model of the measuring loop; report lines of the real programs validated against SpGEMM.tla", "The programs are compiled from /repo's sources and run on generated files; every report line is compared with the number of entries, sum and checksums of the defined product."),
 "C26": (T + "models of the generators and of option handling; graph files of the real programs validated", "RandomGraph.tla, Cliques.tla and GtOptions.tla exhaustively in small scope (growing buffers, enough sizes, the bound on edges, kept options shown necessary); the three programs are built from /repo with a scripted random generator and run with generated options and files, every graph file is judged by GtTrace.tla."),
}
