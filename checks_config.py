"""What each check builds and how many cases it runs per tier."""
VARIANTS = {
    "plain": dict(cflags=["-O1", "-g1"], lflags=[]),
    # as users build it who do without OpenMP and assertions
    "serial": dict(cflags=["-O1", "-g1", "-fno-openmp", "-DNDEBUG"], lflags=[]),
    "asan": dict(cflags=["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"], lflags=["-fsanitize=address"]),
}
A_OPENMP = "g++ -fopenmp build, as the project's own Makefiles do (the serial variant: without OpenMP and assertions)"
CHECKS = {
 "C01": dict(src="c01.cpp", parts=5,
   rule="random layered automata (explicit small ones and pseudo-random large ones, arities 2,3,5,12,40) written as specifications of 19 state kinds (scalars, records, classes, hand-made life cycles, arrays and mixtures of 0-17, now and then up to 300 elements, information in any one element); about one in 2000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: canonical graph has at least 3 nodes; distinct by the sequence of choices",
   quick=dict(plain=300000, serial=50000, asan=60000), thorough=dict(plain=6000000, serial=1000000, asan=1000000),
   assumptions=[A_OPENMP, "reference: hash-consed canonical graph and direct evaluation of every assignment (small cases)"]),
 "C02": dict(src="c02.cpp", parts=4,
   rule="random automata of arities 2,3,4,5,40 built by 5 state kinds (serial or parallel, optionally filtered), then 1-3 reductions under random rules and modes; about one in 1500 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: canonical graph has at least 3 nodes",
   quick=dict(plain=200000, serial=33333, asan=40000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=[A_OPENMP, "reference: hash-consed canonical graph normalised under the rule"]),
 "C03": dict(src="c03.cpp", parts=6, repeat=5, solo=dict(meeting2=2500),
   rule="random automata; build, filter, reduce, convert and evaluate with 1-13, now and then up to 64, OpenMP threads and compare with the model and the serial results; specifications composed by lookahead, unreduction and the binary operations; cost-pruning merge rules; specifications whose threads meet at the end of every level; about one in 600 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: canonical graph has at least 3 nodes (merging: something was pruned)",
   quick=dict(plain=40000, serial=6666, asan=8000), thorough=dict(plain=600000, serial=100000, asan=100000),
   assumptions=[A_OPENMP, "schedules are those the OpenMP runtime produces on 8 oversubscribed cores; they are not enumerated"]),
 "C04": dict(src="c04.cpp", parts=3,
   rule="pairs of diagrams: split copies, one-transition mutants, unrelated; unreduced or reduced, serial or parallel; about one in 2000 cases is huge (levels of 10000-30000 nodes) or tall (200-3000 levels); oracle: hash-consed structure; non-trivial: both have nodes, the first at least 3",
   quick=dict(plain=250000, serial=41666, asan=50000), thorough=dict(plain=4000000, serial=666666, asan=800000),
   assumptions=[A_OPENMP, "structure is read through root()/child()"]),
 "C05": dict(src="c05.cpp", parts=3,
   rule="random base automaton (as built, reduced, or unreduced with extra levels) filtered 1-3 times by random specifications of 11 state kinds or by diagrams, serial or parallel; about one in 2000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: some filter removed combinations of a base with at least 2 nodes and left some",
   quick=dict(plain=200000, serial=33333, asan=40000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=[A_OPENMP, "reference: intersection of hash-consed ZDDs"]),
 "C06": dict(src="c06.cpp", parts=6,
   rule="pairs, triples and quadruples of random automata of different state kinds (or diagrams) under and/or/intersection/union and nestings; now and then one operand is huge (levels of 10000-30000 nodes) or tall (200-3000 levels); non-trivial: operands have at least 2 nodes and the result differs from both",
   quick=dict(plain=600000, serial=100000, asan=100000), thorough=dict(plain=4000000, serial=666666, asan=800000),
   assumptions=[A_OPENMP, "binary diagrams only: the operators are declared for arity 2", "reference: naive and/or on hash-consed BDDs and ZDDs"]),
 "C07": dict(src="c07.cpp", parts=4,
   rule="random automata (5 state kinds, arities 2,3,5) through lookahead, unreduction, their compositions, and diagram conversions both ways with 0-5 extra variables; about one in 4000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: canonical graph has at least 3 nodes",
   quick=dict(plain=400000, serial=66666, asan=80000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=[A_OPENMP, "reference: hash-consed conversion and direct evaluation of every assignment for few variables"]),
 "C08": dict(src="c08.cpp", parts=3,
   rule="random automata up to 240 levels, deep ones with long or regular skips up to 1000 levels and (near-)universal diagrams up to 1500 levels of arities 2,3,5,8,10, reduced or not, serial or parallel, 0-400 extra variables; about one in 1000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: both counts exceed 2 (universal: more than 2 levels)",
   quick=dict(plain=60000, serial=10000, asan=12000), thorough=dict(plain=900000, serial=150000, asan=150000),
   assumptions=[A_OPENMP, "reference: boost cpp_int counting on the hash-consed graph", "the narrower evaluators are compared when the value, and for BDD counting the number of all assignments, is representable"]),
 "C09": dict(src="c09.cpp", parts=1,
   rule="random binary ZDDs (as built, reduced, filtered) and explicit set families; full iteration, range-for and histories of iterator copies and advances; families over up to 3000 levels; non-trivial: at least 3 combinations",
   quick=dict(plain=200000, serial=33333, asan=40000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=["families with more than 3000 combinations are skipped (tag too-many)"]),
 "C10": dict(src="c10.cpp", parts=3,
   rule="random diagrams of arities 2,3,6, any reduction state, serial or parallel; a hash evaluator and an evaluator with a life-cycle-audited value class and all hooks, its progress messages on or off; about one in 3000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: at least 3 nodes",
   quick=dict(plain=300000, serial=50000, asan=60000), thorough=dict(plain=2000000, serial=333333, asan=400000),
   assumptions=[A_OPENMP, "reference: recursion through root()/child()"]),
 "C11": dict(src="c11.cpp", parts=2,
   rule="histories of 1-70 operations (21 kinds) over 1-5 diagram variables; after each step every variable is compared with its model; heap balance and state life cycle at the end; non-trivial: at least 4 operations, at least one in-place update of a diagram with at least 2 nodes",
   quick=dict(plain=400000, serial=66666, asan=120000), thorough=dict(plain=6000000, serial=1000000, asan=1500000),
   assumptions=[A_OPENMP, "heap balance counts operator new/delete in the plain build; AddressSanitizer checks accesses in the other"]),
 "C12": dict(src="c12.cpp", parts=4,
   rule="class-typed and mixed states (audited constructors, copies, destructors) through 14 uses of a specification, 12 combinations and merging rules, serial or parallel; oracle: no dead state used, none left alive, heap balance; about one in 4000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: at least 5 states were created",
   quick=dict(plain=600000, serial=100000, asan=120000), thorough=dict(plain=2000000, serial=333333, asan=500000),
   assumptions=[A_OPENMP, "operations that end by an exception thrown inside the specification are outside the statement"]),
 "C13": dict(src="c13.cpp", parts=3,
   rule="cost-labelled random automata; rules keep-cheapest with ties merged (exact model), ties discarded either way (counts and per-path oracle), accumulated counts that steer later transitions, filters of universal diagrams, products; now and then levels of thousands of nodes; non-trivial: something is pruned (or two states meet) and something is accepted",
   quick=dict(plain=250000, serial=41666, asan=50000), thorough=dict(plain=4000000, serial=666666, asan=800000),
   assumptions=[A_OPENMP, "oracles are independent of the order in which states meet", "in multi-processor mode accepting arrivals are merged unconditionally (known finding of C03), so rules there leave them alone"]),
 "C14": dict(src="c14.cpp", parts=3,
   rule="random automata of 10 state kinds, arities 2,3,7, and deep automata up to 420 levels with skips up to that length; about one in 2000 cases has levels of 10000-30000 (sometimes 120000) nodes or 200-3000 levels; non-trivial: more than 2 paths",
   quick=dict(plain=200000, serial=33333, asan=30000), thorough=dict(plain=900000, serial=150000, asan=150000),
   assumptions=["reference: boost cpp_int counting on the hash-consed graph"]),
 "C15": dict(src="c15.cpp", parts=2,
   rule="random automata up to 12 levels, a third with at most 2 accepting transitions, 10 state kinds and diagrams, repeated searches; tall ones of 200-3000 levels; non-trivial: root above level 1 and at least 3 reachable states",
   quick=dict(plain=1200000, serial=200000, asan=200000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=["the order of the returned decisions is not specified; they are compared as a set", "the search draws from std::rand, seeded by the case"]),
 "C16": dict(src="c16.cpp", parts=3,
   rule="random diagrams (arities 2,3,5; any reduction state; serial or parallel), specifications of 10 state kinds (arities 2,3,6) specifications with labels of their own, stateless and merging specifications dumped as DOT (four entry points and the node table) and SAPPORO text, which is parsed back; random ZDD files in Graphillion's format (any line order, identifiers, index offset, blank lines, CRLF, missing end mark); non-trivial: at least 3 nodes",
   quick=dict(plain=300000, serial=50000, asan=60000), thorough=dict(plain=3000000, serial=500000, asan=600000),
   assumptions=[A_OPENMP, "DOT draws all values above 2 in one colour; their targets are compared as a multiset", "SAPPORO output is defined for binary diagrams only"]),
 "C17": dict(src="c17.cpp", parts=1,
   rule="random simple graphs (arbitrary, grids, chains with chords, trees with extra edges, dense; edge order kept or shuffled; edges repeated or reversed; three naming schemes) with 1-4 terminal pairs; all edge subsets up to 10 edges, backtracking enumeration up to 24 edges; every 30th case a sparse graph (tree with a few chords around hubs) with more vertices and edges than the others, whose paths are enumerated; lookahead on or off, built serially, in parallel or as a filter; non-trivial: at least one solution and 2 nodes (larger: 2 solutions)",
   quick=dict(plain=150000, asan=25000), thorough=dict(plain=900000, asan=200000),
   assumptions=[A_OPENMP, "graphs have at least one edge and no self-loops; path specifications get at least one pair, groups have exactly two vertices; cycle specifications get no groups"]),
 "C18": dict(src="c18.cpp", parts=1,
   rule="random simple graphs as in C17 with 0-4 vertex groups of any size, component count -1..3, loops allowed or not; random permitted-degree sets (ranges with steps, user-defined sets with loose or tight bounds) per vertex; lookahead on or off; every edge subset up to 13 edges is decided by brute force; every 20th case a larger graph whose spanning trees (determinant) and even-degree sets (2^(m-n+c)) are counted; non-trivial: some but not all subsets qualify",
   quick=dict(plain=450000, asan=90000), thorough=dict(plain=8000000, asan=1500000),
   assumptions=[A_OPENMP, "graphs have at least one edge and no self-loops"]),
 "C19": dict(src="c19.cpp", parts=2,
   rule="size constraints over 1-60, now and then 120-400, items (ranges with steps and negative or excessive bounds, user-defined sets with loose or tight bounds, none) against a counting recursion; 0-5 linear constraints over up to 13 variables with int, short, 64-bit or (quarter-integral) double weights of one or both signs, equations, one-sided and contradictory bounds near attainable sums, decided on all assignments, and over 15-45 variables with small weights, counted level by level over partial sums; non-trivial: some but not all of at least 3 variables' assignments qualify",
   quick=dict(plain=400000, asan=80000), thorough=dict(plain=6000000, asan=1200000),
   assumptions=[A_OPENMP, "floating-point weights are multiples of 1/4, so that sums are exact", "update() is called once after the last constraint, as the interface requires"]),
 "C20": dict(src="c20.cpp", parts=1,
   rule="histories of 1-12 steps: edges and groups added by name, edge-list, adjacency-list and group texts (blank lines, tabs, CRLF, missing final newline, malformed tokens) through standard input or files, clearing, default path groups, copies; after each update every query is compared with a set model; non-trivial: at least 3 distinct edges",
   quick=dict(plain=300000, serial=50000, asan=60000), thorough=dict(plain=5000000, serial=833333, asan=1000000),
   assumptions=["vertex numbers are only required to follow the leaving order of the edge sequence", "after a rejected input the graph is not used further"]),
 "C21": dict(src="c21.cpp", parts=1,
   rule="histories of up to 25 operations over 1-4 numbers of up to 1449 bits (values at powers of two, word boundaries and random), each in its own buffer with guard words; histories of up to 60 operations over fixed-size numbers of 1, 3 and 8 words; reference: boost cpp_int; non-trivial: at least 3 steps and more than one word reached",
   quick=dict(plain=3000000, serial=500000, asan=500000), thorough=dict(plain=20000000, serial=3333333, asan=4000000),
   assumptions=["buffers are large enough for the result, divisors are not zero"]),
 "C22": dict(src="c22.cpp", parts=1,
   rule="histories of up to 60 operations over MyVector, DataTable, MyList, MyListOnPool, MemoryPool, MyHashTable, MyHashMap, the pointer hash table, MyBitSet and MySmallSet with life-cycle-audited elements, mirrored by standard containers; about one in 500 cases with 2000-200000 elements; non-trivial: at least 3 elements reached and at least 3 operations",
   quick=dict(plain=400000, serial=66666, asan=100000), thorough=dict(plain=6000000, serial=1000000, asan=1500000),
   assumptions=["a small set holds one element fewer than its array and never the default value", "memory pools are moved, not assigned"]),
 "C23": dict(src="c23.cpp", parts=3, workers=8, aux=dict(ddpaths="ddpaths", ddqueens="ddqueens", numberlink="numberlink", graphillion="graphillion"),
   rule="the programs ddpaths, ddqueens, ddnumlin and graphillion_example, compiled from the tree, run on generated graphs, groups, options and boards and their printed counts, lists and diagrams compared with brute force; their specifications used in-process; non-trivial: at least one solution exists but not all combinations are solutions",
   quick=dict(plain=30000, asan=4000), thorough=dict(plain=250000, asan=30000),
   assumptions=[A_OPENMP, "graphs have at least one edge, no self-loops and contiguous vertex numbers; lower bounds do not exceed upper bounds", "number-link labels occur exactly twice, boards have at least two cells", "graphillion_example is linked with a stand-in for SAPPORO's package; at most one of its degree options is given; an imported family has the last edge as its last index"]),
 "C24": dict(src="c24.cpp", parts=2, repeat=3,
   rule="random automata as specifications with working storage of their own, which audit every call, through 14 uses (building, filtering, dumping, path counting, searching, lookahead, unreduction, combinations), serial or with 1-6 threads; now and then huge or tall (200-3000 levels); states know the level they were made for; non-trivial: at least 20 calls",
   quick=dict(plain=200000, asan=30000), thorough=dict(plain=3000000, asan=400000),
   assumptions=[A_OPENMP, "operands of a union may be anywhere when the union accepts, so merging calls are not audited there", "path counting takes the caller's own object by reference"]),
 "C25": dict(src="c25.cpp", parts=1,
   rule="random diagrams (any reduction state, serial or parallel evaluation) exported with offsets -3..6 and any variable order, some variables missing; random BDDs and ZBDDs read back with offsets 0..5; round trips; non-trivial: canonical graph has at least 3 nodes",
   quick=dict(plain=600000, asan=100000), thorough=dict(plain=8000000, asan=1500000),
   assumptions=[A_OPENMP, "SAPPORO's package is not installed: a stand-in with its interface and its single-thread rule is used", "specifications made of SAPPORO diagrams are built serially"]),
 "C26": dict(src="c26.cpp", parts=2, repeat=3, aux=dict(cnfbdd="cnfbdd", cnf2ztdd2bdd="cnf2ztdd2bdd"),
   rule="the programs cnfbdd and cnf2ztdd2bdd, compiled from the tree with a stand-in for CUDD, on generated CNF files (1-9 variables, 1-14 clauses, shared suffixes, windows, repeated and opposite literals, malformed files) and options; the specifications CnfToBdd and CnfToZtdd and the Cudd wrapper in-process; compared with truth tables; non-trivial: satisfiable but not always true",
   quick=dict(plain=120000, asan=15000), thorough=dict(plain=2000000, asan=200000),
   assumptions=[A_OPENMP, "CUDD is not installed: a stand-in with its interface, complement edges, reference counts and collection of unreferenced nodes is used", "at most 65535 clauses"]),
}
