"""what decides each property: harness/<harness>.cpp, in which builds, with which options"""
LEVEL = "exploration"
CHECKS = {}


def check(pid, rule, *jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=list(jobs), **kw)


def job(harness, variants, weight=1, shards=8, **opts):
    return dict(harness=harness, variants=variants.split(), weight=weight, shards=shards, opts=opts)


SEQ = ("A case is a random history of stream calls of one thread (20 to 160 calls, capacity 1 to 100, one of 11 element types; now and then a capacity up to 200000 with ranges of any length, or 66000 to 146000 elements in a row), compared call by call with a "
       "reference queue; non-trivial: at least 3 elements were read; distinct by the hash of the history with its arguments. ")
CONC = ("A case is one writer and one reader thread (some with a thread that resizes or watches), each with random calls and pace, up to thousands of numbered elements; "
        "non-trivial: more elements than the capacity; distinct by its parameters; interleavings_observed counts distinct hashes of the occupancies that the reader met. ")

check("Q01", CONC + SEQ, job("fifo_conc", "chaos plain", 2), job("fifo_seq", "asan"))
check("Q02", SEQ + CONC, job("fifo_seq", "plain"), job("fifo_conc", "chaos"))
check("Q03", CONC + SEQ, job("fifo_conc", "chaosasan", 2, mode="resize"), job("fifo_conc", "plain", 1, mode="resize"), job("fifo_seq", "asan", 1, mode="resize"))
check("Q04", SEQ + CONC, job("fifo_seq", "plain"), job("fifo_conc", "chaos", 2))
check("Q05", SEQ + CONC, job("fifo_seq", "asan", 1, mode="close"), job("fifo_conc", "chaos", 1, items=8), job("fifo_conc", "chaos", 1, items=300))
check("Q06", SEQ + CONC, job("fifo_seq", "asan", 2, mode="peek"), job("fifo_conc", "chaos"))
check("Q07", SEQ + CONC, job("fifo_seq", "asan", 2, mode="alloc"), job("fifo_conc", "chaos"))
check("Q08", SEQ + CONC, job("fifo_seq", "asan", 2, types="tracked"), job("fifo_conc", "chaosasan", 2, types="tracked"))
LIBK = ("A case of the kernel part is a random small graph around one library kernel (ports, element type, rates, contents, lengths, buffer sizes drawn at random), run to its end, with every element that leaves it compared with what is due; "
        "non-trivial: more than a few elements; distinct by its parameters. ")
check("Q10", SEQ + LIBK, job("fifo_seq", "asan plain", 1, mode="existing"), job("libk", "plain asan", 1, 24, mode="each"))
check("U05", SEQ, job("fifo_seq", "plain asan", 1, mode="stats"))

GRAPH = ("A case is a random acyclic graph (1 to 15 kernels: sources, maps, filters, expanders, copies, distributors, merges, zips, sinks; 5 element types) in a random configuration "
         "(allocator, partitioner, parallelism monitor, buffer sizes, firing rules, pacing, reading and writing calls), run to its end, sometimes two side by side; what each link must carry is computed beforehand and every "
         "kernel compares each element with it. Non-trivial: more than 20 elements were read; distinct by graph and configuration; interleavings_observed counts distinct sequences of input occupancies that kernels met. ")
check("Q09", GRAPH + CONC, job("graph_run", "plain", 2, 24, types="big"), job("graph_run", "chaosasan", 2, 24, types="big"))
check("R01", GRAPH, job("graph_run", "chaos", 1, 24), job("graph_run", "plain asan", 1, 24))
check("R02", GRAPH, job("graph_run", "chaos plain", 1, 24))
check("R03", GRAPH, job("graph_run", "chaos plain", 1, 24))
check("R04", GRAPH, job("graph_run", "plain chaos", 1, 24, mode="growth"))
SCHED = ("A case is a random small graph, run with policies of the harness (partitioner, scheduler, allocator and monitor, or some of them) that record when the run calls them, and up to 3 further graphs and 2 kernels without ports "
         "that the monitor or other kernels hand to the scheduler while it runs; every element is compared. Non-trivial: more than 5 runs of kernels; distinct by graphs, policies and who hands over what. ")
check("R05", SCHED, job("sched", "plain asan chaos", 1, 24))
check("U04", GRAPH + "In the build with partitioning the Scotch library is a stand-in that checks and records the graph it is given and answers with a random mapping. ",
      job("graph_run", "plain scotch", 1, 24))

TOPO = ("A case is a random program of 1 to 3 topology expressions (2 to 8 kernels each, any nesting of >> <= >= and order::out, port names, user-owned and made kernels, kernels that += returned used again) and of links, "
        "whose graph is compared kernel by kernel and link by link with an independent evaluation of the expression, then in part run with items that record their path. Non-trivial: more than 3 kernels; distinct by the text of the program. ")
ERRS = "A case of the error part is a random valid graph and up to 6 malformed steps, each of which has to raise exactly its exception and leave the graph as it was; distinct by the steps. "
PORTS = "A case of the port part is a random history of ports added under random names and types, compared with a dictionary; distinct by names and types. "
check("T01", TOPO, job("topo", "asan chaos plain", 1, mode="expr"))
check("T02", TOPO, job("topo", "plain asan", 1, mode="expr"))
check("T03", ERRS + TOPO, job("topo", "asan plain", 1, mode="errors"))
check("T04", TOPO + ERRS, job("topo", "asan chaosasan", 1, mode="own"))
check("T05", PORTS + TOPO, job("topo", "asan plain", 1, mode="ports"))
check("T06", TOPO, job("topo", "plain asan", 1, mode="trav"))

check("K01", LIBK, job("libk", "chaos plain asan", 1, 24, mode="split"))
check("K02", LIBK, job("libk", "plain asan chaos", 1, 24, mode="adapt"))
check("K03", LIBK, job("libk", "plain asan", 1, 24, mode="file"))
check("K04", LIBK, job("libk", "plain asan", 1, 24, mode="search"))
check("K05", LIBK, job("libk", "plain asan", 1, 24, mode="math"))

UNITS = "A case of the unit part is a random history of calls of one small class (or of one helper function), compared call by call with its definition; distinct by its text. "
check("U01", UNITS + SEQ, job("units", "ubsan plain", 1, mode="pointer"), job("fifo_seq", "plain", 1))
check("U02", UNITS, job("units", "ubsan plain", 1, mode="sets"))
check("U03", UNITS, job("units", "ubsan plain", 1, mode="numbers"))
check("U06", UNITS, job("units", "ubsan asan", 1, mode="signals"))
check("M01", SEQ + CONC + GRAPH + SCHED + TOPO + LIBK + UNITS + "A case of programs is one program of the test suite or the examples, run once.", job("fifo_seq", "ubsan", 2), job("fifo_conc", "ubsan", 1), job("graph_run", "ubsan", 2, 24), job("topo", "ubsan", 1, 24), job("libk", "ubsan", 2, 24), job("units", "ubsan", 1), job("sched", "ubsan", 1),
      job("fifo_seq", "vg", 1), job("topo", "vg", 1), job("libk", "vg", 1), job("graph_run", "vg", 1), job("units", "vg", 1),
      job("programs", "ubsan", 0), secs=40)
SIDE = "What runs are 2 to 4 such graphs at the same time, each by a thread of its own; half of the random graphs start together, the others as soon as they are made. "
check("R06", GRAPH + LIBK + SIDE, job("graph_run", "chaosasan plain", 1, 8, mode="side"), job("libk", "asan plain", 1, 8, mode="side"), secs=40)
check("M02", CONC + GRAPH + SCHED + LIBK + TOPO + "All of it runs under the thread sanitizer, which knows of the streams' positions and flags, of locks, threads and flags of the run-time, and reports two accesses that none of them orders.",
      job("fifo_conc", "tsan", 1), job("graph_run", "tsan", 1, 24), job("sched", "tsan", 1, 24), job("libk", "tsan", 1, 24, mode="side"), job("topo", "tsan", 1, 8, mode="expr"), job("programs", "tsan", 0), secs=40)
