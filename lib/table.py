"""Which harness decides which property, and what the evidence says about it."""

ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN0 = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]   # much code, few runs: compile time counts
COMMON_ASSUMPTIONS = [
    "one run is one process-local execution: the code under test is the headers of /repo compiled unchanged into the simulator",
    "memory faults are std::bad_alloc from operator new; the simulator does not model an overcommitting kernel killing the process",
]
STUB = "global allocator, value type callbacks (simulated seams)"
HIST = "seeded histories and allocation/callback faults against a reference model"

# Concurrency: the code under test is instrumented with -fsanitize=thread and linked to sim/conc.cpp instead of libtsan.
CONC = ["-O1", "-g1", "-fsanitize=thread", "-DSIM_CONCURRENT", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + [
    "-mmemcpy-strategy=libcall:-1:align", "-mmemset-strategy=libcall:-1:align",
    "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp"]
WRAP = ["-Wl,--wrap=" + f for f in (
    "memcpy memmove memset memcmp pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_wrlock "
    "pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once pthread_self sched_yield nanosleep __cxa_allocate_exception "
    "__cxa_thread_atexit").split()]
OMP = ["-fopenmp", "-DMDDS_USE_OPENMP=1"]
THREADS = "seeded schedules of simulated threads, judged by a happens-before race detector and by single-threaded answers"
TSTUB = "threads and their scheduler, atomics, locks, one-time initialisation, thread-local storage, the global allocator (simulated)"
TASSUME = [
    "atomic operations and fences are executed one at a time in schedule order: the happens-before relation is computed, but a relaxed load never returns a stale value",
    "accesses are seen at the compiler's instrumentation points (gcc -fsanitize=thread, -O1); library code that is not compiled in is seen through wrapped calls only",
]

def conc(prop, real, *units):
    return dict(src="h_conc_main.cpp", flags=CONC + ["-DWITH_" + prop], plain=["sim.cpp", "conc.cpp"], libs=WRAP, technique=THREADS, stub=TSTUB,
                assume=TASSUME, real=real + " and the standard library templates they use (real code, instrumented)",
                units=[("sim.cpp", []), ("conc.cpp", []), ("h_conc_main.cpp", [])] + list(units))

H = {
    "fst": dict(src="h_fst.cpp", flags=ASAN, parts=[["-DPART=%d" % i] for i in range(5)], technique=HIST,
                real="flat_segment_tree, its iterators and its index builder (real code)", stub=STUB),
    "pqt": dict(src="h_pqt.cpp", flags=ASAN, technique=HIST, real="point_quad_tree, its search results and node access (real code)", stub=STUB),
    "segtree": dict(src="h_segtree.cpp", flags=ASAN, technique=HIST, real="segment_tree, its search results and index builder (real code)", stub=STUB),
    "trie": dict(src="h_trie.cpp", flags=ASAN, parts=[["-DPART=%d" % i] for i in range(8)], technique=HIST,
                 real="trie_map, packed_trie_map, their iterators, search results and serializers (real code)",
                 stub=STUB + "; storage behind std::iostream (simulated device)"),
    "mtv": dict(src="h_mtv.cpp", flags=ASAN0, thorough_flags=ASAN, simflags=["-O1"], parts=[["-DPART=%d" % i] for i in range(11)], technique=HIST,
                real="multi_type_vector in both layouts, its element blocks, stores and iterators (real code)",
                stub=STUB + ", event handler (simulated observer)"),
    "cow": dict(src="h_cow.cpp", flags=ASAN0, thorough_flags=ASAN, simflags=["-O1"], parts=[["-DPART=%d" % i] for i in range(6)], technique=HIST,
                real="multi_type_vector with copy-on-write, its element blocks, stores and iterators (real code)",
                stub=STUB + ", event handler (simulated observer)"),
    "matrix": dict(src="h_matrix.cpp", flags=ASAN0, thorough_flags=ASAN, simflags=["-O1"], parts=[["-DPART=%d" % i] for i in range(4)], technique=HIST,
                   real="multi_type_matrix and the multi_type_vector below it (real code)", stub=STUB),
    "ddv": dict(src="h_ddv.cpp", flags=ASAN, technique=HIST, real="delayed_delete_vector, the store behind element blocks (real code)", stub=STUB),
    "ssm": dict(src="h_ssm.cpp", flags=ASAN + ["-Wno-deprecated-declarations"], technique=HIST, real="sorted_string_map and its key finders (real code)", stub=STUB),
    "rtree": dict(src="h_rtree.cpp", flags=ASAN0, thorough_flags=ASAN, simflags=["-O1"], parts=[["-DPART=%d" % i] for i in range(5)], technique=HIST,
                  real="rtree, its bulk loader, search results and exporters (real code)", stub=STUB),
    "ctrees": conc("C01", "flat_segment_tree, segment_tree, point_quad_tree, rtree", ("h_conc_trees.cpp", [])),
    "cmtv": conc("C02", "multi_type_vector in both layouts, multi_type_matrix, mtv::collection", *[("h_conc_mtv.cpp", ["-DPART=%d" % i]) for i in range(3)]),
    "ctries": conc("C03", "trie_map, packed_trie_map, sorted_string_map", ("h_conc_tries.cpp", [])),
    "ccow": conc("M08", "multi_type_vector with copy-on-write", ("h_conc_cow.cpp", [])),
    "cexec": conc("M09", "multi_type_vector in both layouts, under an execution policy and with OpenMP,", *[("h_conc_exec.cpp", ["-DPART=%d" % i] + OMP) for i in range(4)]),
    "coll": dict(src="h_coll.cpp", flags=ASAN0, thorough_flags=ASAN, simflags=["-O1"], parts=[["-DPART=%d" % i] for i in range(4)], technique=HIST,
                 real="mtv::collection, its iterators and the multi_type_vectors below them (real code)", stub=STUB),
}

PROPS = {
    "F01": dict(h="fst"), "F02": dict(h="fst"), "F03": dict(h="fst"),
    "Q01": dict(h="pqt"), "Q02": dict(h="pqt"),
    "S01": dict(h="segtree"), "S02": dict(h="segtree"),
    "T01": dict(h="trie"), "T02": dict(h="trie"), "T03": dict(h="trie"), "T04": dict(h="trie"), "T05": dict(h="trie"),
    "M01": dict(h="mtv"), "M02": dict(h="mtv"), "M03": dict(h="mtv"), "M04": dict(h="mtv"), "M05": dict(h="mtv"),
    "M11": dict(h="mtv"), "M12": dict(h="ddv"),
    "M06": dict(h="cow"), "M07": dict(h="cow"),
    "X01": dict(h="matrix"), "X02": dict(h="matrix"),
    "M10": dict(h="coll"), "L01": dict(h="ssm"),
    "R01": dict(h="rtree"), "R02": dict(h="rtree"),
    "C01": dict(h="ctrees"), "C02": dict(h="cmtv"), "C03": dict(h="ctries"), "M08": dict(h="ccow"), "M09": dict(h="cexec"),
}
