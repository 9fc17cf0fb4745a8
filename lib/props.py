"""What each check runs. PROPS[id] = dict(runs=fn(tier, Run) -> list, probes=..., rule=...)"""

DRIVERS = {
    "patch": dict(src=["d_patch.cc"]),
    "scat": dict(src=["d_scat.cc"]),
    "nb": dict(src=["d_nb.cc"]),
    "sync": dict(src=["d_sync.cc"]),
    "query": dict(src=["d_query.cc"]),
    "atom": dict(src=["d_atom.cc"]),
    "ghost": dict(src=["d_ghost.cc"]),
    "alg": dict(src=["d_alg.cc"]),
    "mat": dict(src=["d_mat.cc"]),
    "mm": dict(src=["d_mm.cc"]),
    "coll": dict(src=["d_coll.cc"]),
    "ma": dict(src=["d_ma.cc"]),
    "life": dict(src=["d_life.cc"]),
    "tcg": dict(src=["d_tcg.cc"]),
    "dra": dict(src=["d_dra.cc"]),
    "eaf": dict(src=["d_eaf.cc"]),
    "scan": dict(src=["d_scan.cc"]),
    "sprs": dict(src=["d_sprs.cc"]),
    "solve": dict(src=["d_solve.cc"]),
    "bad": dict(src=["d_bad.cc"]),
    "thr": dict(src=["d_thr.cc"]),
    "gp": dict(src=["d_gp.cc"], parts=["ga", "gp"]),
    "prop": dict(src=["d_prop.cc"]),
    "lang": dict(src=["d_lang.cc"], parts=["ga", "gapp"]),
    "armci": dict(src=["d_armci.cc"], parts=["armci"]),
}
ALLRULE = ("cases are generated from VERIF_SEED and the case number by the driver's own generator; two cases are the "
           "same when their printed descriptions (group, type, dimensions, layout, parameters) and the sequences of operations process 0 performed in them are equal")
# direct copies off: every transfer of mpi-pr goes through messages
MSG = {"COMEX_ENABLE_%s_%s" % (o, w): "0" for o in ("PUT", "GET", "ACC") for w in ("SELF", "SMP")}


def msg(**k):
    return dict(MSG, **{a: str(b) for a, b in k.items()})


# message-path variants of mpi-pr: packing, vectors, datatypes, small static buffers, rendezvous
PRV = [
    msg(),
    msg(COMEX_ENABLE_PUT_PACKED=0, COMEX_ENABLE_GET_PACKED=0, COMEX_ENABLE_ACC_PACKED=0),
    msg(COMEX_ENABLE_PUT_PACKED=0, COMEX_ENABLE_GET_PACKED=0, COMEX_ENABLE_ACC_PACKED=0,
        COMEX_ENABLE_PUT_DATATYPE=0, COMEX_ENABLE_GET_DATATYPE=0),
    msg(COMEX_STATIC_BUFFER_SIZE=256, COMEX_EAGER_THRESHOLD=64, COMEX_MAX_MESSAGE_SIZE=512),
    msg(COMEX_ENABLE_PUT_IOV=0, COMEX_ENABLE_GET_IOV=0, COMEX_ENABLE_ACC_IOV=0, COMEX_MAX_NB_OUTSTANDING=1),
    msg(COMEX_PUT_DATATYPE_THRESHOLD=0, COMEX_GET_DATATYPE_THRESHOLD=0),
]
PORTS = ("ts", "pr", "mt", "pt", "mpi3")


def np_for(port, n):
    return n + 1 if port == "pr" else n


def ports_sweep(R, driver, n, tier, nproc=4, san="plain", lo=100000, mode="", prv=True):
    """thorough: every port, several process counts, every mpi-pr message path"""
    out = []
    for port in PORTS:
        for k, q in enumerate((2, nproc, 7)):
            out.append(R(driver, port, san, np_for(port, q), n, lo=lo + 10000 * k, mode=mode))
    if prv:
        for k, e in enumerate(PRV):
            out.append(R(driver, "pr", san, nproc + 1, n, e, lo=lo + 100000 + 10000 * k, mode=mode))
        out.append(R(driver, "pr", san, nproc + 3, n, dict(MSG, GA_NUM_PROGRESS_RANKS_PER_NODE="2"), lo=lo + 300000, mode=mode))
        out.append(R(driver, "pr", san, nproc + 3, n, dict(MSG, GA_NUM_PROGRESS_RANKS_PER_NODE="2",
                                                           GA_PROGRESS_RANKS_DISTRIBUTION_CYCLIC="1"), lo=lo + 310000, mode=mode))
    return out


PROPS = {}


def prop(pid, driver, quick, thorough_n=3000, note="", technique="", parts=None, floors=None, probes=None, prv=True,
         extra_thorough=None, **kw):
    def runs(t, R):
        rs = quick(R)
        if t == "thorough":
            for r in rs:
                r.n_thorough = r.n * 10
            if driver:
                for r in ports_sweep(R, driver, thorough_n, t, prv=prv):
                    r.n_thorough = r.n
                    rs.append(r)
            if extra_thorough:
                for r in extra_thorough(R):
                    r.n_thorough = r.n
                    rs.append(r)
        return rs
    PROPS[pid] = dict(runs=runs, rule=ALLRULE, technique=technique, note=note, floors=floors or {}, level="exploration",
                      **({"probes": probes} if probes else {}), **kw)


def probe(r, name):
    """a run of the inputs of one known finding"""
    r.probe = name
    return r


TRM = "runtime monitoring: seeded parallel workloads on the real library, "
prop("C01", "patch", lambda R: [
    R("patch", "ts", "plain", 4, 3000),
    R("patch", "ts", "plain", 6, 1200, lo=3000),
    R("patch", "pr", "plain", 5, 600, lo=6000),
    R("patch", "pr", "plain", 5, 600, PRV[0], lo=7000),
    R("patch", "pr", "plain", 5, 300, PRV[2], lo=8000),
    R("patch", "pr", "plain", 4, 300, PRV[3], lo=9000),
], technique=TRM + "online comparison with a replicated sequential array model",
    note="Random conflict-free programs of put/get/acc over all layouts, types, groups; every get, the final contents by get "
         "and by direct access, buffer frames and source buffers are compared with a sequential model. Quick runs mpi-ts and "
         "mpi-pr (direct and message paths); thorough all five runtimes. Sampled, not exhaustive.",
    floors={"elements_compared": 1000000, "puts": 5000, "gets": 5000, "accs": 3000})

prop("C02", "scat", lambda R: [
    R("scat", "ts", "plain", 4, 1500),
    R("scat", "ts", "plain", 6, 500, lo=3000),
    R("scat", "pr", "plain", 5, 300, lo=6000),
    R("scat", "pr", "plain", 5, 300, PRV[0], lo=7000),
    R("scat", "pr", "plain", 5, 200, PRV[2], lo=8000),
    R("scat", "pr", "plain", 4, 200, PRV[3], lo=9000),
    R("scat", "pr", "plain", 4, 200, PRV[4], lo=9500),
], thorough_n=800, technique=TRM + "online comparison with a replicated sequential array model",
    note="Random programs mixing scatter, gather, scatter-accumulate, strided, periodic, field and patch operations on every layout, "
         "type and group, 32- and 64-bit, flat and pointer index lists; gathers and gets are compared element-wise, the final contents by get and by direct "
         "access, index lists, source buffers and buffer frames for changes. Sampled, not exhaustive.",
    floors={"elements_compared": 200000})
prop("C03", "nb", lambda R: [
    R("nb", "ts", "plain", 4, 1000),
    R("nb", "pr", "plain", 5, 400, lo=2000),
    R("nb", "pr", "plain", 5, 400, PRV[0], lo=3000),
    R("nb", "pr", "plain", 6, 300, dict(PRV[2], COMEX_MAX_NB_OUTSTANDING="3"), lo=4000),
    R("nb", "pr", "plain", 4, 300, PRV[3], lo=5000),
    R("nb", "pr", "plain", 4, 300, PRV[4], lo=6000),
    R("nb", "mpi3", "plain", 4, 300, lo=7000),
], thorough_n=600, technique=TRM + "completion monitor: data and source reuse checked at the moment each handle completes",
    note="Random issue/wait/test histories with up to 320 handles per process, completed in random order and mixed with blocking transfers and "
         "synchronisation; at each completion the get buffer is compared and the source overwritten. Sampled, not exhaustive.",
    floors={"waits": 3000, "nb_elements_compared": 100000, "tests_complete": 500})

prop("C04", "atom", lambda R: [
    R("atom", "ts", "plain", 4, 700),
    R("atom", "ts", "plain", 7, 300, lo=2000),
    R("atom", "pr", "plain", 5, 300, lo=3000),
    R("atom", "pr", "plain", 5, 300, PRV[0], lo=4000),
    R("atom", "pr", "plain", 5, 200, PRV[2], lo=5000),
    R("atom", "pr", "plain", 5, 200, PRV[3], lo=6000),
    R("atom", "pr", "plain", 5, 200, PRV[4], lo=7000),
], thorough_n=400, technique=TRM + "lost-update, increment-history and mutual-exclusion monitors",
    note="Hot-spot accumulates of every kind with exact totals; read-increment histories checked offline for one total order consistent with real time; "
         "critical sections watched by a shared-memory owner monitor and a version region. Interleavings are sampled with injected delays.",
    floors={"critical_sections": 500, "read_incs": 10000, "rdinc_overlaps": 100, "elements_accumulated": 100000},
    probes=lambda t, R: [("K01", probe(R("atom", "ts", "plain", 2, 20), "bigint"))])

prop("C05", "sync", lambda R: [
    R("sync", "ts", "plain", 4, 800),
    R("sync", "ts", "plain", 7, 300, lo=2000),
    R("sync", "pr", "plain", 5, 300, lo=3000),
    R("sync", "pr", "plain", 5, 300, PRV[0], lo=4000),
    R("sync", "pr", "plain", 5, 200, PRV[2], lo=5000),
    R("sync", "pr", "plain", 5, 200, PRV[3], lo=6000),
    R("sync", "pr", "plain", 5, 200, PRV[4], lo=7000),
    R("sync", "pt", "plain", 4, 200, lo=8000),
], thorough_n=400, technique=TRM + "visibility, fence-flag, barrier-entry and program-order monitors",
    note="Writers with injected delays, masks, groups, fences with flags raised out of band in shared memory, per-process overlapping histories, and a barrier-entry "
         "monitor (nobody leaves before all entered). Interleavings are sampled.",
    floors={"fences": 200, "barriers": 500})

prop("C06", "query", lambda R: [
    R("query", "ts", "plain", 4, 1500),
    R("query", "ts", "plain", 7, 500, lo=2000),
    R("query", "ts", "plain", 1, 200, lo=3000),
    R("query", "ts", "asan", 4, 200, lo=3500),
    R("query", "pr", "plain", 5, 400, lo=4000),
], thorough_n=600, prv=False, technique=TRM + "partition monitor: every query answered by an independently computed partition",
    note="For every generated array the ranges are painted on the index space (disjoint, complete, as asked for) and each query (locate, regions, blocks, grids, "
         "topology, access pointers and leading dimensions, segments) is compared with that painting; data is read and written through every direct access.",
    floors={"partitions": 1500, "locates": 20000, "regions": 5000, "elements_direct": 200000, "segments": 500})

prop("C07", "ghost", lambda R: [
    R("ghost", "ts", "plain", 4, 1200),
    R("ghost", "ts", "plain", 6, 400, lo=2000),
    R("ghost", "ts", "plain", 1, 100, lo=3000),
    R("ghost", "pr", "plain", 5, 200, lo=4000),
    R("ghost", "pr", "plain", 5, 200, PRV[0], lo=5000),
    R("ghost", "pr", "plain", 5, 150, PRV[3], lo=6000),
], thorough_n=400, technique=TRM + "per-cell ghost monitor against the periodic model",
    note="Every process marks its ghost cells, runs one of the blocking, non-blocking, directional or variant updates and checks every cell of its extended block: "
         "covered cells hold the periodic neighbour, uncovered cells and owned cells are untouched; ghost-block and ghost-element access are checked too.",
    floors={"ghost_cells_checked": 300000, "updates": 200, "nb_updates": 100, "dir_updates": 200, "dir_gets": 500})

prop("C08", "alg", lambda R: [
    R("alg", "ts", "plain", 4, 420),
    R("alg", "ts", "plain", 7, 120, lo=2000),
    R("alg", "ts", "plain", 1, 100, lo=3000),
    R("alg", "pr", "plain", 5, 100, lo=4000),
    R("alg", "pr", "plain", 5, 60, PRV[0], lo=5000),
    R("alg", "ts", "asan", 3, 60, lo=6000),
], thorough_n=400, technique=TRM + "element-wise comparison with the sequential result",
    note="After every operation each array is compared as a whole with the sequentially computed result, through gets and through direct access; "
         "arrays that should not change are compared too. Integer-valued operands make every result except quotients exact.",
    floors={"elements_compared": 200000, "copy": 50, "copy_trans": 10, "copy_reshape": 10, "copy_patch": 30, "add": 100, "elem2": 100,
            "elem1": 50, "median": 20, "zero": 20, "fill": 20, "scale": 20, "cross_get": 20})

prop("C09", "mat", lambda R: [
    R("mat", "ts", "plain", 4, 1600),
    R("mat", "ts", "plain", 7, 400, lo=2000),
    R("mat", "ts", "plain", 1, 300, lo=3000),
    R("mat", "pr", "plain", 5, 300, lo=4000),
    R("mat", "ts", "asan", 3, 200, lo=6000),
], thorough_n=300, technique=TRM + "comparison with the sequential definition of each matrix operation",
    note="Every operation's stored result is compared as a whole with the sequential definition (and operands that should not change too); returned "
         "values (norms, selected elements and their position, step lengths) are compared with the sequential value, with ties, zeros, negatives and empty processes.",
    floors={"get_diag": 20, "set_diagonal": 20, "scale_rows": 20, "scale_cols": 20, "norm1": 20, "norm_infinity": 20, "select": 100, "symmetrize": 30, "step_max": 20, "step_bound": 20})

prop("C10", "mm", lambda R: [
    R("mm", "ts", "plain", 4, 1800),
    R("mm", "ts", "plain", 7, 400, lo=2000),
    R("mm", "ts", "plain", 1, 150, lo=3000),
    R("mm", "pr", "plain", 5, 200, lo=4000),
    R("mm", "pr", "plain", 5, 100, PRV[0], lo=5000),
    R("mm", "ts", "asan", 3, 120, lo=6000),
], thorough_n=400, technique=TRM + "exact comparison with the sequential product of integer-valued operands",
    note="Operands hold small integers, so every product is exact and compared element by element with the sequential one: all of C (inside and outside the patch), A and B; "
         "transposes, scalars (zero with NaN in C, one, imaginary), degenerate and chunk-crossing sizes, patches, layouts, groups.",
    floors={"gemm": 200, "matmul_patch": 200, "nga_matmul_patch": 200, "nga_matmul_patch_alt": 200, "transposed": 300, "blockcyclic": 60, "nan_beta_zero": 50, "big": 5, "groups": 100})

prop("C12", "coll", lambda R: [
    R("coll", "ts", "plain", 4, 500),
    R("coll", "ts", "plain", 7, 200, lo=2000),
    R("coll", "ts", "plain", 1, 60, lo=3000),
    R("coll", "pr", "plain", 5, 200, lo=4000),
    R("coll", "pr", "plain", 8, 80, PRV[0], lo=5000),
    R("coll", "ts", "asan", 3, 60, lo=6000),
], thorough_n=300, technique=TRM + "comparison of every member's result with the sequential reduction, barrier-entry monitor",
    note="Random trees of nested groups (create, split, split by colour, duplicate, self, destroy) whose queries are checked against the replicated membership; "
         "reductions of every type, operator and length, broadcasts from any root and barriers run at the same time in disjoint groups, through handles, default groups and "
         "on the world while a default group is set. Interleavings are sampled with injected delays.",
    floors={"gops": 2000, "brdcsts": 1000, "group_syncs": 1000, "create": 500, "split": 300, "split_irreg": 300, "duplicate": 150, "destroy": 50, "concurrent_groups": 1500, "world_under_default": 400})

prop("C14", "scan", lambda R: [
    R("scan", "ts", "plain", 4, 1400),
    R("scan", "ts", "plain", 7, 400, lo=2000),
    R("scan", "ts", "plain", 1, 40, lo=3000),
    R("scan", "ts", "plain", 3, 400, lo=10000),
    R("scan", "pr", "plain", 5, 200, lo=4000),
    R("scan", "pr", "plain", 4, 150, PRV[0], lo=5000),
    R("scan", "ts", "asan", 3, 250, lo=6000),
], thorough_n=400, technique=TRM + "sequential definition of every scan, pack, enumeration and binning, exact comparison; memory in use after binning",
    note="Flag patterns include none, all, single, sparse, periodic and flags only at the first or last elements of the processes' blocks; ranges begin and end at block boundaries; every pair of "
         "element and flag type; bins with and without empty ones, more bins than one message holds, and bins held by other processes than their offsets. Block-cyclic and ghost layouts are not used (the operations need the plain distribution).",
    floors={"scan_copy": 500, "scan_add": 500, "pack": 500, "unpack": 500, "patch_enum": 500, "bins": 20000, "masks": 800})

prop("C15", "sprs", lambda R: [
    R("sprs", "ts", "plain", 4, 500),
    R("sprs", "ts", "plain", 6, 150, lo=2000),
    R("sprs", "ts", "plain", 1, 40, lo=3000),
    R("sprs", "ts", "plain", 3, 150, lo=10000),
    R("sprs", "pr", "plain", 5, 100, lo=4000),
    R("sprs", "pr", "plain", 4, 80, PRV[0], lo=5000),
    R("sprs", "ts", "asan", 3, 80, lo=6000),
], thorough_n=400, technique=TRM + "dense sequential model of every sparse operation, exact comparison of the stored pattern and values",
    note="Random, banded, single-row, single-column, corner, full and periodic patterns (so that processes, rows and column blocks without elements occur), elements added by random, one or the owning "
         "process in random order, stored zeros, rectangular shapes, subgroups, both index sizes, all types, C and Fortran order of the dense operands. Shapes have at least as many rows and columns, and "
         "arrays at least as many elements, as there are processes (the library refuses less); no element is added twice.",
    floors={"assemble": 400, "matmat": 40, "sprsdns": 40, "dnssprs": 40, "matvec": 40, "duplicate": 40, "get_column": 40, "from_dense": 40, "from_sparse": 40, "export": 40, "sketch": 40, "get_diag": 40, "scale": 40, "shift_diag": 40, "diag_left": 40, "diag_right": 40, "get_block": 5000})

prop("C16", "ma", lambda R: [
    R("ma", "ts", "plain", 6, 350),
    R("ma", "ts", "asan", 4, 150, lo=4000),
], thorough_n=3000, technique=TRM + "model of the live blocks, exact allocation probes at the promised size and content/guard monitors",
    note="Each case runs one allocator history (up to 900 operations) in a forked process with its own nominal sizes; the model knows the live blocks, their "
         "contents and the stack order, and every inquiry is compared with bounds that follow from them and, where the documentation promises an amount, with a trial allocation. "
         "Iterators over memory handles and MA statistics are not implemented or not compiled in and are not checked.",
    floors={"histories": 2000, "heap_allocs": 60000, "stack_allocs": 60000, "promises": 20000, "bounds": 15000, "guards": 8000, "misuses": 8000, "pieces": 5000, "chops": 3000, "stack_overgrown": 500, "aligned": 10000, "huge": 500})

prop("C13", "life", lambda R: [
    R("life", "ts", "plain", 4, 300),
    R("life", "ts", "plain", 7, 80, lo=2000),
    R("life", "ts", "plain", 1, 60, lo=3000),
    R("life", "pr", "plain", 5, 80, lo=4000),
    R("life", "pr", "plain", 4, 40, PRV[0], lo=5000),
    R("life", "ts", "asan", 3, 60, lo=6000),
    R("life", "ts", "plain", 4, 60, lo=7000, mode="leak"),
    R("life", "pr", "plain", 4, 40, lo=8000, mode="leak"),
    R("life", "ts", "plain", 4, 25, lo=9000, mode="cycle"),
], thorough_n=200, technique=TRM + "model of the live arrays: handles, metadata, contents, memory in use and room under the limit after every step; heap growth over repeated histories",
    note="Random histories of every way to create, duplicate, overlay, deallocate, assemble and destroy arrays on the world and on groups, with limits hit, properties and handles that never get "
         "memory; every live array is checked against the model after the steps. A history run eight times must not keep taking heap memory (arrays, not process groups, whose creation leaks inside Open MPI). "
         "Initialising again after terminating is exercised on the runtimes without progress ranks only.",
    floors={"histories": 500, "handles": 3000, "memory_checked": 8000, "avail_checked": 1000, "meta_checked": 30000, "content_checked": 10000, "refused": 300, "overlays": 200,
            "overlays_refused": 20, "deallocates": 100, "reallocates": 100, "unallocated": 200, "property_read_only": 80, "duplicates_of_overlays": 20, "assembled": 80, "leak_histories": 300, "cycles": 80})

prop("C19", "armci", lambda R: [
    R("armci", "ts", "plain", 4, 300),
    R("armci", "ts", "plain", 7, 90, lo=2000),
    R("armci", "pr", "plain", 5, 80, lo=4000),
    R("armci", "pr", "plain", 4, 60, PRV[0], lo=5000),
    R("armci", "pr", "plain", 5, 60, PRV[2], lo=6000),
    R("armci", "pr", "plain", 4, 60, PRV[3], lo=7000),
    R("armci", "pr", "plain", 5, 60, PRV[4], lo=8000),
    R("armci", "mpi3", "plain", 4, 80, lo=9000),
    R("armci", "mt", "plain", 4, 30, lo=10000),
    R("armci", "pt", "plain", 4, 30, lo=11000),
    R("armci", "ts", "asan", 3, 50, lo=12000),
], thorough_n=400, technique=TRM + "byte-exact replicated model of the registered memory; shared-memory monitors of mutual exclusion, barriers and read-modify-write tickets",
    note="Random conflict-free programs of contiguous, strided (arbitrary, permuted and overlapping-read strides, up to seven levels), vector and value puts, gets and accumulates through the blocking, "
         "non-blocking, implicit-handle and comex entry points, with fences, mutexes, read-modify-writes, groups, messages and reductions between them; the memory of every process is compared byte by "
         "byte with the model after every epoch. Quick runs all five transports. mpi3 has no mutexes and takes global ranks in its comex calls.",
    floors={"bytes_compared": 1000000, "rmws": 500, "critical_sections": 200, "gops": 200, "messages": 200, "nonblocking": 500, "groups": 200})

prop("C20", "tcg", lambda R: [
    R("tcg", "ts", "plain", 4, 300),
    R("tcg", "ts", "plain", 7, 100, lo=2000),
    R("tcg", "ts", "plain", 1, 30, lo=3000),
    R("tcg", "pr", "plain", 5, 120, lo=4000),
    R("tcg", "ts", "asan", 3, 60, lo=5000),
    R("tcg", "mpi3", "plain", 4, 60, lo=6000),
    R("tcg", "mt", "plain", 4, 40, lo=7000),
    R("tcg", "pt", "plain", 4, 40, lo=8000),
], thorough_n=600, prv=False, technique=TRM + "message-history checker (content, order, exactly once), shared-memory monitors of counter values and barrier entry, reference reductions",
    note="Deadlock-free random message schedules (blocking, asynchronous and wildcard, probed, delayed, to self, up to 260 kB) whose every message is identified and compared; the buffers of asynchronous "
         "sends are overwritten as soon as WAITCOM returns; counter values are entered into a shared table; reductions longer than the internal buffer; file copies. C and Fortran entry points.",
    floors={"messages": 5000, "wildcards": 800, "async_sends": 2000, "async_receives": 1500, "probes": 500, "nxtvals": 20000, "gops": 1000, "brdcsts": 300, "synchs": 300, "file_copies": 50, "leftover_checks": 1000})

prop("C17", "dra", lambda R: [
    R("dra", "ts", "plain", 4, 120),
    R("dra", "ts", "plain", 7, 50, lo=2000),
    R("dra", "ts", "plain", 1, 50, lo=3000),
    R("dra", "pr", "plain", 5, 60, lo=4000),
    R("dra", "pr", "plain", 4, 40, PRV[0], lo=5000),
    R("dra", "ts", "asan", 3, 40, lo=6000),
], thorough_n=400, prv=True, technique=TRM + "model of every disk array and global array, compared after every completed request and after closing and reopening; descriptor leak monitor",
    note="Histories over several DRA lives: arrays of one to seven dimensions and six types with every chunk hint, file and I/O-process configuration, whole-array and section reads and writes, transposed "
         "ones, up to five pending overlapping requests probed and awaited in any order, reopening with every mode, deletion, inquiries and opens of nothing, through the C and Fortran entry points. "
         "All files lie in a scratch directory. Only independent-file and one-file layouts reachable on one node are exercised.",
    floors={"creates": 1500, "configs": 700, "opens": 250, "closes": 500, "deletes": 250, "reads": 1200, "writes": 1800, "transposed": 600, "overlapped": 600, "probed": 1500, "waits": 2200, "disk_checked": 1800, "elements_compared": 20000000, "inquiries": 3000, "opens_of_nothing": 300})

prop("C18", "eaf", lambda R: [
    R("eaf", "ts", "plain", 4, 1000),
    R("eaf", "ts", "plain", 1, 150, lo=2000),
    R("eaf", "ts", "plain", 7, 250, lo=3000),
    R("eaf", "pr", "plain", 5, 400, lo=4000),
    R("eaf", "ts", "asan", 3, 150, lo=6000),
], thorough_n=3000, prv=False, technique=TRM + "byte model of every file (known and unknown bytes), compared on every read and with the disk after closing; short, interrupted and failing system calls injected under the library",
    note="Exclusive files: histories of up to 120 opens, reads, writes, asynchronous transfers, probes, truncations, closes and deletions per process on disk and memory files, over windows beyond 2 and 4 GB, "
         "through the C and Fortran entry points. Shared files: epochs in which the processes write disjoint pieces and read quiet ones at the same time. read and write are interposed in the driver. "
         "No asynchronous I/O is compiled in here, so requests complete when issued.",
    floors={"bytes_compared": 300000000, "disk_compared": 7000, "eaf_async": 4000, "eaf_closes": 4000, "eaf_deletes": 800, "eaf_eofs": 2000, "eaf_hard_faults": 400, "eaf_mem_opens": 1000, "eaf_probes": 400, "eaf_reads": 9000, "eaf_refused": 6000, "eaf_truncates": 1500, "eaf_writes": 9000, "sf_concurrent": 1000, "sf_creates": 2500, "sf_eofs": 1800, "sf_epochs": 5000, "sf_reads": 15000, "sf_reopens": 400, "sf_rwtors": 600, "sf_waits": 6000})

prop("C11", "solve", lambda R: [
    R("solve", "ts", "plain", 4, 700),
    R("solve", "ts", "plain", 7, 200, lo=2000),
    R("solve", "ts", "plain", 1, 200, lo=3000),
    R("solve", "ts", "plain", 4, 30, lo=3500, mode="big"),
    R("solve", "pr", "plain", 5, 200, lo=4000),
    R("solve", "pr", "plain", 4, 100, PRV[0], lo=5000),
    R("solve", "ts", "asan", 3, 100, lo=6000),
], thorough_n=600, technique=TRM + "residual, order and orthonormality oracles on every solution; error exits intercepted for singular and indefinite input",
    note="LU solves (plain and transposed, one to twelve right-hand sides, needing pivoting, scaled over six decades) through all Fortran and C entry points compared with the known solution; eigenvalues of matrices "
         "with known, repeated and zero spectra; generalised problems; inputs compared bit by bit afterwards. Orders 1 to 32 (120 in the big runs). ScaLAPACK and PeIGS, and with them llt_solve, solve, spd_invert and diag, are not built here.",
    floors={"eigenpairs": 3000, "solutions": 2000, "singular_refused": 20, "indefinite_refused": 15})

prop("C24", "bad", lambda R: [
    R("bad", "ts", "plain", 4, 500),
    R("bad", "ts", "plain", 7, 100, lo=2000),
    R("bad", "ts", "plain", 1, 150, lo=3000),
    R("bad", "pr", "plain", 5, 120, lo=4000),
    R("bad", "pr", "plain", 4, 80, PRV[0], lo=5000),
    R("bad", "ts", "asan", 3, 100, lo=6000),
], thorough_n=500, technique=TRM + "the library's error exit is intercepted; acceptance is a violation, and after each refusal all arrays and the caller's buffer are compared with the model",
    note="Valid calls of about 70 one-sided, query and collective operations with one argument corrupted (a bound below, above or beyond the array or reversed, a subscript, a destroyed or unknown array handle, a type, shape, "
         "rank, length, operator, mutex number or group member) on every layout, then ordinary use of the same arrays. Reversed bounds in collective patch operations may also be taken as nothing to do. "
         "Invalid group handles and process numbers, which the library does not look at, are left out.",
    floors={"refused": 3000, "bad_queries": 300, "elements_compared": 100000})

prop("C23", "thr", lambda R: [
    R("thr", "ts", "plain", 4, 250),
    R("thr", "pr", "plain", 5, 120, lo=1000),
    R("thr", "pr", "plain", 4, 60, PRV[0], lo=1500),
    R("thr", "ts", "tsan", 3, 60, lo=2000),
    R("thr", "pr", "tsan", 4, 40, lo=3000),
    R("thr", "ts", "tsan", 1, 30, lo=3500),
    R("thr", "pt", "plain", 3, 40, lo=4000),
    R("thr", "ts", "asan", 3, 40, lo=5000),
], thorough_n=300, technique="ThreadSanitizer on library and driver under concurrent threads; " + TRM + "exactly-once counter tickets",
    note="Two to five threads in each process issue random blocking and non-blocking puts, gets, accumulates, read-increments, waits and location queries on shared arrays (no conflicting accesses within an epoch), with random "
         "yields and delays; the outcome is compared with the sequential model, and ThreadSanitizer watches every access of library and driver (not those inside MPI). Strided, scatter and gather calls and NGA_NbTest take no lock and are not meant for threads.",
    floors={"thread_epochs": 2000, "nonblocking": 1500, "puts": 800, "accs": 1500, "read_incs": 3000, "tickets": 5000})

# C22: every driver under address and undefined-behaviour sanitizers, with its own case numbers
MEMDRV = [("patch", 60), ("scat", 50), ("nb", 30), ("atom", 20), ("sync", 30), ("query", 40), ("ghost", 20), ("alg", 60), ("mat", 40), ("mm", 40),
          ("coll", 20), ("ma", 120), ("life", 25), ("dra", 20), ("eaf", 60), ("scan", 60), ("sprs", 40), ("solve", 60), ("bad", 40), ("armci", 30), ("tcg", 25)]
UAR = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:halt_on_error=1:handle_segv=1:allocator_may_return_null=1:"
                       "detect_stack_use_after_return=1:log_path=$OUT/asan"}


def memruns(R):
    out = [R(d, "ts", "asan", 3 if k % 2 else 4, n, UAR if k % 3 == 0 else {}, lo=700000) for k, (d, n) in enumerate(MEMDRV)]
    for k, d in enumerate(("patch", "scat", "nb", "atom", "ghost")):
        out.append(R(d, "pr", "asan", 4, 20, PRV[k] if k < len(PRV) else {}, lo=710000))
    return out


def memdeep(R):
    out = []
    for k, (d, n) in enumerate(MEMDRV):
        for j, (port, q) in enumerate((("ts", 1), ("ts", 2), ("ts", 6), ("pr", 4), ("pr", 6), ("mt", 3), ("pt", 3), ("mpi3", 3))):
            if d in ("armci", "tcg") and port == "pr" and q == 6:
                continue
            out.append(R(d, port, "asan", q, n * 4, PRV[(k + j) % len(PRV)] if port == "pr" else {}, lo=720000 + 1000 * j))
    return out


prop("C21", "lang", lambda R: [
    R("lang", "ts", "plain", 4, 700),
    R("lang", "ts", "plain", 5, 300, lo=1000),
    R("lang", "pr", "plain", 5, 200, lo=2000),
    R("lang", "ts", "asan", 3, 120, lo=3000),
    R("lang", "ts", "plain", 1, 100, lo=4000),
], thorough_n=4000, technique=TRM + "differential testing of the language interfaces on shared arrays",
    note="Every array is created, queried, accessed, combined and destroyed through the 32- and 64-bit C interfaces, the Fortran entry points (nga_ and two-dimensional ga_ names, called with the compiler's conventions) and the "
         "C++ classes in turn. One-sided operations are compared with the replicated model, collective ones with the 32-bit C call on a copy, queries with each other. Entry points that need Fortran complex "
         "function results and C_LONGLONG arrays are left out; the two-dimensional GA_Matmul_patch of C counts subscripts as Fortran does.",
    floors={"creates": 2500, "names": 10000, "distributions": 50000, "locates": 50000, "onesided": 2000, "collectives": 1500, "elements_compared": 500000})

prop("C22", None, memruns, technique=TRM + "AddressSanitizer and UndefinedBehaviorSanitizer over every workload, canary frames around caller buffers",
     note="The workloads of all other checks on instrumented builds of every layer, with case numbers of their own, every heap, stack and global access of library and driver checked; Fortran LAPACK is "
          "not instrumented, shared-memory blocks are guarded only by the content checks. Leaks, uninitialised reads and alignment are not judged.",
     only_keys=r"(asan|ub):|.*(frame|overrun|guard)", extra_thorough=memdeep,
     floors={"elements_compared": 100000, "cases": 400})

prop("C26", "prop", lambda R: [
    R("prop", "ts", "plain", 4, 240),
    R("prop", "pr", "plain", 5, 160, lo=1000),
    R("prop", "ts", "asan", 3, 60, lo=2000, mode="san"),
    R("prop", "ts", "plain", 1, 80, lo=3000),
    R("prop", "pr", "plain", 4, 80, PRV[0], lo=4000),
], thorough_n=1500, technique=TRM + "replicated array model, heap accounting of the read cache, canary frames",
    note="Arrays of every layout the property accepts are read under read_cache or read_only by get (repeated, contained and overlapping sections, leading dimensions), non-blocking, strided, periodic and scattered gets and direct access, "
         "the property is removed or the array destroyed with it, rewritten and read again. The heap shows that the cache stays bounded and is released. All processes are on one node here, so read_only copies are "
         "redistributed but not replicated.",
    floors={"gets": 3000, "nbgets": 400, "gathers": 400, "strided_gets": 400, "periodic_gets": 400, "read_cache_set": 300, "read_only_set": 300, "cache_fills": 10, "cache_leak_checks": 4, "elements_compared": 500000})


SUBDRV = [("patch", 120), ("scat", 80), ("nb", 60), ("sync", 30), ("query", 40), ("atom", 40), ("ghost", 30), ("alg", 40), ("mm", 40), ("coll", 60), ("life", 40), ("scan", 30), ("sprs", 20), ("solve", 15), ("prop", 20)]


def subruns(R):
    out = []
    for k, (d, n) in enumerate(SUBDRV):
        q = 4 + k % 3
        out.append(R(d, "ts", "plain", q, n, {"MON_SUB": str(1 + k % (q - 1))}, lo=800000))
        if k % 2 == 0:
            out.append(R(d, "pr", "plain", 7, n // 2, dict(PRV[k // 2 % len(PRV)] if k % 4 == 0 else {}, MON_SUB=str(3 + k % 4 // 2)), lo=810000))
    return out


def subdeep(R):
    out = []
    for k, (d, n) in enumerate(SUBDRV):
        for j, (port, q, a) in enumerate((("ts", 6, 3), ("ts", 8, 5), ("ts", 2, 1), ("pr", 8, 4), ("pr", 6, 2), ("mt", 5, 2), ("pt", 5, 2))):
            out.append(R(d, port, "plain", q, n * 6, dict(PRV[(k + j) % len(PRV)] if port == "pr" else {}, MON_SUB=str(a)), lo=820000 + 1000 * j))
    return out


prop("C27", None, subruns, technique=TRM + "the replicated models of the other checks, run in two library instances at once",
     note="The processes are divided at random, and in random order, into two communicators; the library is initialised over each, and both instances run different histories of the other checks' workloads at the same time "
          "(one usually ends first). Instances with shared memory and message transfers on mpi-ts and mpi-pr; mpi-mt and mpi-pt in the thorough tier.",
     extra_thorough=subdeep, floors={"elements_compared": 300000, "cases": 60, "instances_on_communicators": 40})

prop("C25", "gp", lambda R: [
    R("gp", "ts", "plain", 4, 700),
    R("gp", "ts", "plain", 6, 250, lo=1000),
    R("gp", "ts", "asan", 3, 150, lo=2000),
    R("gp", "ts", "plain", 1, 100, lo=3000),
], thorough_n=4000, technique=TRM + "canary frames around every list and buffer",
    note="Objects of 0 to 9000 bytes are assigned, overwritten by patch (with leading dimensions) and by list, zeroed, changed in place, freed and re-assigned; after every epoch they are fetched by patch, list and direct access and "
         "compared byte for byte. The part only works where the owner serves remote accesses (mpi-ts, mpi-mt): on mpi-pr and mpi-pt local segments are not reachable, which is left out.",
    floors={"gets": 1000, "puts": 500, "gathers": 1000, "scatters": 300, "objects_compared": 30000, "assigned": 10000, "memzeros": 100},
    extra_thorough=lambda R: [R("gp", "mt", "plain", 4, 400, lo=50000)])
