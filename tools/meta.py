"""Property texts; writes properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))


B, O, I, N, NP, E = ("global/src/base.c", "global/src/onesided.c", "global/src/iterator.c", "global/src/global.nalg.c",
                     "global/src/global.npatch.c", "global/src/elem_alg.c")
PROPS = [
    P("C01", "Patch put, get and accumulate act on one shared array",
      "For every array (element type, number of dimensions, extents, distribution, ghost widths, processor group) and every patch inside its bounds, "
      "put, get and accumulate through the 32-bit and 64-bit interfaces with any leading dimensions have exactly the effect of the same operations on one sequential array, after the next synchronisation. "
      "A get writes exactly the requested patch of the caller's buffer, a put or accumulate leaves the caller's buffers unchanged, and elements outside the patch keep their values.",
      ["inputs", "configurations", "programs", "schedules"],
      "all arrays x distributions x patches x leading dimensions x groups x sequences of conflict-free operations by all processes",
      "The tests use a few fixed shapes on regular distributions over the world group; the product of layouts, uneven blocks, empty processors, types, groups and patches is unbounded.",
      [O, I, B, "global/src/decomp.c", "global/src/datatypes.c"],
      [("patch iterator splits a patch by owner", I), ("ngai_put_common/ngai_get_common/ngai_acc_common", O), ("strided transfers", "comex/src-mpi/comex.c, comex/src-mpi-pr/comex.c")],
      [("GA[]", "per-array distribution and block pointers", B)], ["NGA_Put/Get/Acc and NGA_Access"]),
    P("C02", "Scatter, gather, strided, periodic and field access match the array",
      "Gather, scatter, scatter-accumulate, strided, periodic (wrapped) and field-of-struct put/get/accumulate have exactly the effect of the corresponding element-wise operations on one sequential array, for every index list (any order, repeats allowed for gather and accumulate), stride, wrapped range and field. "
      "Caller buffers and index lists are left as they were apart from the requested output elements.",
      ["inputs", "configurations", "programs"],
      "all arrays x distributions x index lists, skips, out-of-range wrapped patches, registered types and fields",
      "Existing tests scatter and gather one pattern on one layout and check only regular strides.",
      [O, "global/src/global.periodic.c", "global/src/hsort.scat.c", "global/src/datatypes.c"],
      [("sorting element lists by owner and vector transfers", O), ("splitting wrapped patches", "global/src/global.periodic.c"), ("field offsets in registered types", O)],
      (), ["NGA_Scatter/Gather/Scatter_acc/Strided_*/Periodic_*/Put_field/Get_field"]),
    P("C03", "Non-blocking operations equal blocking ones once waited for",
      "A non-blocking put, get or accumulate that has been waited for (or for which a test reported completion) has had exactly the effect of its blocking counterpart: a get's buffer holds the data, and a put's or accumulate's source may be reused or overwritten at once. "
      "This holds for any number of handles outstanding, completed in any order, mixed with blocking operations and synchronisation, whatever the internal handle and buffer limits are.",
      ["programs", "schedules", "configurations", "inputs"],
      "all sequences of issue/wait/test over many handles, patches, layouts, message-size and outstanding-request limits",
      "Tests wait in issue order with a few requests; handle recycling and forced completion only appear with many requests and small limits.",
      [O, "global/src/nbutil.c", "comex/src-mpi-pr/comex.c", "comex/src-mpi/comex.c"],
      [("non-blocking handle lists", "global/src/nbutil.c"), ("nb_state request tracking", "comex/src-mpi-pr/comex.c")],
      (), ["NGA_NbPut/NbGet/NbAcc/NbWait/NbTest"]),
    P("C04", "Read-modify-write operations and mutexes are atomic",
      "Concurrent accumulates and scatter-accumulates from any processes to overlapping elements lose no update; concurrent read-increment calls on an element return values that form one total order of the increments; and at most one process holds a given mutex at a time, with everything written and fenced in one critical section visible in the next.",
      ["schedules", "histories", "programs"],
      "all interleavings of concurrent accumulates, read-increments and lock/unlock pairs by all processes",
      "Tests run one schedule and check a sum; lost updates need particular interleavings and message paths.",
      [O, B, "comex/src-mpi-pr/comex.c", "comex/src-mpi/comex.c", "comex/src-common/acc.h"],
      [("fetch-and-add", "comex _fetch_and_add handlers"), ("accumulate under lock or in the progress engine", "comex/src-mpi-pr/comex.c"), ("mutex queues", "comex_lock/comex_unlock")],
      (), ["NGA_Acc, NGA_Scatter_acc, NGA_Read_inc, GA_Lock/GA_Unlock"]),
    P("C05", "Synchronisation and fences make earlier writes visible, in order",
      "Everything a process wrote before a world synchronisation, and everything it wrote to data held by the members before a group synchronisation, is visible to every member after it, also when synchronisation masks, subgroups and direct local access are used; after a fence, the fenced process's writes are complete at their targets before any message or write it issues afterwards is observed. "
      "One process's own operations on overlapping data take effect in program order, and no process leaves a barrier before all members have entered it.",
      ["schedules", "histories", "programs"],
      "all interleavings of writers, fences, flags, barriers and readers, over layouts and message paths",
      "Visibility bugs need delayed messages; tests on one node with fast delivery rarely see them.",
      [O, B, "comex/src-mpi-pr/comex.c", "comex/src-mpi/comex.c", "comex/src-mpi-mt/comex.c"],
      [("pnga_sync / ARMCI_AllFence + barrier", O), ("fence_array", O), ("per-target fence messages", "comex")],
      (), ["GA_Sync, GA_Pgroup_sync, GA_Fence, GA_Mask_sync"]),
    P("C06", "Distribution queries partition the index space and agree with the data",
      "For every array the per-process distributions (or blocks) are disjoint and together cover the index space, and follow the irregular map, block sizes, processor grid and restricted list the caller asked for; locate, locate-region, block counts, process grid, topology, nblock and inquiry results all describe that same partition, and the block a process sees by direct access holds exactly the elements the queries attribute to it, with the leading dimensions reported.",
      ["inputs", "configurations"],
      "all dimensions, chunk hints, irregular maps, block-cyclic and tiled grids, restricted lists and groups",
      "Tests look at a handful of shapes; uneven and empty blocks, and grids larger than the array, are rarely exercised.",
      [B, "global/src/decomp.c", "global/src/capi.c"],
      [("ddb decomposition", "global/src/decomp.c"), ("ga_ownsM and locate search", "global/src/base.h")],
      [("mapc/nblock", "block boundaries per dimension", B)], ["NGA_Distribution, NGA_Locate*, GA_Get_block_info, NGA_Access*"]),
    P("C07", "Ghost-cell updates copy the periodic neighbours and nothing else",
      "After a ghost update every ghost cell of every process (corners included when enabled) holds the value of the element it mirrors under periodic wrap-around, while the owned elements are unchanged; directional and non-blocking updates do the same for the cells they cover.",
      ["inputs", "configurations", "programs"],
      "all ghost widths, dimensions, block decompositions, types, corner settings and update variants",
      "Tests use one or two widths on even decompositions.",
      ["global/src/ghosts.c", B], [("update1..7 algorithms", "global/src/ghosts.c")], (), ["GA_Update_ghosts, NGA_Update_ghost_dir, NGA_Access_ghosts, NGA_Get_ghost_block"]),
    P("C08", "Element-wise and patch algebra equal the sequential computation",
      "Fill, zero, copy, scale, add, dot, transpose, element-wise multiply/divide/maximum/minimum/abs/reciprocal/add-constant/median, on whole arrays and on patches, with operands of different distributions and with transposed or reshaped patches, give the result of the sequential computation in every destination element and leave every other element and operand unchanged.",
      ["inputs", "configurations", "programs"],
      "all operand layouts (also mutually different), types, patches, aliasing of operands and scalars",
      "Tests apply each operation once to equally distributed whole arrays with one type.",
      [N, NP, E], [("local-block loops and temporary redistribution", NP)], (), ["GA_/NGA_ *_patch and whole-array algebra"]),
    P("C09", "Matrix utilities: diagonals, norms, row/column scaling, select, step",
      "Diagonal get/set/add/shift/zero, row and column scaling, symmetrize, the norms (GA_Norm1: sum of the moduli of all elements; GA_Norm_infinity: the largest modulus), select-element (the extreme value and a position holding it, complex numbers ordered by modulus), step-max and step-bound operations return or store what the sequential definition gives on the same matrix or patch, for every element type, shape and distribution they accept, and touch no other element.",
      ["inputs", "configurations"],
      "all rectangular and square shapes, layouts and value patterns including ties, zeros and infinities",
      "Tests use one square shape and one distribution.",
      ["global/src/matrix.c", "global/src/select.c", "global/src/ga_symmetr.c", E], [("per-block loops over the diagonal/rows", "global/src/matrix.c")], (),
      ["GA_Get_diag, GA_Scale_rows, GA_Norm1, NGA_Select_elem, GA_Step_max, ..."]),
    P("C10", "Matrix multiplication equals the sequential product",
      "Dgemm/sgemm/cgemm/zgemm and matrix-multiply on patches compute alpha*op(A)*op(B)+beta*C for every transpose combination, scalars, shapes, patch positions, layouts and groups, within rounding, leaving A, B and all of C outside the target patch unchanged.",
      ["inputs", "configurations"],
      "all sizes (including degenerate and larger than internal chunk sizes), patches, layouts, transposes, alpha/beta including zero",
      "Tests cover square even sizes; the algorithm choice and chunking depend on shape, memory and distribution.",
      ["global/src/matmul.c"], [("algorithm selection, chunk loops, SRUMMA and patch variants", "global/src/matmul.c")], (), ["GA_Dgemm..., GA_Matmul_patch, NGA_Matmul_patch"]),
    P("C11", "Linear solvers and eigensolvers return correct solutions",
      "LU solution, plain or transposed and with any number of right-hand sides, gives solutions whose residual is small relative to the data and reports failure for singular input; the symmetric eigensolvers return all eigenvalues in ascending order with orthonormal (for a generalised problem metric-orthonormal) eigenvectors and report failure for a metric that is not positive definite. The matrix and metric are left as they were, and a refused problem leaves the result array alone.",
      ["inputs"],
      "all well-conditioned matrices of any order and layout, and singular/indefinite ones",
      "Tests solve one system of one size.",
      ["global/src/ga_solve_seq.c", "global/src/ga_diag_seqc.c", "global/src/sclstubs.c", "LinAlg/lapack+blas"], [("sequential LAPACK drivers around gathered data", "global/src/ga_solve_seq.c")], (),
      ["GA_Lu_solve, GA_Diag_seq, GA_Diag_std_seq"]),
    P("C12", "Collectives and processor groups behave as one group-wide operation",
      "Broadcast and global reductions (sum, product, max, min, absmax, absmin, and, or; every type and length) give every member of the world or group the reduction of all members' contributions; group create, split, duplicate, rank translation and default-group switching are mutually consistent, and operations in disjoint groups running at the same time do not affect each other.",
      ["inputs", "schedules", "configurations"],
      "all operators, types, lengths around internal buffer sizes, group memberships and concurrent groups",
      "Tests reduce a few short vectors over the world group.",
      ["global/src/collect.c", B, "comex/src-armci/message.c", "comex/src-mpi/groups.c"], [("chunked group reductions", "comex/src-armci/message.c"), ("PGRP_LIST rank maps", B)], (),
      ["GA_Gop/GA_Pgroup_*gop, GA_Brdcst, GA_Pgroup_*"]),
    P("C13", "Array lifecycle, handles and memory accounting are exact",
      "Creating, duplicating, overlaying, querying and destroying arrays in any order keeps every live array's contents and metadata (type, dimensions, name, group, properties) intact, never hands out a live handle twice, recycles destroyed ones, and keeps inquire-memory, memory-available and memory limits equal to the sum of live arrays, so that any create/destroy history that returns to its start state releases everything.",
      ["histories", "programs", "configurations"],
      "all create/duplicate/destroy histories including limits being hit, properties set and unset, and initialise/terminate cycles",
      "Tests create a few arrays and exit; leaks and handle reuse show only in long histories.",
      [B, "global/src/ga_malloc.c", "global/src/collect.c", "comex/src-common"], [("GA[] handle table", B), ("memory accounting", B)], (), ["GA_Create_handle..GA_Destroy, GA_Inquire_memory, GA_Set_memory_limit"]),
    P("C14", "Scan, pack, unpack, enumerate and bin operations match their definitions",
      "Segmented scan-copy and scan-add (inclusive and exclusive), pack, unpack, patch enumeration, bin index and bin sort give exactly the sequential result over the chosen index range for every pattern of flags, counts and distribution.",
      ["inputs", "configurations"],
      "all flag patterns, ranges, lengths, layouts and types",
      "Tests run one mask on one size; segment boundaries falling on processor boundaries depend on layout.",
      ["global/src/sparse.c"], [("per-process partial results combined across processes", "global/src/sparse.c")], (), ["GA_Scan_copy/GA_Scan_add/GA_Pack/GA_Unpack/GA_Patch_enum/ga_bin_*"]),
    P("C15", "Sparse arrays hold exactly the assembled elements",
      "A sparse array assembled from element insertions by any processes in any order stores exactly the inserted elements; its row/column distributions, block access, diagonal, scaling, shifting, matrix-vector, sparse-sparse and sparse-dense products, duplication and conversion from dense agree with the same operations on the equivalent dense matrix.",
      ["inputs", "configurations", "programs"],
      "all sparsity patterns (empty rows, columns, blocks), shapes, types and insertion orders",
      "The sparse tests use one Laplacian-like pattern.",
      ["global/src/sparse.array.c", "global/src/sketch.c"], [("linked-list insertion, count exchange and CSR assembly", "global/src/sparse.array.c")], (), ["NGA_Sprs_array_*"]),
    P("C16", "The MA allocator never overlaps, loses or corrupts blocks",
      "For every sequence of stack and heap allocations, index and pointer requests, pops and frees, MA blocks are disjoint, correctly aligned and keep their contents; its size, availability and validity queries are consistent with the live blocks, exhausting the arena fails cleanly, freed space is reusable, and overwrites of a block's guards are detected.",
      ["histories", "inputs"],
      "all allocation/free histories over all datatypes and arena sizes",
      "The MA test is a short interactive-style script; fragmentation and coalescing need long histories.",
      ["ma/ma.c", "ma/table.c"], [("block descriptors with guards and checksum", "ma/ma.c"), ("first-fit heap with coalescing", "ma/ma.c")], (), ["MA_push_stack, MA_alloc_get, MA_inquire_*"]),
    P("C17", "Disk-resident arrays return what was written",
      "Every section written to a disk-resident array (blocking or not, from any patch of a global array, with any process count or layout) is returned unchanged by later reads of any overlapping section, also after closing and reopening with another access mode, while unwritten elements and other sections are unaffected.",
      ["inputs", "histories", "configurations"],
      "all dimensions, request-size hints, file configurations, sections crossing chunk boundaries, types and reopen sequences",
      "DRA tests write and read aligned sections of one size.",
      ["pario/dra/disk.arrays.c", "pario/dra/patch.util.c", "pario/dra/buffers.c", "pario/elio/elio.c"], [("chunk layout and alignment", "pario/dra/disk.arrays.c"), ("buffer manager", "pario/dra/buffers.c")], (), ["NDRA_Write/NDRA_Read sections, DRA_Open/Close/Wait"]),
    P("C18", "Exclusive and shared files return what was written at each offset",
      "Exclusive-access and shared files return at every offset the bytes most recently written there, blocking or asynchronous, with lengths, end-of-file conditions, truncation and error codes reported as documented, for any number of files open at once.",
      ["inputs", "histories"],
      "all interleavings of reads, writes, waits, truncations at arbitrary offsets and sizes",
      "Tests write sequential fixed-size blocks.",
      ["pario/eaf/eaf.c", "pario/sf/shared.files.c", "pario/elio/elio.c"], [("asynchronous request table", "pario/elio/elio.c")], (), ["EAF_Write/Read/Aread/Awrite/Wait, SF_Write/Read/Wait"]),
    P("C19", "ARMCI one-sided communication is correct on every transport",
      "On every communication runtime, contiguous, strided and vector put, get and accumulate, atomic read-modify-write, mutexes, fences, groups and collectives through ARMCI have the effect of the sequential definition on the target memory, whatever the message-size thresholds, packing and shared-memory settings.",
      ["inputs", "schedules", "configurations", "programs"],
      "all stride shapes, vector lists, datatypes, ranks (self and remote), tuning settings and runtimes",
      "The ARMCI tests exercise default settings, where one node uses direct shared memory and most message handlers never run.",
      ["comex/src-armci", "comex/src-mpi", "comex/src-mpi-pr", "comex/src-mpi-mt", "comex/src-mpi-pt", "comex/src-mpi3", "comex/src-common"],
      [("message handlers per operation", "comex/src-mpi*/comex.c"), ("registration cache", "comex/src-mpi-pr/reg_cache.c")], (), ["ARMCI_*"]),
    P("C20", "TCGMSG messages, counters and collectives are correct",
      "TCGMSG send/receive deliver every message exactly once, unmodified, to the addressed process with the matching type and in order per sender, also asynchronously and with wildcards; the shared counter returns each value once; broadcast and global operations equal the reduction over all processes.",
      ["schedules", "inputs", "histories"],
      "all message sizes, types, orders, blocking modes and concurrent counters",
      "Tests use a ring and one counter loop.",
      ["tcgmsg/tcgmsg-mpi", "tcgmsg/capi.c", "tcgmsg/fapi.c"], [("nxtval over ARMCI fetch-add", "tcgmsg/tcgmsg-mpi/nxtval-armci.c"), ("message queues", "tcgmsg/tcgmsg-mpi/misc.c")], (), ["SND_/RCV_/PROBE_/NXTVAL_/BRDCST_/IGOP_"]),
    P("C21", "Every language interface gives the same results",
      "The Fortran interface (column-major, 1-based, hidden string lengths), the C interfaces with 32- and 64-bit indices, and the C++ classes applied to the same array are different views of one array: an operation through one is seen by the others with the documented index and order mapping, including names, types, flags, transposes and scalar results.",
      ["inputs", "programs"],
      "all wrapped operations, index tuples, types and mixtures of interfaces on one array",
      "Each language is tested on its own; the mapping between interfaces is never compared.",
      ["global/src/capi.c", "global/src/fapi.c", "ga++/src", "gaf2c"], [("index reversal and conversion", "global/src/capi.c"), ("Fortran stubs", "global/src/fapi.c"), ("C++ wrappers", "ga++/src/GlobalArray.cc")], (), ["C, 64-bit C, C++ and Fortran entry points"]),
    P("C22", "The library never accesses memory it does not own",
      "No valid call sequence makes the library read or write outside the live objects involved, use freed memory, or execute undefined integer or pointer arithmetic, on any of its layers.",
      ["inputs", "programs", "configurations", "schedules"],
      "all valid programs of the other properties, run under address and undefined-behaviour sanitizers",
      "Plain tests cannot see an out-of-bounds access that hits mapped memory.",
      ["global/src", "comex", "ma", "pario", "tcgmsg"], [("bounds of scratch arrays and buffers", "global/src/*.c")], (), ["sanitizer reports"]),
    P("C23", "Threads of one process may use the library at the same time",
      "When MPI was started for multiple threads, puts, gets, accumulates, read-increments, their non-blocking forms with their waits, and location queries issued concurrently by several threads of several processes give the sequential result on disjoint data, accumulates and read-increments by threads are atomic (every ticket is handed out once), and no library state is accessed by two threads without synchronisation.",
      ["schedules", "programs"],
      "all interleavings of one-sided operations by threads",
      "The thread tests run one pattern on one schedule and depend on luck.",
      ["global/src/thread-safe.c", O, "comex/src-mpi-mt/comex.c", "comex/src-mpi-pt/comex.c"], [("global lock around entry points", "global/src/thread-safe.c")], (), ["NGA_Put/Get/Acc/Read_inc from threads"]),
    P("C24", "Invalid arguments are refused and leave data unchanged",
      "A data transfer or array operation given a patch or subscript outside the array, a destroyed or unknown array handle, operands of mismatched type, rank, shape or patch size, or an operator, type, group member or mutex number that does not exist, reports an error (or, for location queries, answers nowhere) before any array element or caller buffer is modified, and is never accepted silently.",
      ["inputs"],
      "all single-argument corruptions of valid calls",
      "No test passes an invalid argument, since an error ends the program.",
      [B, O, N, NP, E], [("ga_check_handleM / subscript checks before transfers", "global/src/base.h")], (), ["error callback and array contents"]),
    P("C25", "Global pointer arrays hold and return variable-size objects",
      "An array of global pointers returns, for every element and patch, exactly the object last stored there with its size, for any sizes (zero included), distribution and element order, through put, get, gather, scatter and direct access.",
      ["inputs", "programs"],
      "all dimensions, object sizes, patches and element lists",
      "The part is not even built by default, so nothing tests it here.",
      ["gparrays/src"], [("two-step size then data transfers", "gparrays/src/gponesided.c")], (), ["GP_*"]),
    P("C26", "Read-only and read-cache properties never change what is read",
      "Setting and removing the read_only and read_cache properties leaves every element of the array as it was: all forms of get return the stored values with correct placement in the caller's buffer whatever was read before, the distribution stays a partition, direct access shows the owner's values, the array can be rewritten and destroyed afterwards, and the memory a read cache keeps is bounded and released.",
      ["programs", "configurations", "inputs"],
      "all property switches between reads and writes, layouts and sections, cache hits, misses and overlaps",
      "Tests set a property once and read aligned sections.",
      [B, O], [("pnga_set_property redistribution", B), ("read cache lists in pnga_get", O)], (), ["GA_Set_property/GA_Unset_property, NGA_Get, NGA_Access"]),
    P("C27", "The library works over any communicator, and instances do not disturb each other",
      "Initialised over a communicator that holds any subset of the processes in any order, the library behaves as over the whole world; two instances over disjoint communicators used at the same time give each its own sequential results, neither blocks, changes or ends the other, and processes reserved for progress return to their caller at termination.",
      ["configurations", "schedules", "programs"],
      "all divisions and orders of the processes, pairs of concurrent histories",
      "One test initialises two halves of the world one after the other in rank order.",
      [B, "comex/src-mpi/comex.c", "comex/src-mpi-pr/comex.c", "comex/src-mpi-pr/groups.c"], [("world taken from the given communicator", "comex/src-mpi-pr/groups.c")], (), ["GA_Initialize_comm and everything after it"]),
]
NA = {}
TECH = {}
NOTE = {}


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "lib"))
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in PROPS:
        i = p["id"]
        if i in props.PROPS:
            q = props.PROPS[i]
            checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=q["technique"], level=q.get("level", "exploration"),
                               level_note=q["note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
    hooks = [c.split()[0] for c in commits if c and "hook:" in c]
    m = dict(version=1, setup_cmd="sh bin/setup", checks=checks, not_applicable=na,
             hooks=dict(guard="GA_VERIF_HOOKS", enable="lib/vbuild.py compiles /repo's sources with -DGA_VERIF_HOOKS=1", source_commits=hooks),
             notes="Checks build the sources of /repo's working tree themselves (lib/vbuild.py) and run monitored workloads under mpirun.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
