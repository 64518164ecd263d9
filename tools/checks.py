"""Table of checks: property -> units (harness binaries), bounds, technique text (also used to generate MANIFEST.json)."""
THREAD_DEFS = ["ENABLE_THREADS", "FIELD_EXPRESSION_THREADS", "STENCIL_THREADS", "TILL_THREADS"]
_SEQ = ["-std=gnu++17", "-O1", "-w", "-fno-omit-frame-pointer", "-ffp-contract=off", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-fno-access-control"]
_TSAN = ["-std=gnu++17", "-O1", "-w", "-fno-pie", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"]
_SEQ0 = [f for f in _SEQ if not f.startswith("-fno-access")]
VARIANTS = {
    "serial": dict(define=[], nthreads=1, flags=_SEQ0, ldflags=["-fsanitize=address"], libs=["-lpthread"], engine=[("mc.cpp", "serial")]),
    "plain": dict(define=[], nthreads=1, flags=["-std=gnu++17", "-O1", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS"], ldflags=[], libs=["-lpthread"], engine=[("mc.cpp", "plain")]),
    "threads": dict(define=THREAD_DEFS, nthreads=4, flags=_SEQ0, ldflags=["-fsanitize=address"],
                    libs=["-lboost_thread", "-lboost_system", "-lboost_chrono", "-lpthread"], engine=[("mc.cpp", "serial")]),
    # compiler instrumentation only; the runtime is the controlled scheduler (src/sched/sched.cpp)
    "sched": dict(define=THREAD_DEFS, nthreads=2, flags=_TSAN, ldflags=["-no-pie", "-rdynamic"],
                  libs=["-lboost_thread", "-lboost_system", "-lboost_chrono", "-lpthread", "-ldl"], engine=[("sched/sched.cpp", "schedrt")]),
    "schedrt": dict(define=[], nthreads=1, flags=["-std=gnu++17", "-O2", "-w", "-fno-pie", "-fno-builtin"], ldflags=[], libs=[], engine=[]),
}
def unit(name, src=None, variant="serial", **kw):
    d = dict(name=name, src=[src or "checks/%s.cpp" % name], variant=variant); d.update(kw); return d

CHECKS = {}
def check(id, units, bounds, technique, note, **kw):
    CHECKS[id] = dict(units=units, bounds=bounds, technique=technique, note=note, **kw)

check("M01", [unit("m01", variant="plain")],
      {"quick": "all get/put histories of length 6 over 4 sizes x 3 element types, each from a fresh pool; one injected allocation failure at every position of the length-5 histories; 1..40 blocks at once x 6 size mixes x 4 size sets x 4 release orders x 3 rounds",
       "thorough": "all get/put histories of length 8 over 4 sizes, length 7 over 5 sizes, 3 element types, fresh pool each; allocation failure at every position"},
      "stateless exhaustive exploration of all operation histories on the real pool against an interval-set reference model",
      "real Pool<T>; every history to the depth bound executed in its own process")
check("M03", [unit("m03")],
      {"quick": "every array up to 3^3 x every window x every split pattern and location; 1-D splits up to 14 cells; all IntVec pairs with components in -2..2",
       "thorough": "every array up to 4^3 x every window x every split; 1-D splits up to 24 cells; all IntVec pairs with components in -3..3"},
      "exhaustive enumeration of all windows, indices and splits on the real MemoryWindow against an explicit cell set", "")
check("M04", [unit("m04")],
      {"quick": "every window of every array up to 3^3, every pair of positions, every way of reaching the first, every movement operator; 4 field shapes x ghosts x boundaries x views up to 2^3 interiors",
       "thorough": "as quick with field interiors up to 3^3"},
      "exhaustive exploration of iterator states (positions) and all transitions between them on the real iterators", "",
      probes=[("probes/const_iterator_index.cpp", "serial", "subscripting a const field iterator")])
check("F01", [unit("f01")],
      {"quick": "all pairs of ghost data with per-face counts 0..2; all stencil points in -4..4^3; 17 field types x boundaries x extents 1..3 x per-face ghosts 0..1",
       "thorough": "ghost counts 0..3; points in -6..6; per-face ghosts 0..2"},
      "exhaustive enumeration of ghost/boundary/extent inputs on the real classes against component-wise arithmetic", "")
check("F02", [unit("f02")],
      {"quick": "all histories of 2 operations (copy, 5 views, 3 ghost resets, 4 reshapes, 4 kinds of write, assignment between any two handles, destroy) on 3 shapes x 3 ghost layouts x boundary x internal/external storage for double, float and unsigned fields, and of 3 operations on one staggered 2-D layout",
       "thorough": "histories of 3 operations, and of 4 on one layout"},
      "stateless exhaustive exploration of field-handle histories on real fields against an explicit array model", "")

check("M02", [unit("m02")],
      {"quick": "all histories of 3 operations (12 kinds: get from store, assign incl. self/empty/raw/null/own field, copy, detach, destroy, write, temporaries) over 3 handles; all 5-operation get/share/detach histories over 2 field sizes",
       "thorough": "histories of 4 operations; 6-operation share/release histories"},
      "stateless exhaustive exploration of handle histories on real SpatFldPtr/SpatialFieldStore against a reference-count model, with allocation accounting and ASan", "")
check("F03", [unit("f03")],
      {"quick": "all point subsets of 10 small field shapes (up to 16 cells incl. ghosts and extra cells); every pair of points and its complement on 9 shapes of 31..125 cells spanning storage words x 3 valid-ghost settings; every pair of iterator positions on whole, interior, trimmed and single-layer windows of 20 shapes x 5 patterns; all 5-step create/destroy orders of up to 3 live masks",
       "thorough": "subsets up to 20 cells; 9 patterns; 6-step histories"},
      "exhaustive enumeration of point sets, windows and iterator positions on the real mask classes against an explicit point set", "")
check("F04", [unit("f04")],
      {"quick": "every pair of two-cell double and float fields (and scalar/field pair) over 6 sets of 5-8 boundary values (signed zeros, neighbours 1-3 ulps apart, subnormals, tolerance-straddling, huge) x 5 comparison kinds x up to 9 tolerances x 4 floors; a single deciding cell at every position of 12 shapes x ghosts x boundary; all pairs of views of a 3x2 field",
       "thorough": "same as quick"},
      "exhaustive enumeration of field contents, tolerances and windows on the real comparisons against the inequalities evaluated in extended precision", "values within rounding of a relative threshold accept either answer")
check("F05", [unit("f05")],
      {"quick": "all grid extents 1..3 per direction x 4 length triples x all boundary flags x 4 ghost layouts + 2 reduced valid-ghost layouts x 16 field types x 3 directions, every cell",
       "thorough": "extents 1..4"},
      "exhaustive enumeration of grids and field shapes on the real Grid against the closed form of each location", "")
check("F06", [unit("f06")],
      {"quick": "all histories of 3 requests (add/find/remove consumer, fetch/create storage, copy, view; 2 memory types x 2 device indices) on a field, its copies and views and a mask, for 3 ways of making the field; all 2-request histories over 6 memory types and two shapes; full read/write check of every handle afterwards",
       "thorough": "histories of 4 requests"},
      "stateless exhaustive exploration of device-request histories on real fields, views and masks of the host build against an array model", "host build: no accelerator back end exists here")
check("N01", [unit("n01"), unit("n01p")],
      {"quick": "all per-face ghost counts 0..1 of destination x operand x all boundary flags x interiors up to 2^3 x with/without ghosts; 10 right-hand-side kinds x all per-face counts 0..2 in one direction x operand boundary flags differing in one direction for two types; reduced valid ghosts and two-assignment sequences on interiors up to 3^3; every sub-window view of arrays up to 3^3 interiors; 270 expression forms placing the narrowest operand in every operand position of every operator, function, test, clause and mask x every set of narrowed faces x one-cell directions x extra cells",
       "thorough": "as quick with one direction grown to 4 cells and two more field types"},
      "exhaustive enumeration of shapes, ghosts, boundaries and windows on the real assignment against the explicit valid region", "serial back end (the threaded one is T07)")
check("N02", [unit("n02_%d" % p, src="checks/n02.cpp", flags=["-DPART=%d" % p, "-O0"]) for p in range(1, 13)],
      {"quick": "15 binary operators x all 24 operand-kind pairs (scalar, field, sub-expression, single value, single-value expression) x all pairs of 11 operand values (signs, zeros, subnormal, huge, infinite, NaN), 12 functions x 4 kinds x 16 values, 3 logical operators x all kinds and truth values, and all two-level compositions (about 900 expressions) of binary, unary, comparison and logical operators; each expression both assigned and folded",
       "thorough": "same as quick"},
      "exhaustive enumeration of operator/operand-kind programs and operand values on the real expression templates against the C++ operation", "serial evaluation and reduction forms; the resize form of the threaded back end is checked under T07; comparison of two single values has no expression that accepts it")
check("N03", [unit("n03_%d" % p, src="checks/n03.cpp", flags=["-DPART=%d" % p, "-O0"]) for p in range(1, 7)] + [unit("n03_6f", src="checks/n03.cpp", flags=["-DPART=6", "-O0", "-DUSE_FLOAT"])],
      {"quick": "every one-clause chain x otherwise kind, every ordered pair of the 9 clause kinds (bool/boolean expression/mask x constant/field/sub-expression), 45 three-clause chains (every clause kind in the middle, all orders of condition kinds), 8 four-clause chains; for each, all truth assignments (cells hold all combinations, boolean constants enumerated), 3 field shapes, and 4 uses: assigned and folded plain, inside arithmetic, as a value of another conditional, inside a condition",
       "thorough": "same as quick"},
      "exhaustive enumeration of clause chains and truth assignments on the real conditional against first-true-clause selection", "serial evaluation and reduction forms; the threaded back end runs the same harness under T07")
check("N04", [unit("n04_%d" % p, src="checks/n04.cpp", flags=["-DPART=%d" % p]) for p in range(1, 5)],
      {"quick": "7 operand kinds (field, sum, function, single-value product, masked and boolean conditional, power) x 4 field types x interiors up to 2^3 x all boundary flags, operand flags differing in one direction x 4x3 ghost layouts, native or reduced x whole/interior, each through 12 reduction forms (recorded fold and reduces, order-dependent fold and reduces, max, min, sum, norm); a distinguished extremum at every cell of shapes up to 3^3; 6 stencil forms x 2 type pairs x shapes up to 3^3 x ghosts x boundary; every view window of arrays up to 3^3",
       "thorough": "as quick with interiors up to 3^3"},
      "exhaustive enumeration of shapes, ghosts, boundaries and operands on the real reductions against the explicit valid region in x-fastest order", "serial",
      probes=[("probes/stencil_reduction.cpp", "serial", "reducing a stencil expression")])
check("S01", [unit("s01_%d" % p, src="checks/s01.cpp", flags=["-DPART=%d" % p], stencils=True) for p in range(1, 11)],
      {"quick": "all 123 operators of build_stencils x interiors up to 2^3 plus one longer direction x all boundary flags x 5x4 source/destination ghost layouts in each direction, native or reduced x 2 spacing triples (distinct per direction) x 2 application forms; a unit impulse in every source cell and the linear functions of position for every operator",
       "thorough": "interiors up to 3^3"},
      "exhaustive enumeration of operators, shapes, ghosts, boundaries and impulses on the real operators against the stencil derived from an independent table of field locations", "directions the stencil reaches in have at least two cells and the source ghosts it needs")
check("S02", [unit("s02_%d" % p, src="checks/s02.cpp", flags=["-DPART=%d" % p], stencils=True) for p in range(1, 7)] + [unit("s02_%d" % p, src="checks/s02.cpp", flags=["-DPART=%d" % p]) for p in range(7, 11)],
      {"quick": "36 two-point operators (cell/face, face/cell, cell/cell of another mesh, wide same-mesh) x interiors up to 3x2x2 x 3 boundary-flag combinations x 3 ghost layouts x 3 sides x 3 ways of listing points, every destination index whose source cells exist, and all non-interacting ordered pairs on a 3x2x{1,2} interior; direct setters on 4 field types x every cell and pair; the mask form for 9 type pairs x both sides x 4 shapes x all boundary flags x 3x3 ghost layouts x every point set of up to 2 non-interacting points and every sheet x 3 kinds of value x coefficients",
       "thorough": "larger interiors"},
      "exhaustive enumeration of operators, sides, points, shapes and ghosts on the real boundary-condition operators against the defining equation", "points whose result feeds another listed point are excluded")
check("S03", [unit("s03_%d" % p, src="checks/s03.cpp", flags=["-DPART=%d" % p, "-O0"]) for p in range(1, 12)],
      {"quick": "every single point of {-1,0,1}^3 and radius-2 axis points on 4 type pairs; all ordered pairs of the 7 axis points on two type pairs; 11 longer lists on 4 types, the 7 box filters and the null list; 21 two-level and 2 three-level chains; each over 4-5 shapes x all boundary flags x 5 source and 3-4 destination per-face ghost layouts (half of their combinations) per direction x 5-9 forms (weighted, sum, average; of a field, an expression, a conditional; difference of stencils; chained, stored inner result); coefficient lists of length 1..9, every position from -3 to beyond the end",
       "thorough": "all 5 shapes and all ghost combinations for every stencil"},
      "exhaustive enumeration of point lists, operand kinds, chains, shapes and ghosts on the real stencil templates against the expanded sum", "directions the stencil reaches in have at least two cells and the ghosts it needs")
check("O01", [unit("o01")],
      {"quick": "all histories of 5 operations (register 3 types, two ways; empty, destroy, assign, self-assign, temporary copy, new, copy) over 2 databases, every type and 14+ ids retrieved after every operation; up to 24 operators of one type",
       "thorough": "histories of 6 operations; up to 80 operators"},
      "stateless exhaustive exploration of database histories on the real OperatorDatabase against a model of shared stores with live-object accounting", "")
check("O02", [unit("o02")],
      {"quick": "every table of 2..6 points with gaps from {0.5, 1, 2.25} and two origins x every order 0..points-1 x every table point, 3 points per gap and 4 points outside x every monomial up to the order, interpolation and derivative, coefficient and value forms; 6 tables of 12 and 21 points, orders 0..5",
       "thorough": "tables up to 7 points"},
      "exhaustive enumeration of tables, orders, points and the monomial basis on the real Lagrange classes against the exact polynomial", "degrees are checked on the monomial basis; linearity in the values is checked through the coefficient form")
check("O03", [unit("o03")],
      {"quick": "meshes of 2..5 cells incl. ghosts along each axis x 4 spacings x 6 origins x every particle left end on a quarter-cell lattice (from outside left to outside right) x 10 sizes; all pairs of particles on a half-cell lattice x 3 sizes; every single displaced coordinate for uniformity",
       "thorough": "meshes up to 7 cells; triples of particles"},
      "exhaustive enumeration of meshes, particle positions and sizes on the real operators against exact interval overlaps", "positive particle sizes and spacings")
check("O04", [unit("o04")],
      {"quick": "every non-empty subset of fields up to 9 cells, every ordered list of up to 3 cells of fields up to 14 cells, near pairs, full and all-but-one selections of fields up to 210 cells, ghosts and boundary cells, index and marker forms",
       "thorough": "subsets up to 12 cells, lists on up to 24 cells"},
      "exhaustive enumeration of cell selections on the real gather and scatter operators against direct indexing", "")
check("O05", [unit("o05")],
      {"quick": "4 functions (value, first and second derivative, direct and through the base class) x 2 field types x 4 shapes x boundary x 4 ghost layouts x 3 arrangements of 14 coordinates x every parameter combination (up to 72), plus 2-D and 3-D user functions",
       "thorough": "same as quick"},
      "exhaustive enumeration of functions, parameters, shapes and coordinates on the real field functions against the closed forms", "the hyperbolic tangent has no derivative operations; the patch-based constructors do not compile and are not covered")
check("O06", [unit("o06")],
      {"quick": "every interior up to 3^3 x boundary flags x 4 ghost layouts x with/without ghosts x fresh or stale file for 3 field types; all triples of 15 hard-to-print values",
       "thorough": "interiors up to 4^3"},
      "exhaustive enumeration of shapes and values on the real export, read back by an independent parser", "non-finite values are outside the domain")

check("T05", [unit("t05", variant="sched", lib=False)],
      {"quick": "2-4 threads, initial counts 0..2, up to 4 waits and posts, every interleaving with up to 3 preemptions and up to one spurious wakeup; destruction right after the last needed wait",
       "thorough": "up to 4 preemptions, 2 spurious wakeups"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free")
check("T01", [unit("t01", variant="sched", lib=False)],
      {"quick": "1-3 workers, 1-2 scheduling threads, up to 4 tasks (incl. tasks that schedule tasks and FIFO/LIFO/priority pools), wait(), wait(threshold), timed waits, clear and the counters: every interleaving with up to 2 preemptions (1 in the widest scenarios) and up to one spurious wakeup or early timeout",
       "thorough": "one more preemption in every scenario"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free")
check("T02", [unit("t02", variant="sched", lib=False)],
      {"quick": "12 scenarios over worker counts 0..3 and limits 0..2: resize sequences, shrink by several, shrink-then-grow, from zero, from a task, from two threads, with scheduling threads, limit raised, lowered, combined with shrinking: every interleaving with up to 2 preemptions (1 in the widest), any two operations in sequence",
       "thorough": "one more preemption; worker counts and limits up to 3"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free")
check("T03", [unit("t03", variant="sched", lib=False)],
      {"quick": "22 scenarios: destruction of pools of 1-2 workers with up to 4 tasks under each shutdown policy (idle, busy, tasks scheduling tasks, last copy in another thread, right after resizing), clear() before/while tasks run, controllers outliving the pool, every subset of up to 3 tasks throwing (also during shutdown, resizing and under an active limit): every interleaving with 1-2 preemptions, thread exit being a scheduling point of its own",
       "thorough": "one or two more preemptions, up to 3 tasks"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free; scenarios whose workers outlive the pool object check at quiescence")
check("T04", [unit("t04", variant="threads", lib=False), unit("t04p", variant="sched", lib=False)],
      {"quick": "on the policies themselves every push/top/pop/clear/copy history up to 7-11 operations with up to 4 priorities, every arrival order of 9 tasks, structured queues up to 500 tasks, prioritised tasks over 8 boundary priorities; on single-worker pools every history of schedule/finish/clear up to 6-8 operations with the running task held, and every interleaving (1-2 preemptions) of batches of 4 and of two scheduling threads",
       "thorough": "histories up to 9-13 operations, batches of 5, one more preemption"},
      "exhaustive enumeration of operation histories of the real code against a reference queue, and controlled-scheduler exploration of all interleavings of single-worker pools up to the preemption bound", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free")
check("T06", [unit("t06", variant="sched", lib=False)],
      {"quick": "16 scenarios: 1-2 workers, 1-2 futures (int, double, string results), copies read from a second thread by each reading call, handle/pool lifetimes, timed waits with past and future limits, cancel() while pending, running, racing with completion, late and from two threads, with waiters of each kind; loops over 7 intervals x 4 clock phases x 5 repeat counts: every interleaving with 1-2 preemptions, up to one spurious wakeup or early timeout",
       "thorough": "one more preemption"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free; time is the scheduler's virtual clock")
check("T07", [unit("t07", variant="sched", weight=12), unit("n01_t", src="checks/n01.cpp", variant="threads", weight=6), unit("n01p_t", src="checks/n01p.cpp", variant="threads", weight=4)] +
      [unit("n02_%dt" % p, src="checks/n02.cpp", variant="threads", flags=["-DPART=%d" % p, "-O0"]) for p in range(1, 7)] +
      [unit("n03_%dt" % p, src="checks/n03.cpp", variant="threads", flags=["-DPART=%d" % p, "-O0"]) for p in (3, 5)] +
      [unit("s03_%dt" % p, src="checks/s03.cpp", variant="threads", flags=["-DPART=%d" % p, "-O0"]) for p in (5, 6, 7, 8)],
      {"quick": "interleavings: 10 kinds of assignment (scalar, self-reading, masked, conditional, single-value, functions, stencil, summing stencil, chained stencils, interior) on fields of 2-4 cells over 2 partitions, workers 1-3 x active 1-3 x partitions 1-4 x 4 shapes, sizes changed between and during assignments, dependent assignments, two user threads (all 100 pairs of kinds), program exit: every interleaving with 0-1 preemptions; partitioning: all shapes up to 4x4x4 (float 3x3x3) x 1-5 partitions x ghosts x boundary x interior/whole; back end: the N01-N03 and S03 enumerations on the threaded build with 1-5 partitions and 4 workers", "thorough": "one more preemption; shapes up to 5x5x5 (float 4x4x4) x 1-8 partitions; thorough bounds of N01-N03, S03"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution; plus exhaustive enumeration of shapes, partition counts and expressions on the threaded back end against the cell-by-cell reference", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free; partition counts are at least 1; assignments are made by user threads, not from inside pool tasks")
check("T08", [unit("t08", variant="sched")],
      {"quick": "9 scenarios: 2-3 threads creating, writing, reading back and releasing fields by 6 routes (store get, get_from_window, direct double/float/unsigned fields, masks) from a cold or warm pool: all pairs of routes x 3 sizes, create/release rounds, all pairs of three-step programs over create small/large and release oldest/newest (3 x 4 routes), three threads, hand-over to another thread, bookkeeping read meanwhile, handle copies, single values, program exit with fields alive: every interleaving with up to 3 preemptions (programs: 2)", "thorough": "one more preemption"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free; one handle (SpatFldPtr) is used by one thread at a time")
check("T09", [unit("t09", variant="sched")],
      {"quick": "13 scenarios on both pools and the SpatialOpsTools functions: every sequence of up to 3 capacity/active calls over sizes -1..4 (probing the number of tasks really running and of workers after each of up to 2 calls); pairs of calls with every worker interleaving (1 preemption); concurrent first use by every pair of 7 calls (1 preemption), by three threads and of both pools (0); concurrent calls on a running pool with 0-2 tasks held; program exit", "thorough": "sequences of up to 4 calls; one more preemption"},
      "controlled-scheduler exploration of all interleavings of the real code up to the preemption bound, with happens-before race, heap, deadlock and misuse monitors on every execution; sequential histories against a reference model, concurrent ones against every serial order of the calls", "data-race-free code is explored at synchronisation granularity; volatile and atomic accesses are scheduling points of their own; forced switches at blocking operations are always free; the probing phase after a history runs under the default schedule only (except in the interleaved scenarios)")
