#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "spatialops/structured/"
TP = "spatialops/threadpool/threadpool/"

# ---------------------------------------------------------------- memory
prop("M01", "Memory pool never hands out storage that is still in use",
 "A block obtained from the memory pool holds at least the requested number of elements and never overlaps any other block that has been obtained and not yet returned, whatever sequence of requests and returns preceded it. Once the pool has served a request of ten or more elements, asking again for the size of a block that was obtained since and has just been returned reuses a returned block instead of growing the pool; the pool's total/active counts always equal the number of blocks allocated/handed out, and a request for or return to an unsupported memory type, or a failed allocation, is reported by an exception and leaves the pool unchanged.",
 ["histories"], "every sequence of get(n)/put(block) operations up to the depth bound over a set of sizes chosen to exercise exact, larger and padded reuse, for every element type pooled",
 "memtest1/2 run one or two fixed get/put patterns; reuse bugs need a particular multi-step order of sizes and returns",
 [S+"MemoryPool.h", S+"MemoryPool.cpp"],
 [("size-keyed free lists with lower_bound reuse", S+"MemoryPool.cpp: Pool<T>::get"), ("size map + return to its own free list", S+"MemoryPool.cpp: Pool<T>::put")],
 [("free lists", "blocks available for reuse, keyed by capacity", S+"MemoryPool.h"), ("high-water counters", "total blocks ever allocated", S+"MemoryPool.h")])

prop("M02", "Shared field handles free their field exactly once, after the last use",
 "However handles to a store-provided field are created, copied, assigned (including to themselves, to or from an empty handle, or from a raw field), detached and destroyed, the field and its values stay alive and unchanged while any attached handle refers to it, the reported reference count equals the number of attached handles, and the field's storage goes back to the pool exactly once when the last one lets go. No such history reads freed memory, leaks a field, or makes two live fields share storage.",
 ["histories"], "every sequence of handle operations (create, copy-construct, assign, self-assign, null-assign, detach, destroy) over a small set of handles and fields, up to the depth bound, for store-built, externally wrapped and raw-field handles",
 "memtest2/testField create and drop handles in straight-line code; lifetime errors need aliasing plus a specific order of assignment, detach and destruction",
 [S+"SpatialFieldStore.h", S+"SpatialField.h", S+"MemoryPool.cpp"],
 [("shared reference count", S+"SpatialFieldStore.h: SpatFldPtr copy/assign/detach/destructor"), ("field destructor returns pool storage", S+"SpatialField.h: ~SpatialField"), ("store get/restore", S+"SpatialFieldStore.h: get_from_window/get/restore_field")])

prop("M03", "Index maps and window splitting are exact bijections and partitions",
 "For every window, converting between (i,j,k) triples and flat memory indices is a bijection onto exactly the cells of that window (x fastest, then y, then z) in both directions, relative to the window and to the whole array. Splitting a window by any admissible split pattern yields sub-windows that are pairwise disjoint, cover every cell exactly once, stay inside the parent array and differ in extent by at most one cell per direction; small-integer-vector arithmetic and comparison act component-wise.",
 ["inputs", "configurations"], "all array dimensions, offsets, extents and split patterns up to the size bound",
 "testMemWindow uses a handful of windows and two split patterns; off-by-one errors show only for particular offsets, degenerate directions or remainders",
 [S+"MemoryWindow.h", S+"MemoryWindow.cpp", S+"FVTools.h", S+"IntVec.h", S+"Numeric3Vec.h"],
 [("ijk_to_flat / flat_to_ijk", S+"MemoryWindow.h, "+S+"IndexTriplet.h/FVTools.h"), ("refine remainder distribution", S+"MemoryWindow.cpp: MemoryWindow::refine")])

prop("M04", "Field iterators visit exactly the cells of their window, in order",
 "Iterating a field (mutable, const, with or without ghosts) from begin to end visits every cell of the corresponding window exactly once in x-fastest order and nothing else, and end-begin equals the number of cells. Every combination of ++, --, +=, -=, +, -, [], difference, ordering comparison and dereference behaves like the same operation on an index into that ordered list of cells.",
 ["inputs", "histories"], "all windows (dimensions, offsets, extents) up to the bound, and all sequences of iterator moves staying within [begin,end] from every position",
 "testField walks whole fields with ++; jumps across row and plane boundaries of sub-windows are sampled at best",
 [S+"MemoryWindow.h", S+"SpatialField.h"],
 [("incremental position bookkeeping", S+"MemoryWindow.h: FieldIterator/ConstFieldIterator operator++/--/+="), ("begin/end/interior_begin/interior_end", S+"SpatialField.h")])

# ---------------------------------------------------------------- fields
prop("F01", "Ghost, boundary and extent bookkeeping follows its arithmetic exactly",
 "Ghost-cell counts add, subtract, take minima and convert from stencil points component-wise per face, with unbounded counts absorbing additions and never allowed as a subtrahend. A field type owns an extra plane on the plus side of a direction exactly when that type is staggered on that face direction and the domain has a physical boundary there; array extents are then interior plus extra plus both ghost layers in every direction with more than one cell, and exactly one cell in the others.",
 ["inputs", "configurations"], "all ghost counts up to the bound (including the unbounded value), all domain shapes up to the bound, all boundary-flag combinations, all sixteen staggered field types",
 "testTools checks a couple of shapes; degenerate directions combined with asymmetric ghosts and boundary flags are not enumerated",
 [S+"GhostData.h", S+"GhostData.cpp", S+"BoundaryCellInfo.h", S+"FVTools.h", S+"FVStaggeredFieldTypes.h", S+"FVStaggeredLocationTypes.h", S+"IndexTriplet.h"],
 [("GhostData algebra", S+"GhostData.cpp"), ("BoundaryCellInfo::build/has_bc/has_extra", S+"BoundaryCellInfo.h"), ("get_dim_with_ghost/get_window_with_ghost", S+"FVTools.h")])

prop("F02", "Field copies, views and reshapes alias exactly the cells they should",
 "A copy-constructed field, a windowed view, a ghost-resized view and a reshaped view all read and write the same storage as their parent at exactly the cells of their own window, and a write through one of them changes no other cell. Whole-field assignment copies every value of the window and leaves the two fields independent, mismatched windows are rejected with an exception, a field wrapping caller-supplied memory uses that memory and never frees it, and element access by (i,j,k), by flat index and by iterator agree.",
 ["inputs", "histories"], "all parent shapes and ghost widths, all sub-windows and ghost resizes up to the bound, and all short sequences of view creation, writes through views, assignment and destruction",
 "testField exercises one shape with a few copies; aliasing errors depend on the sub-window offset/extent and on which view is destroyed first",
 [S+"SpatialField.h", S+"MemoryWindow.h", S+"MemoryPool.cpp"],
 [("shallow copy and windowed constructors", S+"SpatialField.h: SpatialField constructors"), ("operator=, operator()(i,j,k), operator[]", S+"SpatialField.h"), ("reshape / reset_valid_ghosts", S+"SpatialField.h")])

prop("F03", "A mask contains exactly the points it was built from",
 "For any set of points inside a field's window (including ghost cells, duplicates, and any memory alignment), the mask built from it answers true at exactly those points, by point query, by iteration over the interior or the whole window, and by random-access iterator movement. Copies and re-windowed views of the mask give the same answers, and using a mask never changes it.",
 ["inputs", "histories"], "all subsets of points of small fields, all singletons and pairs on larger fields that span several storage words, all iterator movements, all ghost widths up to the bound",
 "testMask uses one shape and one point set; bit-packing errors appear only for particular offsets relative to word boundaries",
 [S+"SpatialMask.h", S+"BitField.h"],
 [("bit packing: find_position/add_point/operator()", S+"BitField.h: BitField"), ("mask iterator position updates", S+"BitField.h: ConstMaskIterator")])

prop("F04", "Field comparisons decide exactly the documented equality",
 "Each field comparison (exact, relative, absolute and units-in-last-place; field against field and field against scalar) returns true if and only if every cell of the compared windows satisfies the documented inequality for the given tolerance, regardless of the tolerance's sign, and the not-equal form is always its negation. Fields with different windows are rejected with an exception, and neither argument is modified.",
 ["inputs"], "all assignments of values from a set of boundary-case magnitudes (zero, tolerance-straddling, adjacent representable numbers, negative) to the cells of small fields, for all tolerances in a boundary set",
 "testFieldComparisons samples random fields and a few tolerances; a wrong operator or a skipped cell survives unless the deciding cell is the only differing one",
 [S+"FieldComparisons.h"],
 [("cell loop with per-kind error test", S+"FieldComparisons.h: field_equal, field_equal_abs, field_equal_ulp"), ("norm-based absolute floor", S+"FieldComparisons.h: field_equal")])

prop("F05", "Grid coordinates and spacings match the staggered locations",
 "For every grid extent and domain length, the spacing in each direction is length/extent and the coordinate field of every staggered field type holds, at every cell including ghosts and boundary extra cells, the exact position of that staggered location: cell-centred directions at half-integer multiples of the spacing and face directions at integer multiples, counted from the first interior cell. Setting one coordinate touches only the destination field and all three coordinates agree with the single-coordinate calls.",
 ["inputs", "configurations"], "all grid extents up to the bound in each direction, all staggered types, ghost widths, boundary flags and coordinate directions",
 "testGrid checks one grid size; wrong offsets for face types or asymmetric ghosts are invisible on the sampled shape",
 [S+"Grid.h", S+"Grid.cpp", S+"FVStaggeredLocationTypes.h"],
 [("coordinate fill loop with stagger shift", S+"Grid.cpp: Grid::set_coord"), ("spacing", S+"Grid.cpp: Grid::spacing")])

prop("F06", "Refused device requests leave fields and masks fully usable",
 "In a build without accelerator support every field, copy, view and mask reports the memory type and device index it was created with, is available exactly there, and hands out its own storage there. Asking to create, share or fetch one on a memory type the build does not support, or to share it with another device, is refused with an exception and changes nothing: the object and all its copies and views can still be read, written, assigned, iterated and released, with unchanged values and unchanged storage-pool counts.",
 ["histories", "fault_sequences"], "all sequences of residency requests (add, find, remove, fetch, create, copy, view) up to the depth bound over memory types and device indices",
 "the tests never continue to use a field after a refused request",
 [S+"SpatialField.h", S+"BitField.h", S+"SpatialMask.h", S+"SpatialFieldStore.h"],
 [("consumer requests", S+"SpatialField.h: SpatialField::add_consumer"), ("mask consumer requests", S+"BitField.h: BitField::add_consumer"), ("store requests for other memory types", S+"SpatialFieldStore.h: get_from_window")])

# ---------------------------------------------------------------- Nebo
prop("N01", "Field assignment writes exactly the valid cells, each from its own location",
 "Assigning an expression to a field writes every interior (and boundary-extra) cell plus exactly those ghost layers that the destination holds and that are valid on every operand, with the value of the expression at the same location; the interior-only form writes the interior and extra cells only. No other cell of the destination, and no cell of any operand, changes, for whole fields and sub-window views alike, and operands lacking the cells needed to fill the interior are rejected with an exception before anything is written.",
 ["inputs", "configurations"], "all field shapes, per-face ghost widths of destination and operands, boundary flags and staggered types up to the bound, for scalar, field, expression, single-value and conditional right-hand sides, with and without ghosts",
 "NeboTest compares a few expressions on one shape with equal ghosts on both sides, so footprint errors for mismatched ghosts or boundary extras are not exercised",
 ["spatialops/NeboAssignment.h", "spatialops/NeboLhs.h", "spatialops/NeboRhs.h", "spatialops/NeboBasic.h", S+"SpatialField.h"],
 [("calculate_valid_ghost / calculate_valid_lhs_ghost", "spatialops/NeboBasic.h"), ("resize_ghost and shift_window", "spatialops/NeboBasic.h"), ("sequential walk assign", "spatialops/NeboLhs.h: NeboField<SeqWalk>::assign")])

prop("N02", "Every expression operator computes its mathematical value cell by cell",
 "Each arithmetic operator, elementary function, extremum, comparison and logical operator of the expression language, applied to any combination of scalars, fields, sub-expressions, single-value fields and masks in any operand position, evaluates at each cell to the corresponding C++ operation on the operands' values at that cell, with operands in the written order. Nesting preserves this: a compound expression equals evaluating its parts into temporaries, and evaluation never modifies an operand.",
 ["inputs", "programs"], "every operator with every operand-kind combination it accepts, every two-level composition of operators over representative operand kinds, over a set of operand values covering signs, zeros, ties, non-finite and extreme values",
 "NeboTest and cond_test use each operator with one or two operand-kind combinations; each of the hundreds of hand-expanded overloads can be wrong independently",
 ["spatialops/NeboOperators.h", "spatialops/NeboRhs.h", "spatialops/NeboMask.h"],
 [("per-operator walk structs", "spatialops/NeboOperators.h"), ("overload set per operand-kind combination", "spatialops/NeboOperators.h"), ("scalar / field / single-value leaves", "spatialops/NeboRhs.h")])

prop("N03", "Conditional expressions select the first true clause at each cell",
 "A conditional expression evaluates at each cell to the value of the first clause, in the order written, whose condition is true at that cell, and to the final otherwise-value if none is. This holds for any number of clauses and any mix of boolean constants, boolean expressions and masks as conditions and of scalars, fields and expressions as values, and whether the conditional is assigned, nested in another expression or reduced.",
 ["inputs", "programs"], "all clause chains up to the length bound over all combinations of condition kinds and value kinds, and all truth assignments of the conditions",
 "cond_test checks selected chains with fixed truth values; clause reordering for one kind combination is visible only for one truth assignment",
 ["spatialops/NeboCond.h", "spatialops/NeboMask.h"],
 [("clause list reversal", "spatialops/NeboCond.h: CondBuilder::ReverseClauses"), ("first-match evaluation", "spatialops/NeboCond.h: NeboCond eval")])

prop("N04", "Reductions fold exactly the valid cells, once each, in order",
 "Maximum, minimum, sum, norm, and user-supplied reduce and fold operations over a field or any expression (including stencils and conditionals) combine every valid cell of the expression exactly once in x-fastest order, starting from the given initial value for folds, and the interior forms combine exactly the interior cells. The operands are not modified.",
 ["inputs", "configurations"], "all shapes, ghost widths and boundary flags up to the bound; all positions of a distinguished value; a non-commutative fold that records order; field, expression, mask-conditional, single-value and stencil operands",
 "the reduction tests check totals on one shape; a missed or repeated ghost/extra cell or an order change is invisible for those values",
 ["spatialops/NeboReductions.h", "spatialops/NeboRhs.h", "spatialops/NeboStencils.h"],
 [("reduction walk with at_end", "spatialops/NeboReductions.h: nebo_fold/nebo_reduce"), ("reduce_init of each expression node", "spatialops/NeboRhs.h, NeboOperators.h, NeboStencils.h, NeboCond.h")])

# ---------------------------------------------------------------- stencils
prop("S01", "Staggered-grid operators apply the right stencil at every valid cell",
 "Every interpolant, gradient, divergence, filter and finite-difference operator registered for any pair of staggered field types uses the correct spacing-dependent coefficients and sets each destination cell to the weighted sum of precisely those source cells adjacent to that location (same-location for null operators), over the largest ghost region for which all of them are valid, and writes no other cell. Consequently interpolants and filters reproduce linear functions of position and gradients, divergences and finite differences return their exact slope, for every grid shape and spacing.",
 ["inputs", "configurations"], "all registered (operator, source, destination) types, all grid shapes up to the bound with distinct spacings per direction, all boundary-flag combinations, several ghost widths, and every unit-impulse source field",
 "the stencil tests compare against a reference on a few shapes with smooth data at fixed ghosts; wrong direction, offset or footprint for one type pair or boundary combination can cancel",
 ["spatialops/NeboStencilBuilder.h", "spatialops/NeboStencils.h", S+"stencil/StencilBuilder.cpp", S+"stencil/FVStaggeredOperatorTypes.h", S+"IndexTriplet.h", S+"FVStaggeredFieldTypes.h"],
 [("stencil-point derivation from offsets", "spatialops/NeboStencilBuilder.h: Stencil2Collection/Stencil4Collection/FDStencilCollection"), ("coefficients and registration", S+"stencil/StencilBuilder.cpp: build_stencils"), ("shifted windows and ghost consumption", "spatialops/NeboStencils.h")])

prop("S02", "Boundary-condition operators make the operator reproduce the imposed value",
 "After a boundary condition is imposed through an operator on any set of boundary points and either side, applying that operator yields the prescribed value at each of those points, and only the ghost-side source cells belonging to those points have changed; direct boundary conditions set exactly the listed cells. Single-point, multi-point and mask-based forms, on minus and plus sides and with scalar, field and expression boundary values, agree with each other.",
 ["inputs", "configurations"], "all boundary points, point sets up to the bound, both sides, all supported operators, shapes, boundary flags and ghost widths up to the bound",
 "testOpBC uses the single-point form and testNeboBC one mask; the multi-point form is not tested at all",
 [S+"stencil/FVStaggeredBCOp.h", S+"FVStaggeredBCTools.h", "spatialops/NeboStencilBuilder.h", "spatialops/NeboMask.h", "spatialops/NeboStencils.h"],
 [("inversion of the two-point operator", S+"stencil/FVStaggeredBCOp.h: BoundaryConditionOp"), ("masked in-place update with shifted mask", "spatialops/NeboStencilBuilder.h: NeboBoundaryConditionBuilder"), ("direct set", S+"FVStaggeredBCTools.h: BoundaryCondition")])

prop("S03", "User-defined and chained stencils equal their expanded sums",
 "A stencil built from any list of relative points with coefficients (or as a plain sum or an average) evaluates to the sum over its points, in order, of coefficient times the operand shifted by that point, consumes exactly as many ghost layers per face as its points reach, and gives the same values whether applied to a field, to an expression, or to another stencil as when the inner expression is first stored in a field. Coefficient lists return each coefficient at its own position and reject positions outside the list.",
 ["inputs", "programs"], "all point offsets in the 3x3x3 neighbourhood and representative multi-point lists, all two-stencil compositions over them, field and expression operands, all ghost widths up to the bound",
 "the chain tests cover fixed operator pairs on one shape; coefficient order and per-face ghost consumption of user-defined lists are not varied",
 ["spatialops/NeboStencils.h", "spatialops/NeboStencilBuilder.h"],
 [("recursive point collection construction", "spatialops/NeboStencils.h: NeboStencilPointCollection"), ("coefficient collection", "spatialops/NeboStencils.h: NeboStencilCoefCollection"), ("sum/average builders", "spatialops/NeboStencilBuilder.h")])

# ---------------------------------------------------------------- other components
prop("O01", "Operator database returns the operator that was registered",
 "Registering an operator returns an id that is distinct from every other id for that operator type, and retrieving by type and id (or by type alone when exactly one is registered) returns that same object for as long as the database lives, whatever else is registered. Ambiguous, unknown-id and unknown-type requests throw without side effects, and each registered operator is destroyed exactly once, when the database is emptied or the last copy of it goes away.",
 ["histories"], "all sequences of register (several types), retrieve (by id, by type, invalid id), empty, copy and destroy operations up to the depth bound",
 "the tests register a fixed set of stencils once and never exercise ambiguity, emptying or re-registration",
 ["spatialops/OperatorDatabase.h"],
 [("type-keyed list of id maps", "spatialops/OperatorDatabase.h: OperatorDatabase::find/register_new_operator"), ("id allocation and lookup", "spatialops/OperatorDatabase.h: OpStore::add/get")])

prop("O02", "Lagrange interpolation reproduces polynomials up to its order",
 "For any strictly increasing abscissae and any evaluation point inside, on, between or outside them, interpolation of order n reproduces every polynomial of degree at most n and its derivative operator reproduces the exact derivative, using n+1 consecutive in-range points that bracket the evaluation point as closely as the table allows. The coefficient/index form and the value form agree.",
 ["inputs"], "all meshes (uniform and non-uniform) up to the length bound, all orders the mesh supports, all evaluation points on a lattice including nodes, midpoints, ends and outside, all monomials up to the order",
 "testLagrange checks a few meshes, orders and points against smooth functions with tolerances",
 [S+"onedim/LagrangePoly.h", S+"onedim/LagrangePoly.cpp"],
 [("point selection with boundary adjustment", S+"onedim/LagrangePoly.cpp: get_bounds"), ("coefficient products", S+"onedim/LagrangePoly.cpp: get_interp_coefs_indices/get_derivative_coefs_indices")])

prop("O03", "Particle-mesh transfer conserves and matches cell overlap exactly",
 "Transferring particle data to the mesh gives each cell exactly the sum over particles of value times the fraction of the particle's extent lying in that cell, so the total is conserved, and transferring mesh data to particles gives each particle the overlap-weighted mean of the cells it covers, so constants are preserved. This holds for any uniform mesh (any origin and spacing), any particle positions and sizes lying inside it, and non-uniform meshes or particles outside the domain are rejected with an exception.",
 ["inputs"], "all particle centre/size combinations on a sub-cell lattice, for one and two particles, several mesh sizes, spacings and origins",
 "TestParticleOperators uses one mesh anchored at one origin with a handful of particles",
 ["spatialops/particles/ParticleOperators.h", "spatialops/particles/ParticleFieldTypes.h"],
 [("left-cell search and overlap walk", "spatialops/particles/ParticleOperators.h: apply_to_field"), ("uniformity check", "spatialops/particles/ParticleOperators.h: constructors")])

prop("O04", "Point gather and scatter move exactly the selected values",
 "Extracting points from a field yields, in order, exactly the values at the selected locations, and putting a point field back writes exactly those locations and no others, whether the selection is given as indices or as a field of non-zero markers (markers being taken in memory order over the whole ghosted field). Extract followed by put-back is the identity on the field.",
 ["inputs"], "all marker fields and all index lists (ordered, unordered) over small fields with all ghost widths up to the bound",
 "testPointField uses one index list",
 ["spatialops/pointfield/PointOperators.h", "spatialops/pointfield/PointFieldTypes.h"],
 [("index construction from markers", "spatialops/pointfield/PointOperators.h constructors"), ("gather/scatter loops", "spatialops/pointfield/PointOperators.h apply_to_field")])

prop("O05", "Analytic field functions and their derivatives are mutually consistent",
 "Each analytic field function (linear, sine, Gaussian, hyperbolic tangent) evaluates, at every cell including ghosts, to its closed-form expression of the coordinate, and its first- and second-derivative operations evaluate to the exact derivatives of that same expression. The coordinate fields are not modified.",
 ["inputs"], "all parameter combinations from a set covering signs and zero, over lattices of coordinates, for every function and derivative provided",
 "functions are only used to fill fields in tests; the derivative forms of the non-polynomial functions are not checked against the functions",
 ["spatialops/FieldFunctions.h"],
 [("evaluate/dx/d2x expressions", "spatialops/FieldFunctions.h")])

prop("O06", "Matlab export writes every requested value once, in order",
 "Writing a field to a Matlab loader file produces a function whose vector holds exactly the interior values (or all values including ghosts when requested), each once, in iteration order and with enough digits to identify it to a relative precision of 1e-14. The field is not modified and earlier contents of the file do not survive.",
 ["inputs"], "all field shapes and ghost widths up to the bound, with and without ghosts, single-cell windows, signed and extreme values, repeated writes to the same file",
 "no test reads the file back",
 ["spatialops/WriteMatlab.h"],
 [("write loop", "spatialops/WriteMatlab.h: write_matlab")])

# ---------------------------------------------------------------- threading
prop("T01", "Every scheduled task runs exactly once and wait means done",
 "In every interleaving of schedulers and workers, each task accepted by a thread pool is executed exactly once, never by two workers, and never dropped while the pool is running with at least one active worker. A wait for an empty pool returns only after all tasks scheduled before it have completed, with their effects visible, a wait with a threshold or a time limit returns as soon as that condition permits, active/pending counts are never wrong at quiescence, and no interleaving deadlocks.",
 ["schedules"], "all interleavings, up to the preemption bound, of one or two scheduling threads (including tasks that schedule tasks) with one to three workers and up to four tasks",
 "the thread tests run one OS-chosen schedule; lost wakeups and double-takes need a specific interleaving",
 [TP+"detail/pool_core.hpp", TP+"detail/worker_thread.hpp", TP+"pool.hpp", TP+"scheduling_policies.hpp"],
 [("monitor-protected scheduler, notify on schedule", TP+"detail/pool_core.hpp: schedule/execute_task"), ("idle/termination notification for wait", TP+"detail/pool_core.hpp: wait/execute_task"), ("worker loop", TP+"detail/worker_thread.hpp: run")])

prop("T02", "Resizing a running pool never loses tasks or overshoots its size",
 "Changing the worker count or the active-worker limit of a pool, at any moment relative to scheduling, execution and other resizes, loses no task, leaves (once quiescent) exactly the requested number of workers, and never lets more tasks run at once than the active limit in force. Pending tasks make progress whenever the requested sizes are positive, in particular after growing from zero or shrinking to one, and no interleaving deadlocks.",
 ["schedules", "histories"], "all interleavings up to the preemption bound of resize / active-resize sequences (grow, shrink, shrink-then-grow, to and from zero) with scheduling threads and up to four workers",
 "ScalingAssignmentTest resizes between quiet phases only; the races are between a worker deciding to stop and another doing the same",
 [TP+"detail/pool_core.hpp", TP+"size_policies.hpp", "spatialops/ThreadPool.h", "spatialops/ThreadPool.cpp"],
 [("target count and terminating workers", TP+"detail/pool_core.hpp: resize/execute_task/worker_destructed"), ("active limit", TP+"detail/pool_core.hpp: resize_active/execute_task")])

prop("T03", "Shutting down or clearing a pool terminates cleanly in every interleaving",
 "Destroying or shutting down a pool, whatever its shutdown policy, and clearing its pending tasks, always terminates, leaves no worker running and no thread touching destroyed pool state, executes all accepted tasks when the policy is to wait for them, and otherwise executes each task at most once. A task that ends by throwing neither loses other tasks nor shrinks the pool, nor prevents shutdown.",
 ["schedules", "fault_sequences"], "all interleavings up to the preemption bound of pool destruction or clear with scheduling and execution, for each shutdown policy, with each subset of tasks throwing",
 "no test destroys a busy pool or throws from a task",
 [TP+"detail/pool_core.hpp", TP+"shutdown_policies.hpp", TP+"detail/worker_thread.hpp", TP+"detail/scope_guard.hpp"],
 [("terminate_all_workers and join", TP+"detail/pool_core.hpp"), ("replacement of workers that died", TP+"detail/pool_core.hpp: worker_died_unexpectedly, "+TP+"detail/worker_thread.hpp")])

prop("T04", "Tasks start in the order their scheduling policy promises",
 "A single-worker pool starts pending tasks in first-in-first-out, last-in-first-out or highest-priority-first order according to its scheduling policy, for every history of scheduling and removal; the policy's size and emptiness always match its contents and clearing removes everything. Prioritised tasks compare only by priority and run the function they were given.",
 ["histories"], "all sequences of push/pop/clear up to the depth bound over tasks with distinct and equal priorities, on the policies themselves and through single-worker pools",
 "tests only use FIFO with commuting tasks",
 [TP+"scheduling_policies.hpp", TP+"task_adaptors.hpp", TP+"pool.hpp"],
 [("fifo/lifo/prio schedulers", TP+"scheduling_policies.hpp"), ("prio_task_func ordering", TP+"task_adaptors.hpp")])

prop("T05", "Semaphore never loses or invents a permit",
 "In every interleaving, the number of completed waits never exceeds the initial count plus the number of posts, and no thread stays blocked in a wait while a permit is available. It may be destroyed as soon as the last wait that needs it has returned, and what a thread wrote before posting is visible to the thread that the post released.",
 ["schedules"], "all interleavings, including spurious wakeups, of up to four threads performing up to four waits and posts from each initial count up to two",
 "only used indirectly by one OS-chosen schedule in the threaded tests",
 ["spatialops/Semaphore.h"],
 [("mutex/condition counter", "spatialops/Semaphore.h: Semaphore::wait/post")])

prop("T06", "Futures and task adaptors deliver each result exactly once",
 "A future obtained for a scheduled function that returns becomes ready exactly when the function has finished, and every wait or read through any copy of it then returns that function's result. cancel() returns true exactly when the result has not been delivered yet: from then on it never is, a function not yet started is never run, reading throws, and every waiter is released; otherwise the result is delivered as usual. A future is never both ready and cancelled, and no waiter is ever left blocked. The looping task adaptor calls its function until it returns false, with a break of at least the given length before the first and between any two calls.",
 ["schedules", "histories"], "all interleavings up to the preemption bound of scheduling, executing, waiting, polling, timed waiting and cancelling with one or two workers and waiters",
 "nothing in the suite uses futures or the adaptors",
 [TP+"future.hpp", TP+"detail/future.hpp", TP+"task_adaptors.hpp"],
 [("ready flag and condition", TP+"detail/future.hpp: future_impl"), ("schedule adaptor", TP+"future.hpp: schedule"), ("looped_task_func/timed_task_func", TP+"task_adaptors.hpp")])

prop("T07", "Thread-parallel field assignment equals the sequential result",
 "With threading enabled, any field assignment leaves in every cell exactly the value the sequential build would, has finished all its writes before it returns, and performs no unsynchronised conflicting access, for every worker count, active-thread setting, field shape and interleaving. This includes expressions with stencils, masks and conditionals, several user threads assigning to different fields at once, and changing the thread count between assignments.",
 ["schedules", "configurations"], "all interleavings up to the preemption bound of parallel assignments with one to three workers on small fields, and all shapes x thread counts up to the bound for the partitioning itself",
 "the suite compares threaded results on a few large shapes under one OS schedule",
 ["spatialops/NeboLhs.h", "spatialops/NeboBasic.h", "spatialops/NeboRhs.h", "spatialops/ThreadPool.h", "spatialops/ThreadPool.cpp", "spatialops/Semaphore.h"],
 [("partitioning", "spatialops/NeboBasic.h: nebo_find_partition/nebo_next_partition"), ("completion by semaphore", "spatialops/NeboLhs.h: thread_parallel_assign"), ("per-partition windows", "spatialops/NeboLhs.h, NeboRhs.h resize/init with split")])

prop("T08", "Concurrent field creation and release never share or corrupt storage",
 "When several threads create, use and release fields at the same time, through the field store, by direct construction or as masks, up to and including the end of the program, no two live fields ever share storage, every value written by its owner reads back unchanged, the pool's bookkeeping ends equal to the sequential outcome, and there is no unsynchronised conflicting access to the pool's or store's shared state.",
 ["schedules"], "all interleavings up to the preemption bound of two or three threads each doing up to three create/write/release steps by each creation route, from a cold and from a warm pool",
 "no test creates fields from two threads",
 [S+"MemoryPool.cpp", S+"MemoryPool.h", S+"SpatialFieldStore.h", S+"SpatialField.h", S+"BitField.h"],
 [("store mutex", S+"SpatialFieldStore.h: get_mutex"), ("pool get/put", S+"MemoryPool.cpp")])

prop("T09", "Thread-pool configuration calls report and keep the sizes in force",
 "Through the thread-pool configuration interface, after any sequence of capacity and active-size changes, capacity is the last one requested (but at least one), the active size is the last one requested (but at least one, and initially the configured number of threads) limited by the capacity in force, each call returns the value now in force, and the pool, once at rest, really has that many workers and never starts a task that makes more than the active size run at once. A first use from several threads initialises the pool exactly once.",
 ["histories", "schedules"], "all sequences of configuration calls over small sizes up to the depth bound, each followed by running probe tasks, and all interleavings of concurrent first uses",
 "ScalingAssignmentTest performs a monotone sweep of sizes",
 ["spatialops/ThreadPool.h", "spatialops/ThreadPool.cpp", "spatialops/SpatialOpsTools.h"],
 [("resource manager resize/resize_active", "spatialops/ThreadPool.cpp"), ("registration of the singletons", "spatialops/ThreadPool.cpp: ThreadPool::self/ThreadPoolFIFO::self")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P: assert len(p["title"]) <= 80, p["id"]
